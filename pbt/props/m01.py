"""M01: an immutable Map is observationally a sorted dictionary, through every history of operations."""

from __future__ import annotations

import functools
import random
from typing import Any

from hypothesis import strategies as st

from expression import Error, Nothing, Ok, Option, Some, pipe
from expression.collections import Block, Map, block
from expression.collections import map as fmap

from ..core import Ctx, Property
from ..util import ORDERS, expect, outcome, payloads, same, shuffled, twin
from ..values import Later

PROPERTY = Property(
    "M01",
    rule="histories of operations (single and bulk) over int/str/tuple/float/Option keys replayed on a plain dict; a case is "
    "non-trivial when the map held at least 3 bindings at some point and at least one binding was overwritten, removed "
    "or filtered out",
    assumptions=["keys are totally ordered and == agrees with <; callbacks do not mutate their arguments"],
)

# ------------------------------------------------------------------ the model


class Api:
    """Both spellings of each operation: fluent method and curried module function."""

    def __init__(self, functional: bool) -> None:
        self.f = functional

    def add(self, m: Any, k: Any, v: Any) -> Any:
        return pipe(m, fmap.add(k, v)) if self.f else m.add(k, v)

    def remove(self, m: Any, k: Any) -> Any:
        return pipe(m, fmap.remove(k)) if self.f else m.remove(k)

    def change(self, m: Any, k: Any, fn: Any) -> Any:
        return pipe(m, fmap.change(k, fn)) if self.f else m.change(k, fn)

    def filter(self, m: Any, p: Any) -> Any:
        return pipe(m, fmap.filter(p)) if self.f else m.filter(p)

    def partition(self, m: Any, p: Any) -> Any:
        return pipe(m, fmap.partition(p)) if self.f else m.partition(p)

    def map(self, m: Any, fn: Any) -> Any:
        return pipe(m, fmap.map(fn)) if self.f else m.map(fn)


def pairs(d: dict[Any, Any]) -> list[tuple[Any, Any]]:
    return [(k, d[k]) for k in sorted(d)]


class Text(str):
    """A string of another type, equal to the plain one."""


def equal_key(k: Any) -> Any:
    """A key equal to k which is another object, of another type where there is one."""
    if isinstance(k, tuple):
        return tuple(equal_key(x) for x in k)
    if isinstance(k, Option):
        return k.map(equal_key)
    if isinstance(k, str):
        return Text(k)
    if isinstance(k, bool):
        return int(k)
    if isinstance(k, int) and abs(k) < 2**53:
        return float(k)
    if isinstance(k, float) and k.is_integer():
        return int(k)
    return k


TRUTHS: list[Any] = [(False, True), ("", "yes"), (None, (0,)), (0, 2)]


def kv_pred(code: Any) -> Any:
    """Predicates, answering with booleans or with other true and false values."""
    p = bool_pred(code)
    no, yes = TRUTHS[len(repr(code)) % 4]
    return lambda k, v: yes if p(k, v) else no


def bool_pred(code: Any) -> Any:
    kind, n = code
    if kind == "key":
        return lambda k, v: hash(("k", n, k)) % 3 != 0
    if kind == "val":
        return lambda k, v: hash((n, repr(v))) % 2 == 0
    if kind == "at":
        return lambda k, v: k == n
    if kind == "not":
        return lambda k, v: k != n
    return lambda k, v: n % 2 == 0


def observe(m: Any, d: dict[Any, Any], absent: Any, depth: int) -> None:
    """Every way of looking at the map must describe the dictionary, in ascending key order."""
    want = pairs(d)
    keys = [k for k, _ in want]
    same(list(m.to_seq()), want, "to_seq")
    same(list(m), keys, "iteration")
    same(len(m), len(want), "len")
    if depth == 0:
        return
    same(bool(m), bool(want), "bool")
    same(m.is_empty(), not want, "is_empty")
    same(fmap.is_empty(m), not want, "map.is_empty")
    same(fmap.count(m), len(want), "count")
    same(list(m.to_list()), want, "to_list")
    expect(isinstance(m.to_list(), Block), "to_list type")
    same(list(fmap.to_list(m)), want, "map.to_list")
    same(list(fmap.to_seq(m)), want, "map.to_seq")
    same(list(m.items()), want, "items")
    same(list(m.keys()), keys, "keys")
    same(list(m.values()), [v for _, v in want], "values")
    for k, v in want:
        same(m[k], v, f"[{k!r}]")
        same(m.contains_key(k), True, f"contains_key({k!r})")
        same(k in m, True, f"{k!r} in")
        same(m.try_find(k).to_list(), [v], f"try_find({k!r})")
        same(m.get(k, "missing"), v, f"get({k!r})")
        same(pipe(m, fmap.find(k)), v, f"find({k!r})")
        same(pipe(m, fmap.try_find(k)).to_list(), [v], f"map.try_find({k!r})")
        same(pipe(m, fmap.contains_key(k)), True, f"map.contains_key({k!r})")
        out: list[Any] = []
        same(m.try_get_value(k, out), True, "try_get_value")
        same(out, [v], "try_get_value output")
        e = equal_key(k)  # a lookup goes by equality, not by identity or by type
        same(m[e], v, f"[{e!r}]")
        same(m.contains_key(e), True, f"contains_key({e!r})")
        same(e in m, True, f"{e!r} in")
        same(m.try_find(e).to_list(), [v], f"try_find({e!r})")
        same(m.get(e, "missing"), v, f"get({e!r})")
        same(pipe(m, fmap.contains_key(e)), True, f"map.contains_key({e!r})")
    for k in absent:
        if k in d:
            continue
        same(m.contains_key(k), False, f"contains_key({k!r})")
        same(k in m, False, f"{k!r} in")
        same(pipe(m, fmap.contains_key(k)), False, f"map.contains_key({k!r})")
        expect(m.try_find(k).is_none(), "try_find absent", k)
        expect(pipe(m, fmap.try_find(k)).is_none(), "map.try_find absent", k)
        same(m.get(k, "missing"), "missing", f"get({k!r})")
        same(outcome(lambda: m[k]), ("exc", KeyError), f"[{k!r}]")
        same(outcome(lambda: pipe(m, fmap.find(k))), ("exc", KeyError), f"find({k!r})")
        out = []
        same(m.try_get_value(k, out), False, "try_get_value")
        same(out, [], "try_get_value output")

    # traversals: order and multiplicity
    log: list[Any] = []
    expect(m.iterate(lambda k, v: log.append((k, v)) or len(log) % 2) is None, "iterate result")
    same(log, want, "iterate")
    log = []
    fmap.iterate(lambda k, v: log.append((k, v)) or v)(m)
    same(log, want, "map.iterate")
    for state in (None, 0, "", (), False):
        mix = lambda s, kv: [s, kv, None, 0, (s, kv[0])][hash((repr(s), repr(kv))) % 5]  # noqa: E731
        same(m.fold(mix, state), functools.reduce(mix, want, state), "fold")
        same(pipe(m, fmap.fold(mix, state)), functools.reduce(mix, want, state), "map.fold")
        same(m.fold_back(lambda kv, s: mix(s, kv), state), functools.reduce(mix, want[::-1], state), "fold_back")
        same(pipe(state, fmap.fold_back(lambda kv, s: mix(s, kv), m)), functools.reduce(mix, want[::-1], state), "map.fold_back")
        if depth == 0:
            break
    same(m.fold(lambda s, kv: [*s, kv], []), want, "fold")
    same(pipe(m, fmap.fold(lambda s, kv: [*s, kv], [])), want, "map.fold")
    same(m.fold_back(lambda kv, s: [*s, kv], []), want[::-1], "fold_back")
    same(pipe([], fmap.fold_back(lambda kv, s: [*s, kv], m)), want[::-1], "map.fold_back")
    # search
    ends = [("at", keys[i]) for i in {0, len(keys) // 2, len(keys) - 1}] if keys else []
    for code in (("key", 1), ("val", 2), ("const", 0), ("const", 1), *ends, *[("not", k) for _, k in ends]):
        p = kv_pred(code)
        hits = [kv for kv in want if p(*kv)]
        same(bool(m.exists(p)), bool(hits), "exists")
        same(bool(pipe(m, fmap.exists(p))), bool(hits), "map.exists")
        same(bool(m.for_all(p)), len(hits) == len(want), "for_all")
        same(bool(pipe(m, fmap.for_all(p))), len(hits) == len(want), "map.for_all")
        chooser = lambda k, v: Some((v, k)) if p(k, v) else Nothing  # noqa: E731,B023
        first = [(v, k) for k, v in hits[:1]]
        same(m.try_pick(chooser).to_list(), first, "try_pick")
        same(pipe(m, fmap.try_pick(chooser)).to_list(), first, "map.try_pick")
        same(
            outcome(lambda: pipe(m, fmap.pick(chooser))),  # noqa: B023
            ("ok", first[0]) if first else ("exc", KeyError),
            "pick",
        )


# ------------------------------------------------------------------ generators
VALUES: list[Any] = [Later(), Nothing, Some(None), Some(0), Ok(1), Error(""), Some(Some(1)), Some(Nothing), Map.empty(), Map.of(a=1), Block(), Block([0])]


def values() -> Any:
    """Codes of values: plain ones, and options, results and collections (see revive)."""
    return st.one_of(payloads(), payloads(), st.tuples(st.just("V"), st.integers(0, len(VALUES) - 1)))


def revive(code: Any) -> Any:
    """The keys and values a code stands for."""
    if type(code) is tuple and code[:1] == ("K",):
        return Some(code[1]) if len(code) > 1 else Nothing
    if type(code) is tuple and code[:1] == ("V",):
        return VALUES[code[1]]
    if type(code) in (tuple, list):
        return type(code)([revive(c) for c in code])
    return code


def key_strategy(kind: str) -> Any:
    if kind == "option":  # an ordered type of the library itself
        return st.one_of(st.just(("K",)), st.tuples(st.just("K"), st.integers(-2, 8)))
    if kind == "int":
        return st.integers(-4, 12)
    if kind == "str":
        return st.text("abZ", max_size=3)
    if kind == "tuple":
        return st.tuples(st.integers(0, 3), st.sampled_from(["", "a", "b"]))
    return st.sampled_from([-1.5, 0.0, 0.5, 1.0, 2.0, 1e9, float("inf"), float("-inf")])


def nth_key(kind: str, i: int) -> Any:
    """An order-preserving enumeration of keys, used by the bulk operations."""
    if kind == "option":
        return Some(i - 1) if i else Nothing
    if kind == "int":
        return i - 4
    if kind == "str":
        return chr(97 + i // 26 % 26) + chr(97 + i % 26)
    if kind == "tuple":
        return (i // 5, "abcde"[i % 5])
    return i / 4.0


CHANGES = ["some", "none", "same", "toggle", "wrap"]


def op_strategy(kind: str) -> Any:
    key = key_strategy(kind)
    return st.one_of(
        st.tuples(st.just("add"), key, values()),
        st.tuples(st.just("add"), key, values()),
        st.tuples(st.just("remove"), key),
        st.tuples(st.just("change"), key, st.sampled_from(CHANGES), values()),
        st.tuples(st.just("filter"), st.tuples(st.sampled_from(["key", "val", "const"]), st.integers(0, 3))),
        st.tuples(
            st.just("partition"), st.tuples(st.sampled_from(["key", "val", "const"]), st.integers(0, 3)), st.integers(0, 1)
        ),
        st.tuples(st.just("map"), st.integers(0, 3)),
        st.tuples(
            st.just("bulk"), st.sampled_from(["add", "remove", "mixed", "change"]), st.sampled_from(ORDERS), st.integers(1, 60) | st.integers(1, 200), st.integers(0, 99)
        ),
        st.tuples(st.just("drain"), st.sampled_from(["min", "max", "mid", "root"]), st.integers(1, 30)),
    )


def history() -> Any:
    def build(kind: str) -> Any:
        init = st.lists(st.tuples(key_strategy(kind), values()), max_size=8)
        return st.tuples(
            st.just(kind),
            st.sampled_from(["of_seq", "of_list", "of_block", "create", "empty", "iter", "of"]),
            init,
            st.lists(st.tuples(st.booleans(), op_strategy(kind)), max_size=25),
        )

    return st.sampled_from(["int", "int", "str", "tuple", "float", "option"]).flatmap(build)


def construct(how: str, init: list[Any]) -> tuple[Any, dict[Any, Any]]:
    if how == "empty":
        return (Map.empty() if len(init) % 2 else fmap.empty), {}
    d = dict(init)
    if how == "of":
        kw = {str(k): v for k, v in init}
        return (Map.of(**kw) if len(init) % 2 else fmap.of(**kw)), kw
    if how == "of_seq":
        return (Map.of_seq(init) if len(init) % 2 else fmap.of_seq(tuple(init))), d
    if how == "of_list":
        return (Map.of_list(init) if len(init) % 2 else fmap.of_list(init)), d
    if how == "of_block":
        return (Map.of_block(Block(init)) if len(init) % 2 else fmap.of_block(block.of_seq(init))), d
    if how == "create":
        return (Map.create(init) if len(init) % 2 else fmap.create(init)), d
    return Map.of_seq(iter(init)), d


def step(api: Api, m: Any, d: dict[Any, Any], kind: str, op: tuple[Any, ...]) -> tuple[Any, dict[Any, Any], bool]:
    """Apply one operation to map and model; third result: did it shrink/overwrite anything?"""
    name = op[0]
    if name == "add":
        _, k, v = op
        return api.add(m, k, v), {**{a: b for a, b in d.items() if a != k}, k: v}, k in d
    if name == "remove":
        k = op[1]
        return api.remove(m, k), {a: b for a, b in d.items() if a != k}, k in d
    if name == "change":
        _, k, how, v = op
        calls: list[Any] = []

        def fn(cur: Any) -> Any:
            expect(isinstance(cur, Option), "change callback receives an option", cur)
            calls.append(cur.to_list())
            if how == "some":
                return Some(v)
            if how == "none":
                return Nothing
            if how == "same":
                return cur
            if how == "toggle":
                return Nothing if cur.is_some() else Some(v)
            return cur.map(lambda x: (x, v))

        m2 = api.change(m, k, fn)
        cur = [d[k]] if k in d else []
        same(calls, [cur], "change callback calls")
        new = {"some": [v], "none": [], "same": cur, "toggle": [] if cur else [v], "wrap": [(x, v) for x in cur]}[how]
        d2 = {a: b for a, b in d.items() if a != k}
        if new:
            d2[k] = new[0]
        return m2, d2, k in d
    if name == "filter":
        p = kv_pred(op[1])
        seen: list[Any] = []
        m2 = api.filter(m, lambda k, v: (seen.append(k), p(k, v))[1])
        same(sorted(seen), sorted(d), "filter visits every binding exactly once")
        d2 = {k: v for k, v in d.items() if p(k, v)}
        return m2, d2, len(d2) < len(d)
    if name == "partition":
        p = kv_pred(op[1])
        yes, no = api.partition(m, p)
        dy = {k: v for k, v in d.items() if p(k, v)}
        dn = {k: v for k, v in d.items() if not p(k, v)}
        observe(yes, dy, (), 0)
        observe(no, dn, (), 0)
        return (no, dn, bool(dy)) if op[2] else (yes, dy, bool(dn))
    if name == "map":
        n = op[1]
        fn2 = [lambda k, v: v, lambda k, v: (k, 1), lambda k, v: None, lambda k, v: twin(v)][n]
        seen = []
        m2 = api.map(m, lambda k, v: (seen.append((k, v)), fn2(k, v))[1])
        same(sorted(k for k, _ in seen), sorted(d), "map visits every binding exactly once")
        for k, v in seen:
            same(v, d[k], "map callback value")
        return m2, {k: fn2(k, v) for k, v in d.items()}, False
    if name == "bulk":
        _, what, order, n, seed = op
        rng = random.Random(seed)
        d = dict(d)
        hit = False
        for i in shuffled(n, order, seed):
            k = nth_key(kind, i)
            act = what
            if what == "mixed":
                act = rng.choice(["add", "remove", "change"])
            if act == "add":
                hit |= k in d
                d.pop(k, None)
                d[k] = i
                m = api.add(m, k, i)
            elif act == "remove":
                hit |= k in d
                d.pop(k, None)
                m = api.remove(m, k)
            else:
                keep = rng.random() < 0.5
                m = api.change(m, k, lambda o: Some(("c", i)) if keep else Nothing)  # noqa: B023
                d.pop(k, None)
                if keep:
                    d[k] = ("c", i)
        return m, d, hit
    if name == "drain":
        _, where, n = op
        d = dict(d)
        for _ in range(n):
            if not d:
                break
            ks = sorted(d)
            k = {"min": ks[0], "max": ks[-1], "mid": ks[len(ks) // 2], "root": ks[len(ks) // 2 - (len(ks) > 2)]}[where]
            m = api.remove(m, k)
            del d[k]
        return m, d, True
    raise AssertionError(name)


def run_history(case: Any, ctx: Ctx) -> None:
    kind, how, init, ops = revive(case)
    m, d = construct(how, init)
    absent = [nth_key(kind if how != "of" else "str", i) for i in (0, 3, 7, 11)]
    if how == "of":
        kind = "str"
        ops = [(f, op) for f, op in ops if op[0] in ("filter", "partition", "map", "bulk", "drain")]
    observe(m, d, absent, 1)
    big, hit = len(d), False
    for functional, op in ops:
        m, d, h = step(Api(functional), m, d, kind, op)
        hit |= h
        big = max(big, len(d))
        observe(m, d, absent, 0)
    observe(m, d, absent, 1)
    ctx.nontrivial(big >= 3 and hit)


@PROPERTY.obligation(history, quick=6000, shards=6)
def histories(case: Any, ctx: Ctx) -> None:
    run_history(case, ctx)


@PROPERTY.obligation(
    lambda: st.tuples(
        st.sampled_from(["of_seq", "of_list", "of_block", "create", "add", "of", "iter"]),
        st.sampled_from(ORDERS),
        st.integers(1, 2600),
        st.integers(0, 9),
        st.sampled_from(["min", "max", "mid", "third", "none"]),
    ),
    quick=60,
    thorough=1500,
    shards=2,
    fixed=[("of_seq", "asc", 2500, 0, "min"), ("of", "desc", 2500, 0, "max"), ("add", "asc", 2500, 1, "third")],
)
def thousands_of_bindings(case: Any, ctx: Ctx) -> None:
    how, order, n, seed, removal = case
    xs = shuffled(n, order, seed)
    items = [(x, ("v", x)) for x in xs]
    if how == "of":
        items = [(f"{x:05d}", v) for x, v in items]
        m = Map.of(**dict(items))
    elif how == "add":
        m = Map.empty()
        for k, v in items:
            m = m.add(k, v)
    elif how == "iter":
        m = fmap.of_seq(iter(items))
    elif how == "of_list":
        m = Map.of_list(items)
    elif how == "of_block":
        m = Map.of_block(Block(items))
    elif how == "create":
        m = Map.create(items)
    else:
        m = Map.of_seq(items)
    d = dict(items)
    observe(m, d, (), 0)
    same(len(m.to_list()), len(d), "to_list length")
    same(m.fold(lambda s, kv: s + 1, 0), len(d), "fold")
    ks = sorted(d)
    for k in ks[:: max(1, n // 40)]:
        same(m[k], d[k], "lookup")
    if removal != "none":
        for _ in range(min(n, 400)):
            k = ks.pop({"min": 0, "max": -1, "mid": len(ks) // 2, "third": len(ks) // 3}[removal])
            m = m.remove(k)
            del d[k]
        observe(m, d, (), 0)
    some = sorted({*ks[:: max(1, n // 40)], *ks[-1:]})
    for k in some:
        same(m.contains_key(k), True, "contains_key")
        same(m.try_find(k).to_list(), [d[k]], "try_find")
    kind = "wide" if how == "of" else "int"
    beyond = [f"{x:05d}" for x in (n, n + 7, 99999)] if kind == "wide" else [-1, n, n + 7, 10**6]
    if n <= 250:
        observe(m, d, [*beyond, *(x for x in [k for k, _ in items][:30])], 1)
    last = ks[-1] if ks else beyond[0]
    mid = ks[len(ks) // 2] if ks else beyond[0]
    for api in (Api(False), Api(True)):
        for k in (last, mid):
            for code in (("at", k), ("not", k)):
                p = kv_pred(code)
                hits = [kd for kd in pairs(d) if p(*kd)]
                same(bool(m.exists(p)), bool(hits), "exists")
                same(bool(m.for_all(p)), len(hits) == len(d), "for_all")
                same(m.try_pick(lambda k, v: Some(k) if p(k, v) else Nothing).to_list(), [k for k, _ in hits[:1]], "try_pick")  # noqa: B023
        for op in (
            ("add", beyond[-1], 0),
            ("add", mid, None),
            ("remove", last),
            ("remove", beyond[0]),
            ("change", last, "toggle", 1),
            ("change", mid, "wrap", 1),
            ("change", beyond[-1], "toggle", 1),
            ("filter", ("not", last)),
            ("filter", ("at", last)),
            ("filter", ("key", 1)),
            ("partition", ("key", 1), 0),
            ("partition", ("at", last), 1),
            ("map", 1),
        ):
            m2, d2, _ = step(api, m, d, kind, op)
            observe(m2, d2, (), 0)
    observe(m, d, (), 0)
    ctx.nontrivial(n >= 3)
