"""S01: chains of sequence operations compute exactly what the list operations compute."""

from __future__ import annotations

from functools import reduce
from typing import Any, NamedTuple

from hypothesis import strategies as st

from expression import Nothing, Some, pipe
from expression.collections import Block, Map, Seq, TypedArray, seq

from .. import seqstages as S
from ..core import Ctx, Property
from ..util import Boom, expect, same

PROPERTY = Property(
    "S01",
    rule="programs (source, 0-7 stages, consumer) run against a plain-generator reference; non-trivial when there are at "
    "least two stages and the reference produces at least two elements (or a callback exception) for the consumer",
    assumptions=["callbacks are deterministic"],
)

N = "numeric"


def orderable(salt: int) -> Any:
    pool = [1, True, 1.0, 0, False, 2, -1, 0.0]
    return lambda x: pool[S.h(salt, x) % 8]


def fold_f(s: Any, x: Any) -> Any:
    return (s, x)


CONSUMERS = [
    "list", "iter_twice", "to_list", "fold", "fold_back", "head", "length", "sum", "sum_by", "max", "min", "max_by", "min_by",
    "find", "pick", "iter", "unpack", "repr",
]  # fmt: skip


def ref_consume(env: S.Env, xs: list[Any], err: Any, c: str, salt: int) -> Any:
    """What a list computation returns; err is the exception the producer raises after xs, if any."""
    num = orderable(salt)

    def full() -> list[Any]:
        if err is not None:
            raise err
        return xs

    if c in ("list", "to_list", "unpack", "iter"):
        return full()
    if c == "fold":
        return reduce(fold_f, full(), salt)
    if c == "fold_back":
        return reduce(lambda s, x: (x, s), full()[::-1], salt)
    if c == "head":
        if xs:
            return xs[0]
        full()
        raise ValueError
    if c == "length":
        return len(full())
    if c == "sum":
        return sum(map(num, full()))
    if c == "sum_by":
        return sum(map(num, full()))
    if c in ("max", "max_by"):
        return max(list(map(num, full())))
    if c in ("min", "min_by"):
        return min(list(map(num, full())))
    if c == "find":
        for i, x in enumerate(xs):
            if S.truthy(salt, x):
                return [i]
        full()
        return []
    if c == "pick":
        for x in xs:
            r = S.m_choose(salt, x)
            if r:
                return r
        full()
        return []
    raise AssertionError(c)


def real_consume(xs: Any, c: str, salt: int, method: bool) -> Any:  # noqa: C901
    s = Seq(xs) if method else xs
    num = orderable(salt)
    if c == "list":
        return list(xs)
    if c == "to_list":
        r = s.to_list() if method else seq.to_list(xs)
        expect(isinstance(r, Block), "to_list gives a Block", r)
        return list(r)
    if c == "unpack":
        return [*xs]
    if c == "iter":
        log: list[Any] = []
        expect(seq.iter(log.append)(xs) is None, "iter result")
        return log
    if c == "fold":
        return s.fold(fold_f, salt) if method else pipe(xs, seq.fold(fold_f, salt))
    if c == "fold_back":
        return pipe(salt, seq.fold_back(lambda x, st_: (x, st_), xs))
    if c == "head":
        return s.head() if method else seq.head(xs)
    if c == "length":
        return s.length() if method else seq.length(xs)
    if c == "sum":
        ys = pipe(xs, seq.map(num))
        return Seq(ys).sum() if method else seq.sum(ys)
    if c == "sum_by":
        return s.sum_by(num) if method else pipe(xs, seq.sum_by(num))
    if c == "max":
        return seq.max(pipe(xs, seq.map(num)))
    if c == "min":
        return seq.min(pipe(xs, seq.map(num)))
    if c == "max_by":
        return pipe(xs, seq.max_by(num))
    if c == "min_by":
        return pipe(xs, seq.min_by(num))
    if c == "find":
        p = lambda x: S.truthy(salt, x)  # noqa: E731
        r = s.try_find_index(p) if method else pipe(xs, seq.try_find_index(p))
        return r.to_list()
    if c == "pick":
        ch = lambda x: (lambda r: Some(r[0]) if r else Nothing)(S.m_choose(salt, x))  # noqa: E731
        r = s.try_pick(ch) if method else pipe(xs, seq.try_pick(ch))
        return list(r.to_list())
    raise AssertionError(c)


def programs() -> Any:
    return st.tuples(
        S.source_codes(False),
        st.lists(st.tuples(st.booleans(), S.stage_codes()), max_size=7),
        st.sampled_from([c for c in CONSUMERS if c not in ("iter_twice", "repr")]),
        st.integers(0, 7),
        st.booleans(),
        st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 4), st.integers(1, 4))),
        st.booleans(),
    )


@PROPERTY.obligation(programs, quick=16000, shards=6)
def chains(case: Any, ctx: Ctx) -> None:
    src, stages, consumer, salt, method, fail, one_shot = case
    ref_env = S.Env(fail)
    xs: list[Any] = []
    err: Any = None
    try:
        for x in S.ref_program(ref_env, src, stages)():
            xs.append(x)
    except Boom as e:
        err = e
    try:
        want = ("ok", ref_consume(ref_env, xs, err, consumer, salt))
    except Boom as e:
        want = ("exc", e)
    except ValueError:
        want = ("exc", ValueError)

    env = S.Env(fail)
    prog = S.real_program(env, src, stages, method, one_shot)
    try:
        got = ("ok", real_consume(prog, consumer, salt, method))
    except Boom as e:
        got = ("exc", e)
    except ValueError as e:
        got = ("exc", type(e))
    same(got, want, f"{consumer} of the chain")
    if fail is not None:
        # a one-shot re-run up to the failure: the elements before it arrive first
        env2 = S.Env(fail)
        out: list[Any] = []
        err2: Any = None
        try:
            for x in S.real_program(env2, src, stages, method, False):
                out.append(x)
        except Boom as e:
            err2 = e
        same((out, err2), (xs, err), "elements before a callback's exception")
    ctx.label(consumer)
    ctx.nontrivial(len(stages) >= 2 and (len(xs) >= 2 or err is not None))


LONG = ["list", "to_list", "unpack", "iter", "head", "length", "sum", "sum_by", "max", "min", "max_by", "min_by", "find", "pick"]


@PROPERTY.obligation(
    lambda: st.tuples(
        st.one_of(st.integers(20, 600), st.integers(600, 6000)),
        st.lists(st.tuples(st.booleans(), S.stage_codes().filter(lambda c: c[0] not in ("take", "skip", "concat"))), max_size=3),
        st.lists(st.sampled_from(LONG), min_size=3, max_size=6, unique=True),
        st.booleans(),
    ),
    quick=240,
    thorough=6000,
    shards=2,
)
def long_sequences(case: Any, ctx: Ctx) -> None:
    """Long inputs: nothing recurses over the elements, and no size is special."""
    n, stages, consumers, method = case
    src = ("range", 0, n, 1)
    env = S.Env()
    xs = list(S.ref_program(env, src, stages)())
    # folds get a flat state (the nested tuples of the small cases would overflow repr/eq here)
    mix = lambda s, x: S.h(1, (s, x))  # noqa: E731
    deep = any(c[0] == "scan" for _, c in stages)
    if deep:
        mix = lambda s, x: (s * 31 + 1) % 1000003  # noqa: E731
    real = S.real_program(S.Env(), src, stages, method)
    same(Seq(real).fold(mix, 0) if method else pipe(real, seq.fold(mix, 0)), reduce(mix, xs, 0), "fold")
    same(pipe(0, seq.fold_back(lambda x, s: mix(s, x), real)), reduce(mix, xs[::-1], 0), "fold_back")
    for consumer in consumers:
        if not xs and consumer in ("head", "max", "min", "max_by", "min_by"):
            continue
        if deep and consumer != "length":
            continue
        got = real_consume(S.real_program(S.Env(), src, stages, method), consumer, 1, method)
        same(got, ref_consume(env, xs, None, consumer, 1), consumer)
    many = seq.concat(*[[i] for i in range(n)])
    same(list(many), list(range(n)), "concat of many sequences")
    got = list(pipe(0, seq.unfold(lambda k: Some((k, k + 1)) if k < n else Nothing)))
    same(got, list(range(n)), "unfold")
    # needles far down a long sequence, and counts as large as the sequence itself
    for k in {0, 1, n // 2, n - 1, n}:
        same(list(pipe(range(n), seq.skip(k))), list(range(n))[k:], f"skip {k}")
        same(list(pipe(range(n), seq.take(k))), list(range(n))[:k], f"take {k}")
        hit = [k] if k < n else []
        same(pipe(range(n), seq.try_find_index(lambda x: x == k)).to_list(), hit, f"try_find_index at {k}")
        same(list(pipe(range(n), seq.try_pick(lambda x: Some(x) if x == k else Nothing)).to_list()), hit, f"try_pick at {k}")
        same(list(pipe(range(n), seq.filter(lambda x: x == k))), hit, f"filter at {k}")
    ctx.nontrivial(len(xs) > 1)


# ------------------------------------------------------------------ consumers applied directly to sources of every kind
STATES: list[Any] = [None, 0, "", (), False, 1, "s", (1,), 0.0]
ITEMS: list[Any] = [None, 0, "", (), False, 1, 2, -1, "a", (1, 2), 1.5, True, ("", None)]


class OnlyIter:
    """An iterable and nothing else: no length, no indexing, repeatable."""

    def __init__(self, xs: list[Any]) -> None:
        self.xs = xs

    def __iter__(self) -> Any:
        return iter(list(self.xs))


class OnlyGetItem:
    """The old iteration protocol."""

    def __init__(self, xs: list[Any]) -> None:
        self.xs = xs

    def __getitem__(self, i: int) -> Any:
        return self.xs[i]


SOURCES: dict[str, Any] = {
    "list": list,
    "tuple": tuple,
    "block": Block,
    "seq": Seq,
    "generator": lambda xs: (x for x in xs),
    "iterator": iter,
    "only_iter": OnlyIter,
    "only_getitem": OnlyGetItem,
    "view": lambda xs: dict(enumerate(xs)).values(),
    "map": lambda xs: map(lambda x: x, xs),
    "chain": lambda xs: seq.append(xs[1:])(xs[:1]),
}


class Raising:
    """fn, raising at its k-th call; keeps the arguments."""

    def __init__(self, fn: Any, k: int) -> None:
        self.fn, self.k, self.calls, self.boom = fn, k, [], Boom("consumer")  # type: ignore[var-annotated]

    def __call__(self, *a: Any) -> Any:
        self.calls.append(a)
        if len(self.calls) - 1 == self.k:
            raise self.boom
        return self.fn(*a)


@PROPERTY.obligation(
    lambda: st.tuples(
        st.sampled_from(sorted(SOURCES)),
        st.lists(st.sampled_from(ITEMS), max_size=6),
        st.sampled_from(["fold", "fold_back", "head", "length", "sum", "sum_by", "max", "min", "max_by", "min_by", "find", "pick", "iter", "to_list", "list"]),
        st.sampled_from(STATES),
        st.integers(0, 7),
        st.sampled_from([-1, -1, -1, 0, 1, 3]),
        st.booleans(),
    ),
    quick=5000,
    shards=2,
)
def consumers(case: Any, ctx: Ctx) -> None:
    kind, xs, c, state, salt, fail, method = case
    num = orderable(salt)
    if c in ("sum", "max", "min"):
        xs = [num(x) for x in xs]
    src = SOURCES[kind](xs)
    s = Seq(src) if method else src
    mixed = lambda a, b: [(a, b), a, b, None, 0, ""][S.h(salt, (a, b)) % 6]  # noqa: E731

    def both(run: Any, fn: Any) -> tuple[Any, Any]:
        """(outcome of run with a recording callback, the callback)"""
        cb = Raising(fn, fail)
        try:
            return ("ok", run(cb)), cb
        except Boom as e:
            return ("exc", e), cb
        except ValueError as e:
            return ("exc", type(e)), cb

    if c == "fold":
        got, cb = both(lambda f: s.fold(f, state) if method else pipe(src, seq.fold(f, state)), mixed)
        want, ref = both(lambda f: reduce(f, xs, state), mixed)
    elif c == "fold_back":
        got, cb = both(lambda f: pipe(state, seq.fold_back(f, src)), mixed)
        want, ref = both(lambda f: reduce(lambda a, x: f(x, a), xs[::-1], state), mixed)
    elif c == "head":
        got, cb = both(lambda f: s.head() if method else seq.head(src), None)
        want, ref = both(lambda f: xs[0] if xs else outcome_of_empty(), None)
    elif c == "length":
        got, cb = both(lambda f: s.length() if method else seq.length(src), None)
        want, ref = both(lambda f: len(xs), None)
    elif c == "sum":
        got, cb = both(lambda f: s.sum() if method else seq.sum(src), None)
        want, ref = both(lambda f: sum(xs), None)
    elif c == "sum_by":
        got, cb = both(lambda f: s.sum_by(f) if method else pipe(src, seq.sum_by(f)), num)
        want, ref = both(lambda f: sum([f(x) for x in xs]), num)
    elif c in ("max", "min"):
        got, cb = both(lambda f: getattr(seq, c)(src), None)
        want, ref = both(lambda f: {"max": max, "min": min}[c](xs), None)
    elif c in ("max_by", "min_by"):
        got, cb = both(lambda f: pipe(src, getattr(seq, c)(f)), num)
        want, ref = both(lambda f: {"max": max, "min": min}[c[:3]]([f(x) for x in xs]), num)
    elif c == "find":
        p = lambda x: [0, 1, "", "t", None, (0,)][S.h(salt, x) % 6]  # noqa: E731
        got, cb = both(lambda f: (s.try_find_index(f) if method else pipe(src, seq.try_find_index(f))).to_list(), p)
        want, ref = both(lambda f: next(([i] for i, x in enumerate(xs) if f(x)), []), p)
    elif c == "pick":
        ch = lambda x: [Nothing, Some(x), Some(None), Nothing, Nothing][S.h(salt, x) % 5]  # noqa: E731
        got, cb = both(lambda f: (s.try_pick(f) if method else pipe(src, seq.try_pick(f))).to_list(), ch)
        want, ref = both(lambda f: next((r.to_list() for r in map(f, xs) if r.is_some()), []), ch)
    elif c == "iter":
        got, cb = both(lambda f: seq.iter(f)(src), lambda x: x)
        want, ref = both(lambda f: [f(x) for x in xs] and None, lambda x: x)
        want = ("ok", None) if want[0] == "ok" else want
    elif c == "to_list":
        got, cb = both(lambda f: list(s.to_list() if method else seq.to_list(src)), None)
        want, ref = both(lambda f: list(xs), None)
    else:
        got, cb = both(lambda f: list(s), None)
        want, ref = both(lambda f: list(xs), None)
    same(got if got[0] == "ok" else (got[0], str(got[1])), want if want[0] == "ok" else (want[0], str(want[1])), f"{c} of a {kind}")
    if got[0] == "exc" and not isinstance(got[1], type):
        expect(got[1] is cb.boom, "the callback's own exception", got)
    same(cb.calls, ref.calls, f"{c} of a {kind}: arguments of the callback, in order")
    ctx.label(c)
    ctx.nontrivial(len(xs) >= 2)


def outcome_of_empty() -> Any:
    raise ValueError


@PROPERTY.obligation(lambda: st.tuples(st.lists(st.integers(-6, 12), min_size=1, max_size=3), st.integers(0, 7), st.integers(0, 6)), quick=800)
def sources(case: Any, ctx: Ctx) -> None:
    """Ranges of one, two and three bounds, infinite and single sequences."""
    args, salt, k = case
    try:
        want = ("ok", list(range(*args)))
    except ValueError:
        want = ("exc", ValueError)
    for make in (Seq.range, seq.range):
        try:
            got: Any = ("ok", list(make(*args)))
        except ValueError:
            got = ("exc", ValueError)
        same(got, want, f"range{tuple(args)}")
    f = lambda i: (S.h(salt, i) % 5, i)  # noqa: E731
    same([x for x, _ in zip(seq.init_infinite(f), range(k))], [f(i) for i in range(k)], "init_infinite")
    same([x for x, _ in zip(seq.infinite, range(k))], list(range(k)), "infinite")
    for v in ITEMS:
        same(list(seq.singleton(v)), [v], "singleton")
        same(list(Seq.of(v)), [v], "Seq.of one value")
        same(list(seq.of(v)), [v], "seq.of one value")
    same(list(seq.empty), [], "empty")
    ctx.nontrivial(want[0] == "ok" and len(want[1]) > 1)


class Pair(NamedTuple):
    left: Any
    right: Any


INNER: dict[str, Any] = {
    **SOURCES,
    "str": lambda xs: "".join(map(str, xs)),
    "bytes": lambda xs: bytes(len(xs)),
    "range": lambda xs: range(len(xs)),
    "dict": lambda xs: dict(enumerate(xs)),
    "set": lambda xs: set(range(min(len(xs), 1))),
    "pair": lambda xs: Pair(xs, len(xs)),
    "fmap": lambda xs: Map.of_seq(enumerate(xs)),
    "array": TypedArray,
    "strings": lambda xs: ["ab", "", "c"][: len(xs)],
    "option": lambda xs: [Some(xs), Nothing][: len(xs)],
    "nested": lambda xs: [list(xs), "ab", (1,)],
    "mapped": lambda xs: seq.map(lambda x: x)(xs),
}


@PROPERTY.obligation(
    lambda: st.tuples(
        st.sampled_from(["collect", "concat", "append", "zip", "rzip", "starmap", "delay", "method", "elements"]),
        st.lists(st.tuples(st.sampled_from(sorted(INNER)), st.lists(st.sampled_from(ITEMS), max_size=4)), max_size=4),
        st.booleans(),
        st.integers(0, 7),
    ),
    quick=4000,
    shards=2,
)
def kinds(case: Any, ctx: Ctx) -> None:
    """Every iterable is a sequence, and only where one is asked for: elements stay what they are, whatever they are."""
    op, parts, method, salt = case
    make = lambda: [INNER[k](xs) for k, xs in parts]  # noqa: E731
    want = [list(p) for p in make()]
    flat = [x for w in want for x in w]
    got: list[Any]
    if op == "collect":
        ps = make()
        got = list(seq.collect(lambda i: ps[i])(range(len(ps))))
        same(got, flat, "collect")
    elif op == "concat":
        same(list(seq.concat(*make())), flat, "concat")
        same(list(Seq([Seq(p) for p in make()]).concat()), flat, "Seq.concat")
    elif op == "append":
        ps = make()
        if ps:
            same(list(Seq(ps[0]).append(*ps[1:]) if method else seq.append(*ps[1:])(ps[0])), flat, "append")
    elif op in ("zip", "rzip"):
        ps = make()
        for w, p in zip(want, ps):
            a, b = (p, range(3)) if op == "zip" else (range(3), p)
            wa, wb = (w, range(3)) if op == "zip" else (range(3), w)
            same(list(Seq(a).zip(b) if method else seq.zip(a)(b)), list(zip(wa, wb)), "zip")
    elif op == "delay":
        for w, p in zip(want, make()):
            same(list(Seq.delay(lambda: p) if method else seq.delay(lambda: p)), w, "delay")  # noqa: B023
    elif op == "method":
        ps = make()
        same(list(Seq(range(len(ps))).collect(lambda i: Seq(ps[i]))), flat, "Seq.collect")
    else:
        ps = make()  # the iterables as elements
        args = [Pair(p, salt) if salt % 2 else (p, salt) for p in ps]
        uses = {
            "map": lambda: seq.map(lambda x: x)(ps),
            "map result": lambda: seq.map(lambda i: ps[i])(range(len(ps))),
            "mapi": lambda: seq.mapi(lambda i, x: x)(ps),
            "starmap": lambda: seq.starmap(lambda x, _: x)(args),
            "Seq.starmap": lambda: Seq(args).starmap(lambda x, _: x),
            "filter": lambda: seq.filter(lambda x: True)(ps),
            "choose": lambda: seq.choose(Some)(ps),
            "collect": lambda: seq.collect(lambda x: [x])(ps),
            "take": lambda: seq.take(len(ps))(ps),
            "skip": lambda: seq.skip(0)(ps),
            "append": lambda: seq.append(ps[1:])(ps[:1]),
            "Seq.of": lambda: Seq.of(*ps),
            "seq.of": lambda: seq.of(*ps),
            "to_list": lambda: seq.to_list(ps),
            "scan": lambda: seq.skip(1)(seq.scan(lambda _, x: x, None)(ps)),
            "unfold": lambda: seq.unfold(lambda i: Some((ps[i], i + 1)) if i < len(ps) else Nothing)(0),
            "fold": lambda: seq.fold(lambda acc, x: [*acc, x], [])(ps),
            "init_infinite": lambda: seq.take(len(ps))(seq.init_infinite(lambda i: ps[i])),
            "zip": lambda: [x for x, _ in seq.zip(ps)(ps)],
        }
        for name, use in uses.items():
            got = list(use())
            expect(len(got) == len(ps) and all(x is y for x, y in zip(got, ps)), f"{name}: elements stay what they are", got, ps)
        for p in ps:
            only = list(seq.singleton(p))
            expect(len(only) == 1 and only[0] is p, "singleton", only, p)
            expect(seq.head([p, 1]) is p and Seq([p]).head() is p, "head", p)
    ctx.label(op)
    ctx.nontrivial(len({k for k, _ in parts}) >= 2)
