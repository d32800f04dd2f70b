"""O01: Option obeys the functor/monad laws and short-circuits exactly on Nothing."""

from __future__ import annotations

import zlib
from typing import Any

from hypothesis import strategies as st

from expression import Error, Nothing, Ok, Option, Result, Some, option, pipe
from expression.collections import Seq
from expression.core.option import of_obj, of_optional, of_result, starmap, to_result_with

from ..core import Ctx, Property
from ..util import Boom, expect, outcome, same
from ..values import Later, make, values

PROPERTY = Property(
    "O01",
    rule="chains of up to 7 option operations over arbitrary (falsy, nested) payloads against a two-case reference compared by "
    "identity, with callbacks that record their calls and may raise; non-trivial when a chain of at least two operations "
    "contains both a present and an absent intermediate option, or a falsy payload",
    assumptions=["callbacks given to bind/or_else_with return options"],
)


class Cb:
    """Recording callback: returns what `fn` returns or raises its own exception at call `fail`."""

    def __init__(self, fn: Any, fail: bool = False) -> None:
        self.fn, self.fail = fn, fail
        self.args: list[Any] = []
        self.results: list[Any] = []
        self.boom = Boom("callback")

    def __call__(self, *a: Any) -> Any:
        self.args.append(a)
        if self.fail:
            raise self.boom
        r = self.fn(*a)
        self.results.append(r)
        return r


def called(cb: Cb, wants: list[tuple[Any, ...]], what: str) -> None:
    expect(
        len(cb.args) == len(wants) and all(len(a) == len(w) and all(x is y for x, y in zip(a, w)) for a, w in zip(cb.args, wants)),
        f"{what}: callback calls", cb.args, wants,
    )  # fmt: skip


def is_opt(o: Any, want: list[Any], what: str) -> None:
    """want: [] for Nothing, [payload] for Some(payload) - compared by identity, through every accessor."""
    expect(isinstance(o, Option), f"{what}: is an Option", o)
    same(o.is_some(), bool(want), f"{what}: is_some of {o!r}")
    same(o.is_none(), not want, f"{what}: is_none of {o!r}")
    lst = o.to_list()
    expect(type(lst) is list and len(lst) == len(want) and all(x is y for x, y in zip(lst, want)), f"{what}: payload", lst, want)


def observe(o: Any, want: list[Any]) -> None:
    same(option.is_some(o), bool(want), "option.is_some")
    same(option.is_none(o), not want, "option.is_none")
    for seq_ in (o.to_seq(), option.to_seq(o)):
        expect(isinstance(seq_, Seq), "to_seq type", seq_)
        lst = list(seq_)
        expect(len(lst) == len(want) and all(x is y for x, y in zip(lst, want)), "to_seq", lst, want)
        lst = list(seq_)
        expect(len(lst) == len(want), "to_seq, again", lst, want)
    lst = option.to_list(o)
    expect(len(lst) == len(want) and all(x is y for x, y in zip(lst, want)), "option.to_list", lst, want)
    for opt_ in (o.to_optional(), option.to_optional(o)):
        expect(opt_ is (want[0] if want else None), "to_optional", opt_, want)
    got = outcome(lambda: o.value)
    if want:
        expect(got[0] == "ok" and got[1] is want[0], "value", got)
    else:
        same(got, ("exc", ValueError), "value of Nothing")
    match o:
        case Option(tag="some", some=x):
            expect(want and x is want[0], "match Some", x)
        case Option(tag="none"):
            expect(not want, "match Nothing")
        case _:
            expect(False, "matches neither case", o)
    same(o == (Some(want[0]) if want else Nothing), True, "== a fresh option")


def steps() -> Any:
    j = st.just
    v = values(opaque=True)
    pick = st.integers(0, 5)
    fail = st.sampled_from([False] * 5 + [True])
    opt = st.one_of(st.just(()), st.tuples(v))
    return st.one_of(
        st.tuples(j("map"), v, fail),
        st.tuples(j("bind"), opt, fail),
        st.tuples(j("map2"), opt, v, fail),
        st.tuples(j("apply"), st.booleans(), v, fail),
        st.tuples(j("filter"), pick, fail),
        st.tuples(j("starmap"), st.lists(v, max_size=4), v, fail),
        st.tuples(j("or_else"), opt),
        st.tuples(j("or_else_with"), opt, fail),
        st.tuples(j("default_value"), v),
        st.tuples(j("default_with"), v, fail),
        st.tuples(j("result"), v, st.integers(0, 3)),
        st.tuples(j("result_with"), v, fail),
        st.tuples(j("optional")),
    )


def lift(code: tuple[Any, ...]) -> tuple[Any, list[Any]]:
    if not code:
        return Nothing, []
    x = make(code[0])
    return Some(x), [x]


TRUTH = [True, False, 1, 0, "x", None]


def step(f: bool, o: Any, m: list[Any], op: tuple[Any, ...]) -> tuple[Any, list[Any]]:  # noqa: C901
    name = op[0]

    def run(cb: Cb, needed: bool, meth: Any, fn: Any) -> tuple[bool, Any]:
        """(callback raised?, value)"""
        try:
            r = fn() if f and fn is not None else meth()
        except Boom as e:
            expect(needed and cb.fail and e is cb.boom, f"{name}: unexpected exception from the callback", cb.args)
            same(len(cb.args), 1, f"{name}: calls")
            return True, None
        expect(not (needed and cb.fail), f"{name}: the callback's exception was lost")
        return False, r

    if name == "map":
        y = make(op[1])
        cb = Cb(lambda x: y, op[2])
        bad, r = run(cb, bool(m), lambda: o.map(cb), lambda: pipe(o, option.map(cb)))
        called(cb, [(x,) for x in m], name)
        return (o, m) if bad else (r, [y] if m else [])
    if name == "bind":
        res, rm = lift(op[1])
        cb = Cb(lambda x: res, op[2])
        bad, r = run(cb, bool(m), lambda: o.bind(cb), lambda: pipe(o, option.bind(cb)))
        called(cb, [(x,) for x in m], name)
        return (o, m) if bad else (r, rm if m else [])
    if name == "map2":
        other, om = lift(op[1])
        y = make(op[2])
        cb = Cb(lambda a, b: y, op[3])
        need = bool(m and om)
        bad, r = run(cb, need, lambda: o.map2(cb, other), lambda: option.map2(cb)(o)(other))
        called(cb, [(m[0], om[0])] if need else [], name)
        return (o, m) if bad else (r, [y] if need else [])
    if name == "apply":
        y = make(op[2])
        cb = Cb(lambda a: y, op[3])
        fn = Some(cb) if op[1] else Nothing
        need = bool(m) and op[1]
        bad, r = run(cb, need, lambda: o.apply(fn), lambda: pipe(o, option.apply(fn)))
        called(cb, [(m[0],)] if need else [], name)
        return (o, m) if bad else (r, [y] if need else [])
    if name == "filter":
        t = TRUTH[op[1]]
        cb = Cb(lambda x: t, op[2])
        bad, r = run(cb, bool(m), lambda: o.filter(cb), None)
        called(cb, [(x,) for x in m], name)
        return (o, m) if bad else (r, m if t else [])
    if name == "starmap":
        args = tuple(make(c) for c in op[1])
        y = make(op[2])
        src = Some(args) if m else Nothing
        cb = Cb(lambda *a: y, op[3])
        bad, r = run(cb, bool(m), lambda: src.starmap(cb), lambda: pipe(src, starmap(cb)))
        called(cb, [args] if m else [], name)
        return (o, m) if bad else (r, [y] if m else [])
    if name == "or_else":
        other, om = lift(op[1])
        return (option.or_else(o, other) if f else o.or_else(other)), (m or om)
    if name == "or_else_with":
        other, om = lift(op[1])
        cb = Cb(lambda: other, op[2])
        bad, r = run(cb, not m, lambda: o.or_else_with(cb), None)
        called(cb, [] if m else [()], name)
        return (o, m) if bad else (r, m or om)
    if name == "default_value":
        d = make(op[1])
        want = m[0] if m else d
        for got in (o.default_value(d), pipe(o, option.default_value(d)), option.default_arg(o, d)):
            expect(got is want, "default_value", got, want)
        return Some(want), [want]
    if name == "default_with":
        d = make(op[1])
        cb = Cb(lambda: d, op[2])
        bad, r = run(cb, not m, lambda: o.default_with(cb), lambda: pipe(o, option.default_with(cb)))
        called(cb, [] if m else [()], name)
        if bad:
            return o, m
        want = m[0] if m else d
        expect(r is want, "default_with", r, want)
        return Some(r), [want]
    if name in ("result", "result_with"):
        e = make(op[1])
        if name == "result":
            r = [lambda: o.to_result(e), lambda: option.to_result(o, e), lambda: Result.of_option(o, e), lambda: o.to_result(error=e)][op[2]]()
        else:
            cb = Cb(lambda: e, op[2])
            bad, r = run(cb, not m, lambda: o.to_result_with(cb), lambda: to_result_with(o, cb))
            called(cb, [] if m else [()], name)
            if bad:
                return o, m
        expect(isinstance(r, Result) and r.is_ok() is bool(m), "to_result case", r)
        expect((r.ok is m[0]) if m else (r.error is e), "to_result payload", r)
        back = of_result(r) if f else Option.of_result(r)
        return back, m
    if name == "optional":
        x = o.to_optional()
        backs = [of_optional(x), Option.of_optional(x), of_obj(x), Option.of_obj(x)]
        for back in backs:
            is_opt(back, [] if x is None else m, "from an optional value")
        expect(Option.Nothing().is_none(), "Option.Nothing()")
        return backs[f + 2 * (len(repr(x)) % 2)], [] if x is None else m
    raise AssertionError(name)


@PROPERTY.obligation(
    lambda: st.tuples(
        st.one_of(st.just(()), st.tuples(values(opaque=True))),
        st.lists(st.tuples(st.booleans(), steps()), min_size=1, max_size=7),
    ),
    quick=12000,
    shards=6,
)
def chains(case: Any, ctx: Ctx) -> None:
    init, ops = case
    o, m = lift(init)
    seen = {bool(m)}
    falsy = False
    alive = [(o, list(m))]
    is_opt(o, m, "initial")
    for f, op in ops:
        o, m = step(f, o, m, op)
        is_opt(o, m, op[0])
        seen.add(bool(m))
        falsy |= bool(m) and not isinstance(m[0], (Option, Later)) and not m[0]
        alive.append((o, list(m)))
    for a, am in alive:
        is_opt(a, am, "afterwards: an earlier option")
        observe(a, am)
    ctx.nontrivial(len(ops) >= 2 and (len(seen) == 2 or falsy))


def kleisli(code: tuple[int, int]) -> Any:
    """int-coded total functions a -> Option[b] over arbitrary payloads"""
    mode, salt = code

    def k(x: Any) -> Any:
        h = zlib.crc32(f"{salt}{x!r}".encode())
        if mode == 0:
            return Nothing
        if mode == 1:
            return Some((salt, h % 3))
        return [Nothing, Some(None), Some(h % 5), Some(Nothing), Some(Some(h % 2))][h % 5]

    return k


def pure_fn(salt: int) -> Any:
    return lambda x: [None, 0, (salt, x), "", Nothing, Some(salt), x][zlib.crc32(f"{salt}/{x!r}".encode()) % 7]


@PROPERTY.obligation(
    lambda: st.tuples(
        st.one_of(st.just(()), st.tuples(values(opaque=True))),
        st.tuples(st.integers(0, 3), st.integers(0, 9)),
        st.tuples(st.integers(0, 3), st.integers(0, 9)),
        st.integers(0, 9),
        st.integers(0, 9),
        st.booleans(),
        st.booleans(),
    ),
    quick=6000,
    shards=2,
)
def laws(case: Any, ctx: Ctx) -> None:
    init, kc1, kc2, s1, s2, b1, b2 = case
    o, m = lift(init)
    k1, k2, f, g = kleisli(kc1), kleisli(kc2), pure_fn(s1), pure_fn(s2)
    x = m[0] if m else ()
    same(o.map(lambda v: v) == o, True, "functor identity")
    same(o.map(f).map(g) == o.map(lambda v: g(f(v))), True, "functor composition")
    same(pipe(o, option.map(f), option.map(g)) == o.map(f).map(g), True, "functor composition (functions)")
    same(Some(x).bind(k1) == k1(x), True, "left identity")
    same(o.bind(Some) == o, True, "right identity")
    same(o.bind(k1).bind(k2) == o.bind(lambda v: k1(v).bind(k2)), True, "associativity")
    same(o.map(f) == o.bind(lambda v: Some(f(v))), True, "map is bind of the wrapped function")
    of = Some(f) if b1 else Nothing
    og = Some(g) if b2 else Nothing
    same(o.apply(Some(lambda v: v)) == o, True, "applicative identity")
    same(Some(x).apply(Some(f)) == Some(f(x)), True, "applicative homomorphism")
    same(Some(x).apply(of) == of.apply(Some(lambda h: h(x))), True, "applicative interchange")
    comp = og.map2(lambda p, q: lambda v: q(p(v)), of)
    same(o.apply(comp) == o.apply(og).apply(of), True, "applicative composition")
    same(o.map2(lambda a, b: (a, b), Some(x)) == o.map(lambda a: (a, x)), True, "map2 with a pure value")
    same(o.or_else(Nothing) == o and Nothing.or_else(o) == o, True, "or_else has Nothing as unit")
    same(Option.of_result(o.to_result("e")) == o, True, "to_result/of_result round trip")
    if x is not None:
        same(Option.of_optional(o.to_optional()) == o, True, "to_optional/of_optional round trip")
    expect(Error(x).to_option().is_none() and Ok(x).to_option() == Some(x), "result conversion", x)
    ctx.nontrivial(bool(m) and kc1[0] >= 2)
