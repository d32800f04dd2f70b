"""R01: Result obeys the functor/monad laws and propagates errors unchanged."""

from __future__ import annotations

import zlib
from typing import Any

from hypothesis import strategies as st

from expression import Error, Failure, Nothing, Ok, Option, Result, Some, Success, Try, pipe, result

from ..core import Ctx, Property
from ..util import Boom, expect, same
from ..values import make, values
from .o01 import TRUTH, Cb, called, is_opt, pure_fn

PROPERTY = Property(
    "R01",
    rule="chains of up to 7 result operations over arbitrary (falsy, nested) payloads on both sides, starting from Ok/Error or "
    "Success/Failure, against a two-case reference compared by identity, with callbacks that record their calls and may raise; "
    "non-trivial when a chain of at least two operations visits both cases, or a falsy payload",
    assumptions=["callbacks given to bind/or_else_with return results"],
)

M = tuple[str, Any]  # ('ok', payload) | ('error', payload)


def is_res(r: Any, m: M, what: str) -> None:
    expect(isinstance(r, Result), f"{what}: is a Result", r)
    same(r.is_ok(), m[0] == "ok", f"{what}: is_ok of {r!r}")
    same(r.is_error(), m[0] == "error", f"{what}: is_error of {r!r}")
    same(r.tag, m[0], f"{what}: tag")
    expect(getattr(r, m[0]) is m[1], f"{what}: payload", r, m)


def observe(r: Any, m: M) -> None:
    same(result.is_ok(r), m[0] == "ok", "result.is_ok")
    same(result.is_error(r), m[0] == "error", "result.is_error")
    match r:
        case Result(tag="ok", ok=x):
            expect(m[0] == "ok" and x is m[1], "match Ok", x)
        case Result(tag="error", error=x):
            expect(m[0] == "error" and x is m[1], "match Error", x)
        case _:
            expect(False, "matches neither case", r)
    expect(result.merge(r) is m[1] and r.merge() is m[1], "merge")
    want = [m[1]] if m[0] == "ok" else []
    is_opt(r.to_option(), want, "to_option")
    is_opt(result.to_option(r), want, "result.to_option")
    is_opt(Option.of_result(r), want, "Option.of_result")


def lift(code: tuple[str, Any], trying: bool = False) -> tuple[Any, M]:
    x = make(code[1])
    if trying:
        return (Success(x) if code[0] == "ok" else Failure(x)), (code[0], x)
    return (Ok(x) if code[0] == "ok" else Error(x)), (code[0], x)


def res_codes() -> Any:
    return st.tuples(st.sampled_from(["ok", "ok", "error"]), values(opaque=True))


def steps() -> Any:
    j, v, r = st.just, values(opaque=True), res_codes()
    fail = st.sampled_from([False] * 5 + [True])
    pick = st.integers(0, 5)
    return st.one_of(
        st.tuples(j("map"), v, fail),
        st.tuples(j("map_error"), v, fail),
        st.tuples(j("bind"), r, fail),
        st.tuples(j("map2"), r, v, fail),
        st.tuples(j("map2_rev"), r, v, fail),
        st.tuples(j("apply"), st.one_of(st.none(), v), v, fail),
        st.tuples(j("filter"), pick, v, fail),
        st.tuples(j("filter_with"), pick, v, fail, fail),
        st.tuples(j("swap")),
        st.tuples(j("or_else"), r),
        st.tuples(j("or_else_with"), r, fail),
        st.tuples(j("default_value"), v),
        st.tuples(j("default_with"), v, fail),
        st.tuples(j("option"), v, st.booleans(), fail),
    )


def step(f: bool, r: Any, m: M, op: tuple[Any, ...]) -> tuple[Any, M]:  # noqa: C901
    name = op[0]
    ok, x = m[0] == "ok", m[1]

    def run(cb: Cb, needed: bool, meth: Any, fn: Any) -> tuple[bool, Any]:
        try:
            v = fn() if f else meth()
        except Boom as e:
            expect(needed and cb.fail and e is cb.boom, f"{name}: unexpected exception from the callback", cb.args)
            same(len(cb.args), 1, f"{name}: calls")
            return True, None
        expect(not (needed and cb.fail), f"{name}: the callback's exception was lost")
        return False, v

    if name == "map":
        y = make(op[1])
        cb = Cb(lambda a: y, op[2])
        bad, v = run(cb, ok, lambda: r.map(cb), lambda: pipe(r, result.map(cb)))
        called(cb, [(x,)] if ok else [], name)
        return (r, m) if bad else (v, ("ok", y) if ok else m)
    if name == "map_error":
        y = make(op[1])
        cb = Cb(lambda a: y, op[2])
        bad, v = run(cb, not ok, lambda: r.map_error(cb), lambda: pipe(r, result.map_error(cb)))
        called(cb, [] if ok else [(x,)], name)
        return (r, m) if bad else (v, m if ok else ("error", y))
    if name == "bind":
        res, rm = lift(op[1])
        cb = Cb(lambda a: res, op[2])
        bad, v = run(cb, ok, lambda: r.bind(cb), lambda: pipe(r, result.bind(cb)))
        called(cb, [(x,)] if ok else [], name)
        return (r, m) if bad else (v, rm if ok else m)
    if name in ("map2", "map2_rev"):
        other, om = lift(op[1])
        y = make(op[2])
        cb = Cb(lambda a, b: y, op[3])
        a, am, b, bm = (r, m, other, om) if name == "map2" else (other, om, r, m)
        need = am[0] == bm[0] == "ok"
        bad, v = run(cb, need, lambda: a.map2(b, cb), lambda: result.map2(cb)(a)(b))
        called(cb, [(am[1], bm[1])] if need else [], name)
        return (r, m) if bad else (v, ("ok", y) if need else am if am[0] == "error" else bm)
    if name == "apply":
        y = make(op[2])
        cb = Cb(lambda a: y, op[3])
        fn, fm = (Ok(cb), ("ok", cb)) if op[1] is None else lift(("error", op[1]))
        need = ok and op[1] is None
        bad, v = run(cb, need, lambda: r.apply(fn), lambda: pipe(r, result.apply(fn)))
        called(cb, [(x,)] if need else [], name)
        return (r, m) if bad else (v, fm if fm[0] == "error" else ("ok", y) if ok else m)
    if name == "filter":
        d = make(op[2])
        t = TRUTH[op[1]]
        cb = Cb(lambda a: t, op[3])
        bad, v = run(cb, ok, lambda: r.filter(cb, d), lambda: pipe(r, result.filter(cb, d)))
        called(cb, [(x,)] if ok else [], name)
        return (r, m) if bad else (v, m if not ok or t else ("error", d))
    if name == "filter_with":
        d = make(op[2])
        t = TRUTH[op[1]]
        p = Cb(lambda a: t)
        cb = Cb(lambda a: d, op[3])
        need = ok and not t
        bad, v = run(cb, need, lambda: r.filter_with(p, cb), lambda: pipe(r, result.filter_with(p, cb)))
        called(p, [(x,)] if ok else [], "filter_with predicate")
        called(cb, [(x,)] if need else [], name)
        return (r, m) if bad else (v, ("error", d) if need else m)
    if name == "swap":
        return (result.swap(r) if f else r.swap()), ("error" if ok else "ok", x)
    if name == "or_else":
        other, om = lift(op[1])
        return (pipe(r, result.or_else(other)) if f else r.or_else(other)), m if ok else om
    if name == "or_else_with":
        other, om = lift(op[1])
        cb = Cb(lambda e: other, op[2])
        bad, v = run(cb, not ok, lambda: r.or_else_with(cb), lambda: pipe(r, result.or_else_with(cb)))
        called(cb, [] if ok else [(x,)], name)
        return (r, m) if bad else (v, m if ok else om)
    if name == "default_value":
        d = make(op[1])
        want = x if ok else d
        got = pipe(r, result.default_value(d)) if f else r.default_value(d)
        expect(got is want, "default_value", got, want)
        return Ok(got), ("ok", want)
    if name == "default_with":
        d = make(op[1])
        cb = Cb(lambda e: d, op[2])
        bad, v = run(cb, not ok, lambda: r.default_with(cb), lambda: pipe(r, result.default_with(cb)))
        called(cb, [] if ok else [(x,)], name)
        if bad:
            return r, m
        want = x if ok else d
        expect(v is want, "default_with", v, want)
        return Ok(v), ("ok", want)
    if name == "option":
        e = make(op[1])
        o = result.to_option(r) if f else r.to_option()
        is_opt(o, [x] if ok else [], "to_option")
        if op[2]:
            cb = Cb(lambda: e, op[3])
            bad, v = run(cb, not ok, lambda: Result.of_option_with(o, cb), lambda: result.of_option_with(o, cb))
            called(cb, [] if ok else [()], "of_option_with")
            if bad:
                return r, m
        else:
            v = result.of_option(o, e) if f else Result.of_option(o, e)
        return v, m if ok else ("error", e)
    raise AssertionError(name)


@PROPERTY.obligation(
    lambda: st.tuples(st.booleans(), res_codes(), st.lists(st.tuples(st.booleans(), steps()), min_size=1, max_size=7)),
    quick=12000,
    shards=6,
)
def chains(case: Any, ctx: Ctx) -> None:
    trying, init, ops = case
    r, m = lift(init, trying)
    is_res(r, m, "initial")
    alive = [(r, m)]
    falsy = False
    for f, op in ops:
        r, m = step(f, r, m, op)
        is_res(r, m, op[0])
        alive.append((r, m))
        falsy |= m[1] is None or m[1] == 0
    for a, am in alive:
        is_res(a, am, "afterwards: an earlier result")
        observe(a, am)
    if trying:
        expect(isinstance(alive[0][0], Try), "Success/Failure are tries")
    ctx.nontrivial(len(ops) >= 2 and (len({m[0] for _, m in alive}) == 2 or falsy))


def kleisli(code: tuple[int, int]) -> Any:
    mode, salt = code

    def k(x: Any) -> Any:
        h = zlib.crc32(f"{salt}{x!r}".encode())
        if mode == 0:
            return Error((salt, "e"))
        if mode == 1:
            return Ok((salt, h % 3))
        return [Error(None), Ok(None), Ok(h % 5), Ok(Error(1)), Error(h % 2), Ok(Nothing)][h % 6]

    return k


kc = st.tuples(st.integers(0, 3), st.integers(0, 9))


@PROPERTY.obligation(
    lambda: st.tuples(st.booleans(), res_codes(), kc, kc, st.integers(0, 9), st.integers(0, 9), st.booleans(), st.booleans()),
    quick=6000,
    shards=2,
)
def laws(case: Any, ctx: Ctx) -> None:
    trying, init, kc1, kc2, s1, s2, b1, b2 = case
    r, m = lift(init, trying)
    k1, k2, f, g = kleisli(kc1), kleisli(kc2), pure_fn(s1), pure_fn(s2)
    x = m[1]
    plain = Ok(x) if m[0] == "ok" else Error(x)
    same(r == plain or trying, True, "case and payload")
    r = plain
    same(r.map(lambda v: v) == r, True, "functor identity")
    same(r.map(f).map(g) == r.map(lambda v: g(f(v))), True, "functor composition")
    same(r.map_error(lambda v: v) == r, True, "functor identity (error side)")
    same(r.map_error(f).map_error(g) == r.map_error(lambda v: g(f(v))), True, "functor composition (error side)")
    same(r.map(f).map_error(g) == r.map_error(g).map(f), True, "the two sides are independent")
    same(Ok(x).bind(k1) == k1(x), True, "left identity")
    same(r.bind(Ok) == r, True, "right identity")
    same(r.bind(k1).bind(k2) == r.bind(lambda v: k1(v).bind(k2)), True, "associativity")
    same(r.map(f) == r.bind(lambda v: Ok(f(v))), True, "map is bind of the wrapped function")
    of = Ok(f) if b1 else Error("ef")
    og = Ok(g) if b2 else Error("eg")
    same(r.apply(Ok(lambda v: v)) == r, True, "applicative identity")
    same(Ok(x).apply(Ok(f)) == Ok(f(x)), True, "applicative homomorphism")
    same(Ok(x).apply(of) == of.apply(Ok(lambda h: h(x))), True, "applicative interchange")
    comp = of.map2(og, lambda p, q: lambda v: p(q(v)))
    same(r.apply(comp) == r.apply(og).apply(of), True, "applicative composition")
    same(r.swap().swap() == r, True, "swap twice")
    same(r.swap().map(f) == r.map_error(f).swap(), True, "swap exchanges map and map_error")
    if m[0] == "ok":
        same(Result.of_option(r.to_option(), "e") == r, True, "option round trip")
    else:
        same(Result.of_option(r.to_option(), x) == r, True, "option round trip (error supplied)")
    same(Result.of_option(Some(x), 0) == Ok(x), True, "of_option(Some)")
    ctx.nontrivial(m[0] == "ok" and kc1[0] >= 2)
