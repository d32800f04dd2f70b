"""E01: effect expressions run exactly as their programs read."""

from __future__ import annotations

import functools
from typing import Any

from hypothesis import strategies as st

from expression import Error, Nothing, Ok, Some, effect
from expression.collections import Seq

from .. import effectprog as P
from ..core import Ctx, Property
from ..util import Boom, expect, same

PROPERTY = Property(
    "E01",
    rule="programs of up to three functions (expressions, bodies without yields, plain generator helpers) of statements, yields, "
    "yield-froms, nested calls, branches, loops, try blocks, raises and returns, rendered as source for the real builder and for a "
    "straight-line reference; non-trivial when at least three effects are in the program",
)

BUILDERS: dict[str, Any] = {"option": effect.option, "result": effect.result, "try": effect.try_, "seq": effect.seq}


def attempt(fn: Any, log: list[Any]) -> Any:
    try:
        return ("ok", P.show(fn()), log)
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, P.Stop) or e not in P.RAISES:
            raise
        return ("exc", id(e), log)


def compiled(prog: Any, mode: str, name: str, decorate: Any) -> Any:
    flavour = "seq" if name == "seq" else "sync"
    ns = P.namespace(P.Meaning(name), DECO=decorate)
    src = P.Render(prog, mode, flavour, "DECO").source
    exec(compile(src, f"<{mode}>", "exec"), ns)  # noqa: S102
    return ns[f"f{len(prog) - 1}"], src


def cases() -> Any:
    return st.tuples(
        st.sampled_from(["option", "result", "try", "seq"]),
        P.programs(["expr", "expr", "expr", "plain", "helper"]),
        st.lists(st.integers(0, 6), min_size=1, max_size=3),
        st.booleans(),
    )


@PROPERTY.obligation(cases, quick=9000, shards=7)
def programs(case: Any, ctx: Ctx) -> None:
    name, prog, xs, shared = case
    one = BUILDERS[name]()
    deco = one if shared else (lambda f: BUILDERS[name]()(f))
    real, src = compiled(prog, "real", name, deco)
    ref, _ = compiled(prog, "ref", name, None)
    for x in xs:
        for a, k in (((x,), {}), ((), {"x": x, "k": 1})):
            lr: list[Any] = []
            lw: list[Any] = []
            got = attempt(lambda: real(lr.append, *a, **k), lr)  # noqa: B023
            want = attempt(lambda: ref(lw.append, *a, **k), lw)  # noqa: B023
            same(got, want, f"{name} expression\n{src}")
    ctx.nontrivial(P.has_effect(prog) >= 3)
    ctx.label(name)


@PROPERTY.obligation(lambda: st.tuples(st.sampled_from(["option", "result", "try", "seq"]), st.integers(200, 3000), st.sampled_from(["yield", "from", "nested"]), st.none() | st.integers(0, 3000)), quick=40, thorough=600, shards=4)
def long_programs(case: Any, ctx: Ctx) -> None:
    """Thousands of yields in one expression."""
    name, n, how, stop = case
    b = BUILDERS[name]()
    wrap = Some if name == "option" else Ok
    bad = Nothing if name == "option" else Error(Boom("e"))

    @b
    def inner(i: int) -> Any:
        yield i + 1
        return i

    seen: list[int] = []

    @b
    def prog() -> Any:
        for i in range(n):
            if stop == i and name != "seq":
                yield from bad
            seen.append(i)
            if how == "yield":
                got = yield i
            elif how == "from":
                got = yield from (Seq([i]) if name == "seq" else wrap(i))
            else:
                got = yield from inner(i)
            expect(name == "seq" or got == i, "payload handed back", got, i)
        return -1

    out = prog()
    if name == "seq":
        want = [v for i in range(n) for v in ((i + 1, i) if how == "nested" else (i,))] + [-1]
        same(list(out), want, "all yielded values")
        same(list(out), want, "all yielded values, again")
    elif stop is not None and stop < n:
        same(out, bad, "short circuit")
        same(seen, list(range(stop)), "no later statement runs")
    else:
        same(out, wrap(-1), "value")
    ctx.nontrivial(True)


@PROPERTY.obligation(lambda: st.tuples(st.sampled_from(["option", "result", "try"]), st.integers(0, 12), st.integers(0, 14)), quick=400, thorough=4000)
def recursive_expressions(case: Any, ctx: Ctx) -> None:
    """An expression that calls itself: every activation is independent."""
    name, n, bad = case
    b = BUILDERS[name]()
    wrap = Some if name == "option" else Ok
    fail = Nothing if name == "option" else Error(Boom(bad))
    calls: list[int] = []

    @b
    def fact(k: int) -> Any:
        calls.append(k)
        if k == bad:
            yield from fail
        if k <= 0:
            return 1
        rest = yield from fact(k - 1)
        again = yield rest
        return k * again

    import math

    same(fact(n), fail if bad <= n else wrap(math.factorial(n)), "recursive expression")
    same(calls, list(range(n, (bad if bad <= n else 0) - 1, -1)), "activations")

    @b
    def sums(xs: Any) -> Any:
        if not xs:
            return 0
        a = yield from sums(xs[: len(xs) // 2] if len(xs) > 1 else ())
        if len(xs) > 1:
            c = yield from sums(xs[len(xs) // 2 :])
        else:
            c = yield xs[0]
        return a + c

    same(sums(tuple(range(n))), wrap(sum(range(n))), "doubly recursive expression")
    ctx.nontrivial(n >= 2)


PAYLOADS: list[Any] = [0, 1, 2, -1, None, "", "a", False, True, (), (1, 2), 0.5, frozenset()]


def values() -> Any:
    return st.sampled_from(PAYLOADS)


def monadic(name: str, values: Any) -> Any:
    if name == "option":
        return st.just(("none",)) | values.map(lambda v: ("some", v))
    if name == "seq":
        return st.lists(values, max_size=4).map(lambda v: ("seq", v))
    return values.map(lambda v: ("ok", v)) | values.map(lambda v: ("error", v))


def build(m: Any) -> Any:
    match m:
        case ("none",):
            return Nothing
        case ("some", v):
            return Some(v)
        case ("ok", v):
            return Ok(v)
        case ("error", v):
            return Error(v)
        case (_, v):
            return Seq(v)


def flat(x: Any) -> Any:
    return list(x) if isinstance(x, Seq) or not hasattr(x, "tag") else x


@PROPERTY.obligation(
    lambda: st.sampled_from(["option", "result", "try", "seq"]).flatmap(
        lambda n: st.tuples(st.just(n), monadic(n, values()), monadic(n, values()), st.lists(monadic(n, values()), min_size=1, max_size=4), values())
    ),
    quick=800,
    thorough=20000,
    shards=2,
)
def builder_operations(case: Any, ctx: Ctx) -> None:
    """The operations of a builder called directly, and in a builder derived from it."""
    name, xs, ys, outs, v = case
    b = BUILDERS[name]()
    calls: list[Any] = []

    def fn(x: Any) -> Any:
        calls.append(x)
        return build(outs[(len(calls) - 1) % len(outs)])

    got = flat(b.bind(build(xs), fn))
    if name == "seq":
        same(calls, xs[1], "bind runs the function for every element, in order")
        same(got, [y for i in range(len(xs[1])) for y in outs[i % len(outs)][1]], "bind")
        same(flat(b.combine(build(xs), build(ys))), [*xs[1], *ys[1]], "combine")
        same(flat(b.zero()), [], "zero")
        same(flat(b.return_(v)), [v], "return_")
    else:
        good = xs[0] in ("some", "ok")
        same(calls, [xs[1]] if good else [], "bind runs the function on the payload only")
        same(got, build(outs[0]) if good else build(xs), "bind")
        same(b.combine(build(xs), build(ys)), build(ys) if good else build(xs), "combine")
        same(b.zero(), Nothing if name == "option" else Ok(None), "zero")
        same(b.return_(v), Some(v) if name == "option" else Ok(v), "return_")
    m = build(ys)
    expect(b.return_from(m) is m or flat(b.return_from(m)) == flat(m), "return_from gives its argument", b.return_from(m), m)
    same(flat(b.run(m)), flat(m), "run")
    thunked: list[int] = []
    same(flat(b.delay(lambda: thunked.append(1) or m)), flat(m), "delay")
    same(thunked, [1], "delay evaluates its function once")

    # a derived builder: run sees the finished computation once, whatever the body does
    runs: list[Any] = []

    class Traced(BUILDERS[name]):  # type: ignore
        def run(self, computation: Any) -> Any:
            runs.append(flat(computation))
            return super().run(computation)

    def body(kind: str) -> Any:
        if kind == "plain":
            return lambda: v

        def gen() -> Any:
            if kind == "effect" and name != "seq":
                yield from build(ys)
            else:
                yield v
            return 7

        return gen

    for kind in ("plain", "yield", "effect"):
        runs.clear()
        plain = BUILDERS[name]()(body(kind))()
        derived = Traced()(body(kind))()
        same(flat(derived), flat(plain), f"derived builder, {kind} body")
        same(runs, [flat(plain)], f"run applied once to the finished computation, {kind} body")
    ctx.nontrivial(xs[0] not in ("none", "error") and xs != ("seq", []))
    ctx.label(name)


KW = ["fn", "args", "kw", "kwargs", "value", "result", "state", "x"]


@PROPERTY.obligation(
    lambda: st.tuples(
        st.sampled_from(sorted(BUILDERS)),
        st.lists(st.sampled_from(PAYLOADS), max_size=3),
        st.dictionaries(st.sampled_from(KW), st.sampled_from(PAYLOADS), max_size=3),
        st.sampled_from(["function", "method", "static", "class", "object", "lambda"]),
        st.sampled_from(["yield", "plain", "effect"]),
        st.booleans(),
    ),
    quick=900,
    thorough=15000,
)
def signatures(case: Any, ctx: Ctx) -> None:
    """A decorated function takes the arguments of the function: as a method, a static or class method, with keywords."""
    name, args, kw, how, kind, generic = case
    b = (BUILDERS[name][int] if name in ("option", "seq") else BUILDERS[name][int, str] if name == "result" else BUILDERS[name][int])() if generic else BUILDERS[name]()
    wrap = Some if name == "option" else Ok
    seen: list[Any] = []

    def record(*a: Any, **k: Any) -> Any:
        seen.append((a, dict(k)))
        return len(seen)

    def plain(*a: Any, **k: Any) -> Any:
        return record(*a, **k)

    def gen(*a: Any, **k: Any) -> Any:
        x = yield 5
        if x != 5:
            record("wrong", x)
        return record(*a, **k)

    def effects(*a: Any, **k: Any) -> Any:
        x = yield from (Seq([7]) if name == "seq" else wrap(7))
        if name != "seq" and x != 7:
            record("wrong", x)
        return record(*a, **k)

    body = {"yield": gen, "plain": plain, "effect": effects}[kind]

    if len(args) % 2 == 0:  # as if written at the top level of a module
        body.__qualname__ = "Host.method" if how in ("method", "static", "class") else "body"

    class Host:
        method = b(body)
        static = staticmethod(b(body))
        cls = classmethod(b(body))

    host = Host()
    lead: tuple[Any, ...] = ()
    if how == "method":
        call, lead = host.method, (host,)
    elif how == "static":
        call = host.static
    elif how == "class":
        call, lead = Host.cls, (Host,)
    elif how == "object":
        call = b(functools.partial(body))
    elif how == "lambda":
        call = b(lambda *a, **k: body(*a, **k))
    else:
        call = b(body)
    outs = []
    for _ in range(2):
        r = call(*args, **kw)
        if name == "seq":
            r = list(r)
            first = {"yield": [5], "effect": [7], "plain": []}[kind]
            outs.append(r)
            same(r, [*first, len(seen)], "sequence of the call")
        else:
            same(r, wrap(len(seen)), "value of the call")
    want = ((*lead, *args), kw)
    for a, k in seen:
        expect(len(a) == len(want[0]) and all(x is y for x, y in zip(a, want[0])), "positional arguments", a, want)
        expect(list(k) == list(kw) and all(k[n] is kw[n] for n in kw), "keyword arguments", k, want)
    same(len(seen), 2, "each call runs the body once")
    ctx.nontrivial(len(args) + len(kw) >= 2)
