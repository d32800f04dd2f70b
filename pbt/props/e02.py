"""E02: async effect expressions run as their programs read, under any suspension."""

from __future__ import annotations

import asyncio
import functools
from typing import Any

from hypothesis import strategies as st

from expression import Error, Nothing, Ok, Some, effect

from .. import effectprog as P
from ..core import Ctx, Property
from ..util import Boom, expect, same

PROPERTY = Property(
    "E02",
    rule="async programs of up to three functions (async generators, coroutine bodies without yields, plain bodies, awaited helpers), "
    "rendered as source for the real builder and for a straight-line reference, run alone and several at a time; non-trivial when at "
    "least three effects are in the program",
)

BUILDERS: dict[str, Any] = {"async_option": effect.async_option, "async_result": effect.async_result, "async_try": effect.async_try}


def compiled(prog: Any, mode: str, name: str, decorate: Any) -> Any:
    ns = P.namespace(P.Meaning(name), DECO=decorate, SLEEP=asyncio.sleep)
    src = P.Render(prog, mode, "async", "DECO").source
    exec(compile(src, f"<{mode}>", "exec"), ns)  # noqa: S102
    return ns[f"f{len(prog) - 1}"], src


def reference(fn: Any, a: Any, k: Any) -> Any:
    log: list[Any] = []
    try:
        return ("ok", P.show(fn(log.append, *a, **k)), log)
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, P.Stop) or e not in P.RAISES:
            raise
        return ("exc", id(e), log)


async def actual(fn: Any, a: Any, k: Any) -> Any:
    log: list[Any] = []
    try:
        return ("ok", P.show(await fn(log.append, *a, **k)), log)
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, asyncio.CancelledError) or e not in P.RAISES:
            raise
        return ("exc", id(e), log)


def cases() -> Any:
    return st.tuples(
        st.sampled_from(sorted(BUILDERS)),
        P.programs(["expr", "expr", "expr", "plain", "plain", "helper", "sync"]),
        st.lists(st.integers(0, 6), min_size=1, max_size=4),
        st.booleans(),
    )


@PROPERTY.obligation(cases, quick=6000, shards=7)
def programs(case: Any, ctx: Ctx) -> None:
    name, prog, xs, shared = case
    one = BUILDERS[name]()
    deco = one if shared else (lambda f: BUILDERS[name]()(f))
    real, src = compiled(prog, "real", name, deco)
    ref, _ = compiled(prog, "ref", name, None)
    calls = [c for x in xs for c in (((x,), {}), ((), {"x": x, "k": 1}))]
    want = [reference(ref, a, k) for a, k in calls]

    async def main() -> None:
        for (a, k), w in zip(calls, want):
            same(await actual(real, a, k), w, f"{name} expression\n{src}")
        # the same calls at once: none influences another
        got = await asyncio.gather(*[actual(real, a, k) for a, k in calls])
        for g, w in zip(got, want):
            same(g, w, f"{name} expression among others\n{src}")

    asyncio.run(main())
    ctx.nontrivial(P.has_effect(prog) >= 3)
    ctx.label(name)


@PROPERTY.obligation(
    lambda: st.tuples(st.lists(st.tuples(st.sampled_from(sorted(BUILDERS)), P.programs(["expr", "expr", "plain", "helper"]), st.integers(0, 6)), min_size=2, max_size=5), st.integers(0, 3)),
    quick=1200,
    shards=5,
)
def concurrent(case: Any, ctx: Ctx) -> None:
    """Different expressions of different builders interleaved, some started in the middle of others."""
    runs, lag = case
    shared = {n: b() for n, b in BUILDERS.items()}
    made = [(compiled(p, "real", n, shared[n]), compiled(p, "ref", n, None)[0], x) for n, p, x in runs]
    want = [reference(ref, (x,), {}) for _, ref, x in made]

    async def start(i: int) -> Any:
        for _ in range(i * lag):
            await asyncio.sleep(0)
        (real, _), _, x = made[i]
        return await actual(real, (x,), {})

    async def main() -> None:
        got = await asyncio.gather(*[start(i) for i in range(len(made))])
        for i, (g, w) in enumerate(zip(got, want)):
            same(g, w, f"expression {i} among others\n{made[i][0][1]}")

    asyncio.run(main())
    ctx.nontrivial(sum(P.has_effect(p) >= 2 for _, p, _ in runs) >= 2)


@PROPERTY.obligation(lambda: st.tuples(st.sampled_from(sorted(BUILDERS)), st.integers(100, 2500), st.sampled_from(["yield", "await", "nested"]), st.none() | st.integers(0, 2500)), quick=40, thorough=600, shards=3)
def long_programs(case: Any, ctx: Ctx) -> None:
    name, n, how, stop = case
    b = BUILDERS[name]()
    wrap = Some if name == "async_option" else Ok
    bad: Any = Nothing if name == "async_option" else Error(Boom("e"))
    seen: list[int] = []

    @b
    async def inner(i: int) -> Any:
        if i % 100 == 0:
            await asyncio.sleep(0)
        yield i + 1
        yield i

    @b
    async def prog() -> Any:
        for i in range(n):
            if stop == i:
                await bad
            seen.append(i)
            if how == "yield":
                got = yield i
            elif how == "await":
                got = await wrap(i)
            else:
                got = await (await inner(i))
            expect(got == i, "payload handed back", got, i)
        yield -1

    out = asyncio.run(prog())
    if stop is not None and stop < n:
        same(out, bad, "short circuit")
        same(seen, list(range(stop)), "no later statement runs")
    else:
        same(out, wrap(-1), "value")
    ctx.nontrivial(True)


@PROPERTY.obligation(
    lambda: st.tuples(st.sampled_from(sorted(BUILDERS)), st.lists(st.tuples(st.sampled_from(["yield", "await", "sleep", "nested", "note"]), st.integers(0, 3)), min_size=1, max_size=8), st.integers(0, 14), st.booleans(), st.booleans()),
    quick=1200,
    thorough=15000,
    shards=2,
)
def cancelled(case: Any, ctx: Ctx) -> None:
    """An expression whose task is cancelled stops where it is, cleans up once and is seen as cancelled."""
    name, steps, after, absorb, plain = case
    b = BUILDERS[name]()
    wrap = Some if name == "async_option" else Ok

    async def main() -> None:
        log: list[Any] = []
        interrupted: list[int] = []

        @b
        async def inner(n: int) -> Any:
            log.append("in")
            try:
                for _ in range(n):
                    await asyncio.sleep(0)
            except asyncio.CancelledError:
                interrupted.append(1)
                raise
            finally:
                log.append("out")
            yield n

        async def body(i: int) -> Any:
            what, n = steps[i]
            if what == "sleep" or what == "yield":
                for _ in range(n):
                    await asyncio.sleep(0)
            elif what == "await":
                expect(await wrap(n) == n, "payload", None, n)
            elif what == "nested":
                expect(await (await inner(n)) == n, "nested value", None, n)

        async def gen() -> Any:
            for i in range(len(steps)):
                log.append(i)
                try:
                    await body(i)
                except asyncio.CancelledError:
                    interrupted.append(i)
                    if not absorb:
                        raise
                finally:
                    log.append(("done", i))
                if steps[i][0] == "yield":
                    yield i
            yield "end"

        async def coro() -> Any:
            for i in range(len(steps)):
                log.append(i)
                try:
                    await body(i)
                except asyncio.CancelledError:
                    interrupted.append(i)
                    if not absorb:
                        raise
                finally:
                    log.append(("done", i))
            return "end"

        fn = b(coro if plain else gen)
        task = asyncio.ensure_future(fn())
        for _ in range(after):
            await asyncio.sleep(0)
        done_before = task.done()
        started = bool(log)
        task.cancel()
        out: Any
        try:
            out = await task
        except asyncio.CancelledError:
            out = "cancelled"
        opened = [x for x in log if type(x) is int]
        same([x for x in log if type(x) is tuple], [("done", i) for i in opened], "every entered step is left exactly once, in order")
        same(log.count("in"), log.count("out"), "nested expressions are left")
        same(opened, list(range(len(opened))), "steps run in order, none twice")
        if done_before or (started and (absorb or not interrupted)):
            same(out, wrap("end"), "an expression not interrupted gives its value")
            same(len(opened), len(steps), "all steps")
        else:
            same(out, "cancelled", "cancellation propagates")
            expect(not started or bool(interrupted), "the body sees the cancellation", interrupted)
        if interrupted:
            ctx.label("interrupted")
        ctx.nontrivial(bool(interrupted))

    asyncio.run(main())


PAYLOADS: list[Any] = [0, 1, 2, -1, None, "", "a", False, True, (), (1, 2), 0.5, frozenset()]


def monadic(name: str) -> Any:
    v = st.sampled_from(PAYLOADS)
    if name == "async_option":
        return st.just(("none",)) | v.map(lambda x: ("some", x))
    return v.map(lambda x: ("ok", x)) | v.map(lambda x: ("error", x))


def build(m: Any) -> Any:
    match m:
        case ("none",):
            return Nothing
        case ("some", v):
            return Some(v)
        case ("ok", v):
            return Ok(v)
        case (_, v):
            return Error(v)


@PROPERTY.obligation(
    lambda: st.sampled_from(sorted(BUILDERS)).flatmap(lambda n: st.tuples(st.just(n), monadic(n), monadic(n), monadic(n), st.sampled_from(PAYLOADS), st.integers(0, 2))),
    quick=800,
    thorough=20000,
)
def builder_operations(case: Any, ctx: Ctx) -> None:
    """The operations of a builder called directly."""
    name, xs, ys, zs, v, naps = case
    b = BUILDERS[name]()
    good = xs[0] in ("some", "ok")
    calls: list[Any] = []

    async def fn(x: Any) -> Any:
        calls.append(x)
        for _ in range(naps):
            await asyncio.sleep(0)
        return build(zs)

    async def main() -> None:
        same(await b.bind(build(xs), fn), build(zs) if good else build(xs), "bind")
        same(calls, [xs[1]] if good else [], "bind runs the function on the payload only")
        same(await b.combine(build(xs), build(ys)), build(ys) if good else build(xs), "combine")
        same(await b.zero(), Nothing if name == "async_option" else Ok(None), "zero")
        same(await b.return_(v), Some(v) if name == "async_option" else Ok(v), "return_")
        same(await b.return_from(build(ys)), build(ys), "return_from")
        same(await b.run(build(ys)), build(ys), "run")
        thunked: list[int] = []
        same(await b.delay(lambda: thunked.append(1) or build(ys)), build(ys), "delay")
        same(thunked, [1], "delay evaluates its function once")

    asyncio.run(main())
    ctx.nontrivial(good)
    ctx.label(name)


KW = ["fn", "args", "kw", "kwargs", "value", "result", "state", "x"]


@PROPERTY.obligation(
    lambda: st.tuples(
        st.sampled_from(sorted(BUILDERS)),
        st.lists(st.sampled_from(PAYLOADS), max_size=3),
        st.dictionaries(st.sampled_from(KW), st.sampled_from(PAYLOADS), max_size=3),
        st.sampled_from(["function", "method", "static", "class", "object", "lambda"]),
        st.sampled_from(["yield", "plain", "await"]),
        st.booleans(),
    ),
    quick=600,
    thorough=15000,
)
def signatures(case: Any, ctx: Ctx) -> None:
    """A decorated function takes the arguments of the function: as a method, a static or class method, with keywords."""
    name, args, kw, how, kind, generic = case
    b = (BUILDERS[name][int, str] if name == "async_result" else BUILDERS[name][int])() if generic else BUILDERS[name]()
    wrap = Some if name == "async_option" else Ok
    seen: list[Any] = []

    def record(*a: Any, **k: Any) -> Any:
        seen.append((a, dict(k)))
        return len(seen)

    async def plain(*a: Any, **k: Any) -> Any:
        return record(*a, **k)

    async def gen(*a: Any, **k: Any) -> Any:
        x = yield 5
        if x != 5:
            record("wrong", x)
        await asyncio.sleep(0)
        yield record(*a, **k)

    async def awaits(*a: Any, **k: Any) -> Any:
        x = await wrap(7)
        if x != 7:
            record("wrong", x)
        return record(*a, **k)

    body = {"yield": gen, "plain": plain, "await": awaits}[kind]

    if len(args) % 2 == 0:  # as if written at the top level of a module
        body.__qualname__ = "Host.method" if how in ("method", "static", "class") else "body"

    class Host:
        method = b(body)
        static = staticmethod(b(body))
        cls = classmethod(b(body))

    host = Host()
    lead: tuple[Any, ...] = ()
    if how == "method":
        call, lead = host.method, (host,)
    elif how == "static":
        call = host.static
    elif how == "class":
        call, lead = Host.cls, (Host,)
    elif how == "object":
        call = b(functools.partial(body))
    elif how == "lambda":
        call = b(lambda *a, **k: body(*a, **k))
    else:
        call = b(body)

    async def main() -> None:
        for _ in range(2):
            same(await call(*args, **kw), wrap(len(seen)), "value of the call")

    asyncio.run(main())
    want = ((*lead, *args), kw)
    for a, k in seen:
        expect(len(a) == len(want[0]) and all(x is y for x, y in zip(a, want[0])), "positional arguments", a, want)
        expect(list(k) == list(kw) and all(k[n] is kw[n] for n in kw), "keyword arguments", k, want)
    same(len(seen), 2, "each call runs the body once")
    ctx.nontrivial(len(args) + len(kw) >= 2)
