"""F03: tail-recursive functions compute the recursion at any depth."""

from __future__ import annotations

import asyncio
import sys
from typing import Any

from hypothesis import strategies as st

from expression import Nothing, Some, TailCall, tailrec, tailrec_async

from ..core import Ctx, Property
from ..util import Boom, Box, expect, same

PROPERTY = Property(
    "F03",
    rule="scripts of tail calls (positional and keyword arguments of every step generated), nested and re-entrant recursion over "
    "generated trees, and countdowns of up to hundreds of thousands of steps, each in the plain and the async form; non-trivial when at "
    "least two tail calls are made",
)


class Fatal(BaseException):
    pass


RESULTS: list[Any] = [None, 0, False, "", (), [], {}, 1, (1, 2), TailCall, Box(1), Nothing, Some(None), Boom(1), int, lambda: 1, NotImplemented]
EXCS: dict[str, Any] = {"boom": Boom, "fatal": Fatal, "rec": RecursionError, "key": KeyError, "rt": RuntimeError}
KW = ["a", "fn", "args", "kw", "bouncer", "self", "acc"]
VALS: list[Any] = [None, 0, "", (), (1,), 2, "x", Box(2), [1], Nothing]
val = st.integers(0, len(VALS) - 1)
step = st.tuples(st.lists(val, max_size=3), st.lists(st.tuples(st.sampled_from(KW), val), max_size=3, unique_by=lambda p: p[0]))
ending = st.one_of(st.tuples(st.just("return"), st.integers(0, len(RESULTS) - 1)), st.tuples(st.just("raise"), st.sampled_from(sorted(EXCS))))


def same_args(got: Any, want: Any, what: str) -> None:
    expect(len(got) == len(want), f"{what}: number of calls", len(got), len(want))
    for i, ((a, k), (b, m)) in enumerate(zip(got, want)):
        ok = len(a) == len(b) and all(x is y for x, y in zip(a, b)) and list(k) == list(m) and all(k[n] is m[n] for n in k)
        expect(ok, f"{what}: arguments of call {i}", (a, k), (b, m))


class Jump(TailCall):  # type: ignore[type-arg]
    """A tail call of a class derived from TailCall."""


class Script:
    """One function whose successive calls follow the generated steps."""

    prefix: Any = ()

    def __init__(self, steps: Any, end: Any) -> None:
        self.steps = [(tuple(VALS[i] for i in a), {n: VALS[i] for n, i in k}) for a, k in steps]
        self.exc = EXCS[end[1]]("end") if end[0] == "raise" else None
        self.result = RESULTS[end[1]] if end[0] == "return" else None
        self.log: list[Any] = []

    def __call__(self, /, *a: Any, **k: Any) -> Any:
        self.log.append((a, dict(k)))
        i = len(self.log)
        k["spoilt"] = 1
        if i < len(self.steps):
            b, m = self.steps[i]
            return (Jump if i % 3 == 0 else TailCall)(*self.prefix, *b, **m)
        if self.exc is not None:
            raise self.exc
        return self.result

    def judge(self, got: Any, what: str) -> None:
        same_args(self.log, self.steps, what)
        if self.exc is not None:
            expect(got[0] == "exc" and got[1] is self.exc, f"{what}: the exception reaches the caller", got, self.exc)
        else:
            expect(got[0] == "ok" and got[1] is self.result, f"{what}: result", got, self.result)


def attempt(fn: Any) -> Any:
    try:
        return ("ok", fn())
    except BaseException as e:  # noqa: BLE001
        return ("exc", e)


@PROPERTY.obligation(lambda: st.tuples(st.lists(step, min_size=1, max_size=8), ending, st.integers(1, 3)), quick=8000, shards=3)
def scripts(case: Any, ctx: Ctx) -> None:
    steps, end, times = case
    for what, method in (("tailrec", False), ("tailrec method", True)):
        s = Script(steps, end)
        if method:

            class Host:
                @tailrec
                def go(self, /, *a: Any, **k: Any) -> Any:
                    return s(*a, **k)  # noqa: B023

            host = Host()
            s.prefix = (host,)
            f: Any = host.go
        else:

            @tailrec
            def f(*a: Any, **k: Any) -> Any:
                return s(*a, **k)  # noqa: B023

        for _ in range(times):
            s.log.clear()
            a, k = s.steps[0]
            s.judge(attempt(lambda: f(*a, **k)), what)  # noqa: B023
    ctx.nontrivial(len(steps) >= 3)
    ctx.label(end[0])


@PROPERTY.obligation(
    lambda: st.tuples(
        st.lists(st.tuples(st.lists(step, min_size=1, max_size=6), ending, st.lists(st.integers(0, 2), min_size=6, max_size=6)), min_size=1, max_size=4),
        st.booleans(),
    ),
    quick=2500,
    shards=4,
)
def async_scripts(case: Any, ctx: Ctx) -> None:
    """Several async tail recursions (the same function or different ones) running at once, suspending anywhere."""
    runs, shared = case

    async def main() -> None:
        scripts_ = [Script(st_, e) for st_, e, _ in runs]
        cur: dict[Any, int] = {}

        @tailrec_async
        async def one(*a: Any, **k: Any) -> Any:
            n = cur[asyncio.current_task()]
            s, pauses = scripts_[n], runs[n][2]
            for _ in range(pauses[len(s.log) % 6]):
                await asyncio.sleep(0)
            out = s(*a, **k)
            for _ in range(pauses[(len(s.log) + 3) % 6]):
                await asyncio.sleep(0)
            return out

        async def start(n: int) -> Any:
            cur[asyncio.current_task()] = n
            a, k = scripts_[n].steps[0]
            f = one
            if not shared:

                @tailrec_async
                async def mine(*a: Any, **k: Any) -> Any:
                    await asyncio.sleep(0)
                    return scripts_[n](*a, **k)

                f = mine
            try:
                return ("ok", await f(*a, **k))
            except (Exception, Fatal) as e:
                return ("exc", e)

        outs = await asyncio.gather(*[start(n) for n in range(len(runs))])
        for s, got in zip(scripts_, outs):
            s.judge(got, "tailrec_async")

    asyncio.run(main())
    ctx.nontrivial(len(runs) >= 2 and any(len(r[0]) >= 3 for r in runs))


def trees() -> Any:
    return st.recursive(st.integers(-5, 5), lambda c: st.lists(c, max_size=4), max_leaves=15)


@PROPERTY.obligation(lambda: st.tuples(trees(), st.integers(0, 60)), quick=3000, shards=2)
def nested(case: Any, ctx: Ctx) -> None:
    """A tail-recursive function that also calls itself and others in non-tail position."""
    tree, n = case

    def ref_sum(t: Any) -> int:
        return t if isinstance(t, int) else sum(ref_sum(c) for c in t)

    @tailrec
    def total(t: Any, rest: Any = (), acc: int = 0) -> Any:
        if isinstance(t, int):
            acc += t
        else:
            for c in t[:-1]:
                acc += total(c)
            if t:
                return TailCall(t[-1], rest=rest, acc=acc)
        if rest:
            return TailCall(rest[0], rest[1:], acc=acc)
        return acc

    same(total(tree), ref_sum(tree), "nested recursion")
    same(total(0, (tree, 5, tree)), 2 * ref_sum(tree) + 5, "nested recursion with a queue")

    @tailrec
    def gcd(a: int, b: int) -> Any:
        return a if b == 0 else TailCall(b, a % b)

    @tailrec
    def lcm_all(k: int, acc: int) -> Any:
        return acc if k == 0 else TailCall(k - 1, acc=acc * k // gcd(acc, k))

    import math

    same(lcm_all(n, 1), math.lcm(*range(1, n + 1)), "one tail recursion inside another")

    # a tail call object may be used again, and is not altered
    again = TailCall(1, x=2)
    seen: list[Any] = []

    @tailrec
    def f(*a: Any, **k: Any) -> Any:
        seen.append((a, dict(k)))
        return again if len(seen) < 4 else seen

    same(f(), [((), {}), ((1,), {"x": 2}), ((1,), {"x": 2}), ((1,), {"x": 2})], "tail call object used again")

    # pending generators keep their own state
    @tailrec
    def lazy(k: int) -> Any:
        return (x + total(tree) for x in range(3)) if k == 0 else TailCall(k - 1)

    same(list(lazy(n)), [x + ref_sum(tree) for x in range(3)], "generator result")
    ctx.nontrivial(not isinstance(tree, int) and len(tree) >= 2)


@PROPERTY.obligation(lambda: st.tuples(st.integers(5_000, 120_000), st.integers(0, 3), st.booleans()), quick=24, thorough=400, shards=4, fixed=((300_000, 1, False), (300_000, 2, True)))
def deep(case: Any, ctx: Ctx) -> None:
    """Hundreds of thousands of tail calls, also when started close to the recursion limit."""
    n, how, raises = case
    err = Boom("end")

    def finish(acc: int) -> Any:
        if raises:
            raise err
        return acc

    @tailrec
    def down(k: int, acc: int = 0, *, inc: int = 1) -> Any:
        if k == 0:
            return finish(acc)
        if how == 0:
            return TailCall(k - 1, acc + inc, inc=inc)
        if how == 1:
            return TailCall(k - 1, acc=acc + inc)
        return TailCall(k=k - 1, acc=acc + inc, inc=inc)

    @tailrec_async
    async def adown(k: int, acc: int = 0, *, inc: int = 1) -> Any:
        if how == 3 and k % 5000 == 0:
            await asyncio.sleep(0)
        return finish(acc) if k == 0 else TailCall(k - 1, acc=acc + inc, inc=inc)

    want = ("exc", err) if raises else ("ok", n)
    same(attempt(lambda: down(n)), want, "deep recursion")

    def under(d: int) -> Any:
        return down(2000) if d == 0 else under(d - 1)

    depth = len(_frames())
    same(attempt(lambda: under(max(0, sys.getrecursionlimit() - depth - 120))), ("exc", err) if raises else ("ok", 2000), "deep recursion from a deep stack")

    async def main() -> Any:
        return await adown(n)

    same(attempt(lambda: asyncio.run(main())), want, "deep async recursion")
    ctx.nontrivial(True)


def _frames() -> list[Any]:
    out, f = [], sys._getframe()
    while f:
        out.append(f)
        f = f.f_back
    return out
