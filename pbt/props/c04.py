"""C04: started and continuation-based computations."""

from __future__ import annotations

import asyncio
import gc
import math
import logging
import selectors
import weakref
from typing import Any

from hypothesis import strategies as st

from expression import Nothing, Some
from expression.core import aiotools
from expression.system import CancellationToken, CancellationTokenSource, ObjectDisposedException, OperationCanceledError

from ..core import Ctx, Property
from ..sched import Scheduler, block_until, pause, plans, run_loop
from ..util import Boom, Boom2, Box, expect
from ..values import Later

logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)

PROPERTY = Property(
    "C04",
    rule="generated orders and delays of continuation calls; generated sets of started computations (suspending, failing, cleaning up, "
    "catching their cancellation) with tokens cancelled before, between any two steps, after, or from another thread; generated values "
    "and failures for the synchronous runner; generated sleeps on a virtual clock; non-trivial when two continuations are called, or a "
    "token is cancelled, or an exception is raised, or several computations overlap",
    assumptions=["exceptions handed to the exception continuation are ones asyncio futures accept (not StopIteration)"],
)

VALUES: list[Any] = [None, 0, False, "", (), [], {}, 0.0, 1, "x", (1, 2), Exception("as a value"), Box(1), NotImplemented, float("nan"), Later(), Later, Some(1), Nothing, len, iter(())]
ERRORS: list[Any] = [Boom(1), Boom2(2), ValueError("v"), KeyError("k"), OperationCanceledError("c"), ObjectDisposedException(), asyncio.TimeoutError(), RuntimeError(), AssertionError()]


async def spin(n: int) -> None:
    for _ in range(n):
        await asyncio.sleep(0)


def drive(coro: Any) -> Any:
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(coro)
    finally:
        loop.close()


# ------------------------------------------------------------------ continuations
def continuation_scripts() -> Any:
    call = st.tuples(
        st.none() | st.integers(0, 4),  # None: inside the callback itself; n: after n turns of the loop
        st.sampled_from(["done", "done", "error", "cancel"]),
        st.integers(0, 20),
    )
    return st.tuples(st.lists(call, min_size=1, max_size=5), st.integers(0, 6), st.none() | st.none() | st.integers(0, 8))


@PROPERTY.obligation(continuation_scripts, quick=4000, thorough=60000, shards=2)
def first_continuation_wins(case: Any, ctx: Ctx) -> None:
    calls, delay, give_up = case  # give_up: the waiting task is cancelled after that many turns
    now = [c for c in calls if c[0] is None]
    later = sorted([c for c in calls if c[0] is not None], key=lambda c: c[0])
    _, kind, arg = (now + later)[0]
    value, err = VALUES[arg % len(VALUES)], ERRORS[arg % len(ERRORS)]
    entered = []

    async def main() -> Any:
        conts: dict[str, Any] = {}

        def fire(c: Any) -> None:
            k, a = c[1], c[2]
            arg = {"done": VALUES[a % len(VALUES)], "error": ERRORS[a % len(ERRORS)], "cancel": OperationCanceledError("stop")}[k]
            conts[k](arg)

        def callback(done: Any, error: Any, cancel: Any) -> None:
            entered.append(1)
            conts.update(done=done, error=error, cancel=cancel)
            for c in now:
                fire(c)

        async def signal() -> None:
            t = 0
            for c in later:
                await spin(c[0] - t)
                t = c[0]
                fire(c)

        aw = aiotools.from_continuations(callback)
        sig = asyncio.ensure_future(signal())

        async def waiter() -> Any:
            await spin(delay)
            try:
                return ("value", await aw)
            except asyncio.CancelledError:
                return ("cancelled", None)
            except Exception as e:  # noqa: BLE001
                return ("error", e)

        w = asyncio.ensure_future(waiter())
        for turn in range(60):
            if turn == give_up and not w.done():
                w.cancel()
                left.append(turn)
            await asyncio.sleep(0)
        await sig  # no continuation raises, whenever it is called
        expect(w.done(), "completes once a continuation has been called")
        return ("cancelled", None) if w.cancelled() else w.result()

    left: list[int] = []
    got = drive(main())
    expect(entered == [1], "the callback is called once", entered)
    if left:
        expect(got[0] == "cancelled" or kind != "cancel", "the waiting task was cancelled", got)
        if got[0] == "cancelled":
            ctx.nontrivial()
            return
    want = {"done": ("value", value), "error": ("error", err), "cancel": ("cancelled", None)}[kind]
    expect(got[0] == want[0] and got[1] is want[1], "the first continuation decides", got, want)
    ctx.nontrivial(len(calls) >= 2)


def thread_scripts() -> Any:
    call = st.tuples(st.integers(0, 3), st.sampled_from(["done", "done", "error", "cancel"]), st.integers(0, 20))
    return st.integers(1, 3).flatmap(
        lambda n: st.tuples(
            st.lists(st.lists(call, min_size=1, max_size=3), min_size=n, max_size=n),  # by other threads
            st.lists(call, max_size=2),  # by the loop itself
            st.integers(0, 3),
            plans(n + 1, 10, 40),
            st.booleans(),
        )
    )


@PROPERTY.obligation(thread_scripts, quick=1200, thorough=20000, shards=4)
def continuations_from_other_threads(case: Any, ctx: Ctx) -> None:
    scripts, own, delay, plan, opcodes = case
    conts: dict[str, Any] = {}
    log: list[tuple[str, int]] = []
    made: list[tuple[str, Any]] = []
    over: list[int] = []
    result: list[Any] = []

    def fire(kind: str, a: int) -> None:
        arg = {"done": VALUES[a % len(VALUES)], "error": ERRORS[a % len(ERRORS)], "cancel": OperationCanceledError("stop")}[kind]
        n = len(made)
        made.append((kind, arg))
        log.append(("call", n))
        conts[kind](arg)
        log.append(("end", n))

    async def main() -> None:
        def callback(done: Any, error: Any, cancel: Any) -> None:
            conts.update(done=done, error=error, cancel=cancel)

        aw = aiotools.from_continuations(callback)
        await spin(delay)
        for turns, kind, a in own:
            await spin(turns)
            fire(kind, a)
        try:
            result.append(("done", await aw))  # nothing but the library can wake this loop up
        except asyncio.CancelledError:
            result.append(("cancel", None))
        except Exception as e:  # noqa: BLE001
            result.append(("error", e))
        block_until(lambda: len(over) == len(scripts))  # the loop outlives the other threads
        await spin(2)

    def caller(script: Any) -> Any:
        def go() -> None:
            try:
                block_until(lambda: bool(conts))
                for pauses, kind, a in script:
                    for _ in range(pauses):
                        pause()
                    fire(kind, a)
            finally:
                over.append(1)

        return go

    s = Scheduler(plan, opcodes)
    ts = s.run([lambda: run_loop(main), *[caller(sc) for sc in scripts]])
    expect(s.stuck is None and not any(t.error.__class__.__name__ == "Stuck" for t in ts), "a continuation called from another thread does not end the wait", made, log)
    for t in ts:
        if t.error is not None:
            raise t.error
    first_end = next((i for i, (what, _) in enumerate(log) if what == "end"), len(log))
    winners = [made[n] for what, n in log[:first_end] if what == "call"]
    ok = any(k == result[0][0] and (k == "cancel" or v is result[0][1]) for k, v in winners)
    expect(ok, "the first continuation decides", result, winners, log)
    ctx.nontrivial(s.switches > 0 or len(made) > 1)


# ------------------------------------------------------------------ started computations
class Awaitable:
    """An awaitable that is not a coroutine."""

    def __init__(self, coro: Any) -> None:
        self.coro = coro

    def __await__(self) -> Any:
        return self.coro.__await__()


def start_scripts() -> Any:
    comp = st.tuples(
        st.sampled_from(["start", "start_immediate"]),
        st.integers(0, 4),  # when it is started
        st.integers(0, 5),  # suspensions
        st.sampled_from(["", "", "boom", "cleanup", "catch"]),
        st.sampled_from(["coro", "object"]),
        st.none() | st.integers(0, 2) | st.just("none"),  # token
    )
    return st.tuples(
        st.lists(comp, min_size=1, max_size=5),
        st.lists(st.tuples(st.integers(0, 8), st.integers(0, 2), st.sampled_from(["cancel", "cancel", "dispose", "exit"])), max_size=3),
        st.booleans(),
    )


@PROPERTY.obligation(start_scripts, quick=3500, thorough=60000, shards=4)
def started(case: Any, ctx: Ctx) -> None:
    comps, cancels, cancel_first = case
    sources = [CancellationTokenSource() for _ in range(3)]
    logs: list[list[Any]] = [[] for _ in comps]
    state: list[dict[str, Any]] = [{"started": False, "refused": False, "cancelled": False, "log_at_cancel": None} for _ in comps]

    async def computation(i: int, steps: int, ending: str) -> Any:
        log = logs[i]
        log.append("begin")
        try:
            for k in range(steps):
                await asyncio.sleep(0)
                log.append(k)
        except asyncio.CancelledError:
            log.append("cancelled")
            if ending == "catch":
                await asyncio.sleep(0)
                log.append("caught")
                return None
            raise
        finally:
            if ending == "cleanup":
                await asyncio.sleep(0)
                log.append("clean")
        log.append("end")
        if ending == "boom":
            raise Boom(i)
        return i

    def full(i: int) -> list[Any]:
        _, _, steps, ending, _, _ = comps[i]
        return ["begin", *range(steps), *(["clean"] if ending == "cleanup" else []), "end"]

    def finished(i: int) -> bool:
        return logs[i] == full(i)

    async def main() -> None:
        made = []
        for now in range(12):
            def do_cancels() -> None:
                for when, which, how in cancels:
                    if when != now:
                        continue
                    for i, c in enumerate(comps):
                        s = state[i]
                        if c[5] == which and s["started"] and not s["cancelled"] and not finished(i):
                            s["cancelled"] = True
                            s["log_at_cancel"] = list(logs[i])
                    src = sources[which]
                    if how == "cancel":
                        src.cancel()
                    elif how == "dispose":
                        src.dispose()
                    else:
                        src.__exit__(None, None, None)

            def do_starts() -> None:
                for i, (fn, when, steps, ending, kind, tok) in enumerate(comps):
                    if when != now:
                        continue
                    co: Any = computation(i, steps, ending)
                    if kind == "object":
                        co = Awaitable(co)
                    made.append(co)
                    token = CancellationToken.none() if tok == "none" else None if tok is None else sources[tok].token
                    dead = token is not None and token.is_cancellation_requested
                    args = () if tok is None and i % 2 else (token,)
                    try:
                        r = getattr(aiotools, fn)(co, *args)
                        expect(r is None, "starting returns nothing", r)
                        expect(logs[i] in ([], ["begin"]), "starting does not wait", logs[i])
                        if dead:  # a token cancelled before: the computation must not run, whether or not starting raises
                            state[i]["refused"] = True
                    except ObjectDisposedException:
                        expect(dead, "starting raises only with a cancelled token")
                        state[i]["refused"] = True
                        continue
                    state[i]["started"] = True

            for f in (do_cancels, do_starts) if cancel_first else (do_starts, do_cancels):
                f()
            gc_due = now == 3
            if gc_due and len(made) % 3 == 0:
                made.clear()
                gc.collect(1)
            await asyncio.sleep(0)
        await spin(60)

    drive(main())
    for i, (_, _, steps, ending, _kind, _tok) in enumerate(comps):
        log, s = logs[i], state[i]
        if s["refused"]:
            expect(log == [], "a computation started with a cancelled token does not run", log)
        elif not s["cancelled"]:
            expect(log == full(i), "runs to completion, each effect exactly once", i, log, full(i))
        else:
            at = s["log_at_cancel"]
            tail = {"cleanup": ["cancelled", "clean"], "catch": ["cancelled", "caught"]}.get(ending, ["cancelled"])
            ran = max(0, len(at) - 1)
            if at and ran >= steps:  # in its last suspension, the clean-up
                expect(log[: len(at)] == at, "what was done stays done", log, at)
            else:
                # it ends at the suspension it is in (one more turn of the loop is allowed for)
                allowed = [at + tail, ["begin", *range(ran + 1)] + tail] if at else [[], ["begin", *tail]]
                if ran + 1 >= steps and (at or not steps):
                    allowed.append(full(i))
                expect(log in allowed, "is cancelled where it is", log, at, allowed)
    ctx.nontrivial(len(comps) > 1 or any(s["cancelled"] for s in state))
    for s in state:
        if s["cancelled"]:
            ctx.label("cancelled under way")
        if s["refused"]:
            ctx.label("refused")


def orphan_cases() -> Any:
    return st.tuples(st.sampled_from(["start", "start_immediate"]), st.integers(1, 4), st.integers(0, 3), st.booleans())


@PROPERTY.obligation(orphan_cases, quick=150, thorough=1500)
def orphans_survive_collection(case: Any, ctx: Ctx) -> None:
    """Nobody but the library refers to these computations; the garbage collector must not end them."""
    fn, n, turns, with_token = case
    done: list[int] = []
    waits: list[Any] = []

    async def computation(i: int) -> None:
        fut = asyncio.get_running_loop().create_future()
        waits.append(weakref.ref(fut))
        await fut
        done.append(i)

    async def main() -> None:
        src = CancellationTokenSource()
        for i in range(n):
            if with_token:
                getattr(aiotools, fn)(computation(i), src.token)
            else:
                getattr(aiotools, fn)(computation(i))
        if with_token and turns % 2:
            del src
        await spin(2 + turns)
        gc.collect()
        for w in waits:
            fut = w()
            expect(fut is not None, "a started computation was collected before it completed")
            fut.set_result(None)
            del fut
        await spin(5)

    drive(main())
    expect(done == list(range(n)), "all complete", done)
    ctx.nontrivial()


# ------------------------------------------------------------------ cancellation from another thread
def cross_thread() -> Any:
    return st.tuples(
        st.sampled_from(["start", "start_immediate"]),
        st.lists(st.tuples(st.integers(0, 2), st.booleans()), min_size=1, max_size=3),  # (turns before it waits for good, other token)
        st.integers(0, 5),
        plans(2, 8, 40),
        st.booleans(),
    )


@PROPERTY.obligation(cross_thread, quick=500, thorough=8000, shards=4)
def cancelled_from_another_thread(case: Any, ctx: Ctx) -> None:
    fn, comps, pauses, plan, opcodes = case
    src, other = CancellationTokenSource(), CancellationTokenSource()
    logs: list[list[Any]] = [[] for _ in comps]
    started: list[int] = []
    refused: list[int] = []

    async def computation(i: int, turns: int, fut: Any, ended: Any) -> None:
        logs[i].append("begin")
        try:
            await spin(turns)
            await fut
            logs[i].append("went on")
        except asyncio.CancelledError:
            logs[i].append("cancelled")
            raise
        finally:
            if not ended.done():
                ended.set_result(None)

    async def main() -> None:
        loop = asyncio.get_running_loop()
        ends = []
        frees = []
        for i, (turns, use_other) in enumerate(comps):
            fut, ended = loop.create_future(), loop.create_future()
            try:
                getattr(aiotools, fn)(computation(i, turns, fut, ended), (other if use_other else src).token)
            except ObjectDisposedException:
                refused.append(i)
                continue
            started.append(i)
            (frees if use_other else ends).append((i, fut, ended))
        await spin(1)
        for i, _, ended in ends:
            if src.is_cancellation_requested and logs[i] == []:
                continue
            await ended  # ends only because the other thread cancels
        for _, fut, _ in frees:
            fut.set_result(None)
        await spin(4)

    def canceller() -> None:
        for _ in range(pauses):
            pause()
        src.cancel()

    s = Scheduler(plan, opcodes)
    ts = s.run([lambda: run_loop(main), canceller])
    expect(s.stuck is None and not any(t.error.__class__.__name__ == "Stuck" for t in ts), "cancelling from another thread does not end the computation", logs)
    for t in ts:
        if t.error is not None:
            raise t.error
    for i, (_, use_other) in enumerate(comps):
        if i in refused:
            expect(logs[i] == [] and not use_other, "refused computations do not run", logs[i])
        elif use_other:
            expect(logs[i] == ["begin", "went on"], "another token's computations are unaffected", logs[i])
        else:
            expect(logs[i] in ([], ["begin", "cancelled"]), "cancelled", logs[i])
    ctx.nontrivial(any(not o for _, o in comps))


# ------------------------------------------------------------------ run_synchronously and constants
def sync_cases() -> Any:
    return st.tuples(
        st.sampled_from(["coro", "object", "singleton", "from_result", "empty", "continuations"]),
        st.sampled_from(["value", "value", "error"]),
        st.integers(0, 40),
        st.integers(0, 3),
        st.integers(0, 3),
    )


@PROPERTY.obligation(sync_cases, quick=1500, thorough=15000, shards=2)
def synchronously(case: Any, ctx: Ctx) -> None:
    kind, end, arg, turns, depth = case
    value, err = VALUES[arg % len(VALUES)], ERRORS[arg % len(ERRORS)]
    effects: list[str] = []

    async def body(d: int) -> Any:
        if d:
            return await body(d - 1)
        await spin(turns)
        effects.append("ran")
        if end == "error":
            raise err
        return value

    if kind == "singleton":
        co: Any = aiotools.singleton(value)
    elif kind == "from_result":
        co = aiotools.from_result(value)
    elif kind == "empty":
        co = aiotools.empty()
    elif kind == "continuations":

        async def conts() -> Any:
            await spin(turns)
            loop = asyncio.get_running_loop()

            def callback(done: Any, error: Any, cancel: Any) -> None:
                effects.append("ran")
                loop.call_soon(*((error, err) if end == "error" else (done, value)))

            return await aiotools.from_continuations(callback)

        co = conts()
    else:
        co = body(depth)
        if kind == "object":
            co = Awaitable(co)
    try:
        got = ("value", aiotools.run_synchronously(co))
    except Exception as e:  # noqa: BLE001
        got = ("error", e)
    if kind in ("singleton", "from_result"):
        want: Any = ("value", value)
    elif kind == "empty":
        want = ("value", None)
    else:
        want = ("error", err) if end == "error" else ("value", value)
        expect(effects == ["ran"], "runs once", effects)
    expect(got[0] == want[0] and got[1] is want[1], "value returned, exception raised unchanged", got, want)
    ctx.nontrivial(end == "error" or (not isinstance(want[1], Later) and not want[1]) or turns > 0)


# ------------------------------------------------------------------ sleep on a virtual clock
class Clock(selectors.DefaultSelector):  # type: ignore[misc, valid-type]
    now = 0.0

    def select(self, timeout: float | None = None) -> Any:
        if timeout is not None and timeout > 0:
            self.now = max(self.now + timeout, math.nextafter(self.now, math.inf))
        return super().select(0)


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self) -> None:
        self.clock = Clock()
        super().__init__(self.clock)

    def time(self) -> float:
        return self.clock.now


def sleeps() -> Any:
    ms = st.one_of(st.integers(0, 5), st.integers(0, 5000), st.sampled_from([1, 10, 999, 1000, 1001, 60000, 86400000, 86400001, 10**9, 2**31]))
    return st.lists(st.lists(ms, min_size=1, max_size=3), min_size=1, max_size=4)


@PROPERTY.obligation(sleeps, quick=800, thorough=10000)
def sleeping(case: Any, ctx: Ctx) -> None:
    loop = VirtualLoop()
    woke: list[list[float]] = [[] for _ in case]

    async def sleeper(i: int) -> None:
        for ms in case[i]:
            r = await aiotools.sleep(ms)
            expect(r is None, "sleep returns nothing")
            woke[i].append(loop.time())

    async def main() -> None:
        await asyncio.gather(*[sleeper(i) for i in range(len(case))])

    try:
        loop.run_until_complete(main())
    finally:
        loop.close()
    for i, naps in enumerate(case):
        t = 0.0
        for k, ms in enumerate(naps):
            t += ms / 1000
            expect(abs(woke[i][k] - t) < 2e-4, "sleeps the given number of milliseconds, side by side", woke, case)
    ctx.nontrivial(len(case) > 1)
