"""C02: cancellation notifies every live registration exactly once."""

from __future__ import annotations

import random
from typing import Any

from hypothesis import strategies as st

from expression.system import CancellationToken, CancellationTokenSource, Disposable, ObjectDisposedException

from ..core import Ctx, Property
from ..sched import Scheduler, pause, plans
from ..util import Boom, expect

PROPERTY = Property(
    "C02",
    rule="generated histories of register / unregister / cancel / dispose / with-block / query over several tokens, with callbacks that return, raise, "
    "cancel again, unregister or register, on one thread and on several threads under generated schedules; non-trivial when a cancellation "
    "happens with at least one live registration (sequential) or when the schedule switched threads (threaded)",
    assumptions=[
        "a callback unregistered while the cancellation that would call it is already under way may be called or not",
        "thread switches are explored at the library's lines, bytecodes and lock operations, one thread at a time",
        "callbacks raise subclasses of Exception",
    ],
)

KINDS = ["plain", "plain", "raise", "stop", "disposed", "cancel", "dispose", "unself", "unother", "register", "query", "shared"]


RETURNED = [None, None, True, False, 7, "x", StopIteration()]


class Fatal(BaseException):
    pass


def histories() -> Any:
    i = st.integers(0, 6)
    reg = st.tuples(st.just("reg"), st.integers(0, 2), st.sampled_from(KINDS), i)
    leaf = st.one_of(
        reg,
        reg,
        reg,
        st.tuples(st.just("unreg"), i),
        st.tuples(st.just("withreg"), st.sampled_from(["", "boom"]), st.sampled_from(["plain", "raise"])),
        st.tuples(st.just("none"), st.booleans()),
        st.just(("query",)),
        st.sampled_from([("cancel",), ("dispose",), ("enter",)]),
    )
    w = st.tuples(st.just("with"), st.lists(leaf, max_size=5), st.sampled_from(["", "boom", "fatal"]))
    quiet = st.one_of(reg, reg, reg, st.tuples(st.just("unreg"), i), st.just(("query",)))
    return st.tuples(
        st.lists(quiet, max_size=10),
        st.lists(st.one_of(leaf, leaf, leaf, w), max_size=8),
        st.booleans(),
    )


@PROPERTY.obligation(histories, quick=8000, thorough=120000, shards=4)
def sequential(case: Any, ctx: Ctx) -> None:
    quiet, script, born_cancelled = case
    src: Any = CancellationTokenSource.cancelled_source() if born_cancelled else CancellationTokenSource()
    tokens = [src.token, src.token, src.token]
    none = CancellationToken.none()
    log: list[int] = []
    regs: list[Any] = []  # [disposable, live, maybe, shared]
    state: dict[str, Any] = {"cancelled": born_cancelled, "expected": []}
    none_log: list[str] = []
    inner: list[int] = []

    def cb(n: int, kind: str, arg: int) -> Any:
        def call() -> Any:
            log.append(n)
            expect(all(t.is_cancellation_requested for t in tokens) and src.is_cancellation_requested, "cancelled inside the callbacks")
            if kind == "raise":
                raise Boom(n)
            if kind == "stop":
                raise StopIteration
            if kind == "disposed":
                raise ObjectDisposedException
            if kind == "cancel":
                src.cancel()
            if kind == "dispose":
                src.dispose()
            if kind == "unself":
                regs[n][0].dispose()
                regs[n][1] = False
            if kind == "unother" and regs:
                o = arg % len(regs)
                regs[o][0].dispose()
                if regs[o][1] and o not in log:
                    regs[o][2] = True  # may be called or not from now on
                regs[o][1] = False
            if kind == "register":
                try:
                    tokens[0].register(lambda: inner.append(n))
                    state["inner"] = state.get("inner", 0) + 1
                except ObjectDisposedException:
                    pass
            if kind == "query":
                expect(tokens[0].can_be_canceled is True, "can be cancelled")
            return RETURNED[arg]  # what a callback returns means nothing

        return call

    def register(t: Any, kind: str, arg: int) -> None:
        n = len(regs)
        regs.append([None, False, False])
        try:
            d = t.register(cb(n, kind, arg))
        except ObjectDisposedException:
            expect(state["cancelled"], "register raises only after cancellation")
            regs[n][0] = Disposable.create(lambda: None)
            return
        expect(not state["cancelled"], "registering after cancellation raises")
        expect(isinstance(d, Disposable), "a registration is a disposable")
        regs[n][0], regs[n][1] = d, True

    def cancelling(act: Any) -> Any:
        """Runs act, which cancels; checks the calls it makes."""
        del log[:]
        was = state["cancelled"]
        live = [n for n, r in enumerate(regs) if r[1]] if not was else []
        state["cancelled"] = True
        got: Any = None
        try:
            act()
        except (Boom, Fatal) as e:
            got = e
        want = [n for n in live if not regs[n][2]]
        expect([n for n in log if not regs[n][2]] == want, "every live callback called exactly once, in registration order", log, live)
        maybe = [n for n in log if regs[n][2]]
        expect(log == sorted(log) and len(set(maybe)) == len(maybe), "called at most once, in order", log)
        if live:
            ctx.nontrivial()
        return got

    def queries() -> None:
        c = state["cancelled"]
        expect(src.is_cancellation_requested is c, "source reports cancellation", c)
        for t in tokens + [src.token]:
            expect(t.is_cancellation_requested is c and t.can_be_canceled is True, "token reports cancellation", c)
            try:
                t.throw_if_cancellation_requested()
                expect(not c, "raises on request")
            except ObjectDisposedException:
                expect(c, "raises only when cancelled")
        expect(none.is_cancellation_requested is False and none.can_be_canceled is False, "none is never cancelled")
        none.throw_if_cancellation_requested()

    def run(ops: Any) -> None:
        for op in ops:
            if op[0] == "reg":
                register(tokens[op[1]], op[2], op[3])
            elif op[0] == "unreg" and regs:
                r = regs[op[1] % len(regs)]
                r[0].dispose()
                r[1] = False
            elif op[0] == "withreg":
                n = len(regs)
                try:
                    register(tokens[0], op[2], 0)
                    if regs[n][1]:
                        with regs[n][0]:
                            if op[1]:
                                raise Boom("with")
                        expect(not op[1], "never swallowed")
                except Boom as e:
                    expect(e.tag == "with", "never swallowed", e)
                regs[n][1] = False
            elif op[0] == "none":
                d = none.register(lambda: none_log.append("called"))
                expect(isinstance(d, Disposable), "a registration with none is a disposable")
                if op[1]:
                    d.dispose()
            elif op[0] == "cancel":
                cancelling(src.cancel)
            elif op[0] == "dispose":
                cancelling(src.dispose)
            elif op[0] == "enter":
                if state["cancelled"]:
                    try:
                        src.__enter__()
                        expect(False, "entering a cancelled source raises")
                    except ObjectDisposedException:
                        pass
                else:
                    expect(src.__enter__() is src, "entering gives the source")
            elif op[0] == "with":
                if state["cancelled"]:
                    try:
                        with src:
                            expect(False, "entering a cancelled source raises")
                    except ObjectDisposedException:
                        pass
                    continue
                exc = {"": None, "boom": Boom("body"), "fatal": Fatal()}[op[2]]
                src.__enter__()
                run(op[1])
                got = cancelling(lambda: leave(exc))
                expect(got is exc, "leaving never swallows", got, exc)
            queries()
            expect(none_log == [], "callbacks of a token that can never be cancelled are never called")

    def leave(exc: Any) -> None:
        # what a with-statement does on leaving
        if src.__exit__(type(exc) if exc else None, exc, None):
            return
        if exc is not None:
            raise exc

    run(quiet)
    run(script)
    cancelling(src.cancel)
    cancelling(src.cancel)
    queries()
    expect(len(inner) == state.get("inner", 0), "a registration either raises or is called", inner)


@PROPERTY.obligation(
    lambda: st.tuples(st.integers(10, 300) | st.integers(10, 1500), st.integers(0, 10**6), st.sampled_from([0, 3, 10]), st.sampled_from([0, 2, 7]), st.sampled_from(["cancel", "dispose", "with"])),
    quick=150,
    thorough=3000,
)
def many_registrations(case: Any, ctx: Ctx) -> None:
    """Hundreds of registrations, some removed again, some whose callbacks raise or register and remove others."""
    n, seed, drop, fail, how = case
    rng = random.Random(seed)
    src = CancellationTokenSource()
    tokens = [src.token, src.token]
    log: list[int] = []
    live: dict[int, Any] = {}

    def cb(i: int) -> Any:
        def call() -> Any:
            log.append(i)
            if fail and i % fail == 1:
                raise Boom(i)
            return i % 5

        return call

    for i in range(n):
        live[i] = tokens[i % 2].register(cb(i))
        if drop and i % drop == 0:
            k = rng.choice(list(live)[-20:])
            live.pop(k).dispose()
    for _ in range(2):
        try:
            if how == "with":
                with src:
                    pass
            elif how == "cancel":
                src.cancel()
            else:
                src.dispose()
        except (Boom, ObjectDisposedException):
            pass
    expect(log == list(live), "every live registration once, in registration order", len(log), len(live), [k for k in live if k not in set(log)][:5])
    expect(all(t.is_cancellation_requested for t in tokens), "all tokens report it")
    ctx.nontrivial(len(live) >= 10)


def same_callback() -> Any:
    return st.tuples(st.integers(1, 12), st.lists(st.integers(0, 11), max_size=8), st.integers(1, 3))


@PROPERTY.obligation(same_callback, quick=1500, thorough=20000, fixed=((400, (), 2),))
def same_callback_many_times(case: Any, ctx: Ctx) -> None:
    """Registrations are individual, however often the same callable is registered and removed."""
    n, drop, cancels = case
    src = CancellationTokenSource()
    log: list[int] = []
    cb = lambda: log.append(1)  # noqa: E731
    ds = [src.token.register(cb) for _ in range(n)]
    gone = set()
    for i in drop:
        ds[i % n].dispose()
        gone.add(i % n)
        if i % 3 == 0:  # keep numbering honest after removals
            ds.append(src.token.register(cb))
    more = len(ds) - n
    for _ in range(cancels):
        src.cancel()
    expect(len(log) == n + more - len(gone), "one call per live registration", len(log), n, more, gone)
    for d in ds:
        d.dispose()
    expect(len(log) == n + more - len(gone), "unregistering afterwards calls nothing")
    ctx.nontrivial(len(gone) > 0)


# ------------------------------------------------------------------ threads
def threaded() -> Any:
    reg = st.tuples(st.just("reg"), st.sampled_from(["plain", "plain", "raise", "pause", "unother", "cancel"]), st.integers(0, 3))
    op = st.one_of(reg, reg, st.tuples(st.just("unreg"), st.integers(0, 3)), st.just(("cancel",)), st.just(("query",)), st.just(("cancel",)))
    return st.integers(2, 3).flatmap(
        lambda n: st.tuples(
            st.integers(0, 2),
            st.lists(st.lists(op, min_size=1, max_size=4), min_size=n, max_size=n),
            plans(n, 10, 40),
            st.booleans(),
        )
    )


@PROPERTY.obligation(threaded, quick=2600, thorough=60000, shards=6)
def threads(case: Any, ctx: Ctx) -> None:
    pre, scripts, plan, opcodes = case
    src = CancellationTokenSource()
    clock = [0]

    def tick() -> int:
        clock[0] += 1
        return clock[0]

    regs: list[dict[str, Any]] = []
    cancels: list[list[Any]] = []  # [begin, end]
    queries: list[Any] = []
    calls: list[int] = []

    def register(kind: str, arg: int) -> None:
        r: dict[str, Any] = {"calls": 0, "begin": tick(), "end": None, "raised": None, "unreg": [], "d": None}
        n = len(regs)
        regs.append(r)

        def cb() -> None:
            r["calls"] += 1
            calls.append(n)
            if kind == "pause":
                pause()
            if kind == "raise":
                raise Boom(n)
            if kind == "cancel":
                cancel()
            if kind == "unother":
                unregister(arg)

        try:
            r["d"] = src.token.register(cb)
            r["end"] = tick()
        except ObjectDisposedException:
            r["raised"] = tick()

    def unregister(i: int) -> None:
        have = [r for r in regs if r["d"] is not None]
        if have:
            r = have[i % len(have)]
            u = [tick(), 10**9]
            r["unreg"].append(u)
            r["d"].dispose()
            u[1] = tick()

    def cancel() -> None:
        c = [tick(), None]
        cancels.append(c)
        src.cancel()
        c[1] = tick()

    for i in range(pre):
        register("pause" if i else "plain", i)

    def thread(script: Any) -> Any:
        def go() -> None:
            for op in script:
                if op[0] == "reg":
                    register(op[1], op[2])
                elif op[0] == "unreg":
                    unregister(op[1])
                elif op[0] == "cancel":
                    cancel()
                else:
                    a = tick()
                    v = src.token.is_cancellation_requested
                    queries.append((a, v, tick()))

        return go

    s = Scheduler(plan, opcodes)
    for t in s.run([thread(sc) for sc in scripts]):
        if t.error is not None:
            raise t.error
    expect(s.stuck is None, "deadlock", s.stuck)

    cancel()  # whatever is still registered is called now, exactly once
    first = min([c[0] for c in cancels], default=10**9)
    done = min([c[1] for c in cancels], default=10**9)
    for n, r in enumerate(regs):
        if r["raised"] is not None:
            expect(first < r["raised"], "register raises only once a cancellation has begun", r)
            expect(r["calls"] == 0, "a refused callback is never called", r)
            continue
        expect(not (r["begin"] > done), "registering after a completed cancellation raises", r)
        if not r["unreg"]:
            expect(r["calls"] == 1, "a registration that stands is called exactly once", n, r["calls"])
        elif any(u[1] < first for u in r["unreg"]) and all(u[1] < first or u[0] > first for u in r["unreg"]):
            # (while one thread is still unregistering, another thread's attempt may return at once)
            expect(r["calls"] == 0, "a callback unregistered before is never called", n)
        else:
            expect(r["calls"] <= 1, "called at most once", n)
    # registration order: a registration that returned before another began comes first
    at = {n: i for i, n in enumerate(calls)}
    for n, r in enumerate(regs):
        for m, q in enumerate(regs):
            if n in at and m in at and r["end"] is not None and r["end"] < q["begin"]:
                expect(at[n] < at[m], "in registration order", calls, n, m)
    for a, v, b in queries:
        expect(v or a < done, "cancelled once a cancellation has returned")
        expect(not v or first < b, "not cancelled before")
    ctx.nontrivial(s.switches > 0 and len(cancels) > 1)
    if s.switches:
        ctx.label("switched")


class Alike:
    """A callback equal to every other one (and with the same hash)."""

    def __init__(self, fn: Any) -> None:
        self.fn = fn

    def __call__(self) -> None:
        self.fn()

    def __eq__(self, o: Any) -> bool:
        return isinstance(o, Alike)

    def __hash__(self) -> int:
        return 7


class Unhashable(Alike):
    __hash__ = None  # type: ignore[assignment]

    def __bool__(self) -> bool:
        return False


class Owner:
    def __init__(self, log: list[int], n: int) -> None:
        self.log, self.n = log, n

    def method(self) -> None:
        self.log.append(self.n)


def repeated_cases() -> Any:
    reg = st.tuples(st.just("reg"), st.integers(0, 4), st.integers(0, 2))
    un = st.tuples(st.just("unreg"), st.integers(0, 11), st.just(0))
    return st.lists(st.one_of(reg, reg, reg, un), min_size=1, max_size=14)


@PROPERTY.obligation(repeated_cases, quick=4000, thorough=60000, shards=2)
def repeated_callbacks(case: Any, ctx: Ctx) -> None:
    """The same callback, or callbacks that compare equal, registered several times: each registration stands for itself."""
    log: list[int] = []
    owners = [Owner(log, 0), Owner(log, 1)]
    pool: list[Any] = [owners[0], owners[1], Alike(lambda: log.append(2)), Alike(lambda: log.append(3)), Unhashable(lambda: log.append(4))]
    src = CancellationTokenSource()
    tokens = [src.token, src.token, src.token]
    regs: list[Any] = []
    for op, i, t in case:
        if op == "reg":
            fn = pool[i].method if i < 2 else pool[i]  # a bound method is a new, equal object each time
            regs.append([tokens[t].register(fn), i, True])
        elif regs:
            r = regs[i % len(regs)]
            r[0].dispose()
            r[2] = False
    expect(log == [], "nothing is called before the cancellation", log)
    src.cancel()
    src.cancel()
    want = [i for _, i, live in regs if live]
    expect(log == want, "each live registration called once, in registration order", log, want)
    ctx.nontrivial(len(want) > 1 and len(want) < len(regs))
