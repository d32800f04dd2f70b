"""C03: disposables run their action exactly once."""

from __future__ import annotations

import asyncio
from typing import Any

from hypothesis import strategies as st

from expression.system import AnonymousDisposable, AsyncAnonymousDisposable, AsyncDisposable, Disposable, ObjectDisposedException

from ..core import Ctx, Property
from ..sched import Scheduler, pause, plans
from ..util import Boom, Boom2, expect

PROPERTY = Property(
    "C03",
    rule="generated histories of dispose / with (leaving normally or by an exception) / enter over disposables whose actions return, raise or "
    "dispose again, run on one thread, on several threads under generated schedules (switches at lines and bytecodes of the library), "
    "and on several tasks with suspending and cancelled actions; non-trivial when the disposable is disposed at least twice or from two places",
    assumptions=[
        "thread switches are explored at the library's lines, bytecodes and lock operations, one thread at a time",
        "composites are judged with members whose disposal does not raise",
    ],
)


class Fatal(BaseException):
    pass


def raising(kind: str) -> BaseException | None:
    return {"": None, "boom": Boom("body"), "fatal": Fatal(), "disposed": ObjectDisposedException(), "cancelled": asyncio.CancelledError()}[kind]


# ------------------------------------------------------------------ one thread
def ops(depth: int = 2) -> Any:
    leaf = st.just(("dispose",))
    if depth == 0:
        return st.lists(leaf, max_size=3)
    w = st.tuples(st.just("with"), st.deferred(lambda: ops(depth - 1)), st.sampled_from(["", "", "boom", "fatal", "disposed"]))
    return st.lists(leaf | w, max_size=5)


def histories() -> Any:
    return st.tuples(st.sampled_from(["create", "ctor"]), st.sampled_from(["plain", "true", "raise", "again", "again2", "reenter"]), ops())


@PROPERTY.obligation(histories, quick=5000, thorough=60000, shards=2)
def sequential(case: Any, ctx: Ctx) -> None:
    how, action, script = case
    ran: list[str] = []

    def act() -> Any:
        ran.append("action")
        if action == "true":  # what an action returns means nothing
            return True
        if action == "raise":
            raise Boom2("action")
        if action in ("again", "again2"):
            for _ in range(1 if action == "again" else 3):
                d.dispose()
        if action == "reenter":
            try:
                with d:
                    ran.append("entered while disposed")
            except ObjectDisposedException:
                pass

    d: Any = Disposable.create(act) if how == "create" else AnonymousDisposable(act)
    expect(isinstance(d, Disposable), "is a Disposable")
    state = {"disposed": False, "n": 0}
    bodies: list[Any] = []

    def model_dispose() -> BaseException | None:
        state["n"] += 1
        if state["disposed"]:
            return None
        state["disposed"] = True
        return Boom2("action") if action == "raise" else None

    def check(e: BaseException | None, want: BaseException | None, what: str) -> None:
        expect(type(e) is type(want) and (not isinstance(want, Boom) or e == want), what, e, want)
        expect(ran == (["action"] if state["disposed"] else []), "the action ran exactly once on the first disposal, and never before", ran, state)

    def run(script: Any) -> None:
        for op in script:
            if op[0] == "dispose":
                want = model_dispose()
                try:
                    d.dispose()
                    got: BaseException | None = None
                except BaseException as e:  # noqa: BLE001
                    got = e
                check(got, want, "dispose")
                continue
            _, inner, kind = op
            exc = raising(kind)
            entered = False
            was = state["disposed"]
            try:
                with d as x:
                    entered = True
                    expect(x is d, "entering gives the disposable")
                    run(inner)
                    if exc is not None:
                        raise exc
                got = None
            except BaseException as e:  # noqa: BLE001
                got = e
            if was:
                expect(not entered and type(got) is ObjectDisposedException, "entering a disposed one raises", got)
                continue
            expect(entered, "entering a live one succeeds", got)
            w = model_dispose()
            want = w if w is not None else exc
            check(got, want, "leaving a with-block")
            expect(want is not exc or got is exc, "the very exception of the body", got)
            bodies.append(kind)

    run(script)
    ctx.nontrivial(state["n"] >= 2)


def subclass_cases() -> Any:
    return st.lists(st.sampled_from(["", "boom", "fatal", "disposed"]), min_size=1, max_size=5)


@PROPERTY.obligation(subclass_cases, quick=600, thorough=5000)
def own_subclass(case: Any, ctx: Ctx) -> None:
    """A user's own disposable: each with-block disposes it once on leaving and never swallows."""

    class Mine(Disposable):
        def __init__(self) -> None:
            self.n = 0

        def dispose(self) -> Any:
            self.n += 1
            return self.n

    class AMine(AsyncDisposable):
        def __init__(self) -> None:
            self.n = 0

        async def dispose_async(self) -> Any:
            await asyncio.sleep(0)
            self.n += 1
            return self.n

    d, a = Mine(), AMine()

    async def main() -> None:
        for i, kind in enumerate(case):
            exc = raising(kind)
            got: Any = None
            try:
                with d as x:
                    expect(x is d and d.n == i, "nothing disposed inside the block")
                    if exc is not None:
                        raise exc
            except BaseException as e:  # noqa: BLE001
                got = e
            expect(got is exc, "never swallowed", got, exc)
            expect(d.n == i + 1, "disposed on leaving", d.n)
            got = None
            try:
                async with a as y:
                    expect(y is a and a.n == i, "nothing disposed inside the async block")
                    if exc is not None:
                        raise exc
            except BaseException as e:  # noqa: BLE001
                got = e
            expect(got is exc, "never swallowed (async)", got, exc)
            expect(a.n == i + 1, "disposed on leaving (async)", a.n)

    drive(main())
    ctx.nontrivial(any(case))


def drive(coro: Any) -> Any:
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(coro)
    finally:
        loop.close()


# ------------------------------------------------------------------ threads
def threaded() -> Any:
    op = st.sampled_from([("dispose",), ("with", ""), ("with", "boom")])
    return st.integers(2, 4).flatmap(
        lambda n: st.tuples(
            st.lists(st.lists(op, min_size=1, max_size=3), min_size=n, max_size=n),
            st.sampled_from(["plain", "raise", "again"]),
            plans(n, 10, 30),
            st.booleans(),
        )
    )


@PROPERTY.obligation(threaded, quick=2000, thorough=40000, shards=4)
def threads(case: Any, ctx: Ctx) -> None:
    scripts, action, plan, opcodes = case
    ran: list[str] = []
    events: list[Any] = []  # appended by the one running thread

    def act() -> None:
        ran.append("action")
        pause()
        if action == "again":
            d.dispose()
        if action == "raise":
            raise Boom2("action")

    d = Disposable.create(act)

    def thread(n: int, script: Any) -> Any:
        def go() -> None:
            for op in script:
                if op[0] == "dispose":
                    events.append(("dispose-begin", n))
                    try:
                        d.dispose()
                    except Boom2:
                        events.append(("raised", n))
                    events.append(("dispose-end", n))
                else:
                    exc = raising(op[1])
                    after = any(e[0] == "dispose-end" for e in events)
                    begun = lambda: any(e[0] == "dispose-begin" for e in events)  # noqa: E731
                    entered = False
                    got: Any = None
                    try:
                        with d:
                            entered = True
                            expect(not after, "entered although it had been disposed")
                            events.append(("dispose-begin", n))
                            if exc is not None:
                                raise exc
                    except (Boom, ObjectDisposedException) as e:
                        got = e
                    if entered:
                        if isinstance(got, Boom2):
                            events.append(("raised", n))
                        else:
                            expect(got is exc, "leaving", got)
                        events.append(("dispose-end", n))
                    else:
                        expect(begun() and isinstance(got, ObjectDisposedException), "entering fails only for a disposed one", got)

        return go

    s = Scheduler(plan, opcodes)
    for t in s.run([thread(i, sc) for i, sc in enumerate(scripts)]):
        if t.error is not None:
            raise t.error
    expect(s.stuck is None, "deadlock", s.stuck)
    expect(ran == ["action"], "the action runs exactly once", ran, events)
    expect(sum(e[0] == "raised" for e in events) == (1 if action == "raise" else 0), "the action's exception reaches exactly its disposer", events)
    ctx.nontrivial(s.switches > 0)
    if s.switches:
        ctx.label("switched")


# ------------------------------------------------------------------ async
async def spin(n: int) -> None:
    for _ in range(n):
        await asyncio.sleep(0)


def async_histories() -> Any:
    op = st.one_of(
        st.just(("dispose",)),
        st.tuples(st.just("with"), st.integers(0, 2), st.sampled_from(["", "", "boom", "fatal", "disposed", "cancelled"])),
        st.tuples(st.just("yield"), st.integers(1, 3)),
    )
    return st.tuples(
        st.sampled_from(["create", "ctor", "empty"]),
        st.sampled_from(["plain", "raise", "again"]),
        st.integers(0, 3),
        st.lists(st.lists(op, max_size=4), min_size=1, max_size=4),
        st.none() | st.tuples(st.integers(0, 3), st.integers(0, 4)),
    )


@PROPERTY.obligation(async_histories, quick=3000, thorough=40000, shards=2)
def asynchronous(case: Any, ctx: Ctx) -> None:
    how, action, suspends, scripts, cancel = case
    ran: list[str] = []

    async def act() -> None:
        ran.append("begin")
        await spin(suspends)
        if action == "again":
            await d.dispose_async()
        if action == "raise":
            raise Boom2("action")
        return True

    made = {"create": AsyncDisposable.create, "ctor": AsyncAnonymousDisposable}
    d: Any = AsyncDisposable.empty() if how == "empty" else made[how](act)
    state = {"begun": False, "n": 0, "raised": 0, "cancelled": 0}

    def disposing() -> bool:
        state["n"] += 1
        first, state["begun"] = not state["begun"], True
        return first

    async def task(script: Any) -> None:
        for op in script:
            if op[0] == "yield":
                await spin(op[1])
                continue
            if op[0] == "dispose":
                first = disposing()
                try:
                    await d.dispose_async()
                    got: Any = None
                except Boom2 as e:
                    got = e
                    state["raised"] += 1
                if how != "empty" and action == "raise":
                    expect((got is not None) == first, "the action's exception reaches its disposer", first, got)
                else:
                    expect(got is None, "dispose_async", got)
                continue
            _, n, kind = op
            exc = raising(kind)
            was = state["begun"]
            entered = False
            first = False
            try:
                async with d as x:
                    entered = True
                    expect(x is d, "entering gives the disposable")
                    try:
                        await spin(n)
                    finally:
                        first = disposing()
                    if exc is not None:
                        raise exc
                got = None
            except asyncio.CancelledError as e:
                if kind != "cancelled" or e is not exc:  # this task was cancelled by the script
                    raise
                got = e
            except (Boom, Fatal, ObjectDisposedException) as e:
                got = e
            if was:
                expect(not entered and isinstance(got, ObjectDisposedException), "entering a disposed one raises", got)
            elif how != "empty" and action == "raise" and first:
                expect(type(got) is Boom2, "the action's exception", got)
                state["raised"] += 1
            else:
                expect(entered and got is exc, "never swallowed", got, exc)

    async def main() -> None:
        tasks = [asyncio.ensure_future(task(s)) for s in scripts]
        if cancel is not None:
            await spin(cancel[1])
            tasks[cancel[0] % len(tasks)].cancel()
        for r in await asyncio.gather(*tasks, return_exceptions=True):
            if isinstance(r, asyncio.CancelledError) and cancel is not None:
                state["cancelled"] += 1
            elif isinstance(r, BaseException):
                raise r

    drive(main())
    if how != "empty":
        expect(len(ran) == (1 if state["begun"] else 0), "the action runs exactly once", ran, state)
    ctx.nontrivial(state["n"] >= 2)


# ------------------------------------------------------------------ composite
def composites() -> Any:
    member = st.one_of(
        st.tuples(st.just("leaf"), st.integers(0, 2)),
        st.tuples(st.just("done"), st.integers(0, 2)),  # disposed before
    )
    tree = st.recursive(member, lambda t: st.tuples(st.just("comp"), st.lists(t, max_size=4)), max_leaves=8)
    return st.tuples(st.lists(tree, max_size=5), st.lists(st.sampled_from(["dispose", "with", "with-boom", "with-fatal"]), min_size=1, max_size=3), st.booleans(), st.booleans(), st.sampled_from([1] * 9 + [40]))


@PROPERTY.obligation(composites, quick=2500, thorough=40000, shards=2)
def composite(case: Any, ctx: Ctx) -> None:
    trees, uses, concurrent, own, times = case
    trees = list(trees) * times
    log: list[Any] = []
    order: list[int] = []
    done: list[Any] = []

    class Own(AsyncDisposable):
        def __init__(self, n: int, k: int) -> None:
            self.n, self.k = n, k

        async def dispose_async(self) -> None:
            log.append(("begin", self.n))
            await spin(self.k)
            log.append(("end", self.n))
            return self.n

    counter = [0]

    def leaf(k: int, use_own: bool) -> Any:
        n = counter[0]
        counter[0] += 1
        if use_own:
            return n, Own(n, k)

        async def act() -> Any:
            log.append(("begin", n))
            await spin(k)
            log.append(("end", n))
            return n

        return n, AsyncDisposable.create(act)

    def build(t: Any) -> Any:
        if t[0] == "comp":
            return AsyncDisposable.composite(*[build(x) for x in t[1]])
        n, d = leaf(t[1], own and len(uses) == 1 and t[0] == "leaf")
        if t[0] == "done":
            done.append(d)
        else:
            order.append(n)
        return d

    comp = AsyncDisposable.composite(*[build(t) for t in trees])

    async def use(kind: str) -> None:
        if kind == "dispose":
            await comp.dispose_async()
            return
        exc = raising(kind[5:])
        got: Any = None
        try:
            async with comp as x:
                expect(x is comp, "entering gives the composite")
                if exc is not None:
                    raise exc
        except (Boom, Fatal) as e:
            got = e
        expect(got is exc, "never swallowed", got)

    async def main() -> None:
        for d in done:
            await d.dispose_async()
        log.clear()
        if concurrent:
            for r in await asyncio.gather(*[use(k) for k in uses], return_exceptions=True):
                if isinstance(r, BaseException):
                    raise r
        else:
            for i, k in enumerate(uses):
                await use(k)
                if i == 0:
                    expect(log == [(w, n) for n in order for w in ("begin", "end")], "members disposed one after the other, in order, when dispose returns", log, order)

    drive(main())
    if concurrent and len(uses) > 1:
        expect(sorted(n for w, n in log if w == "begin") == order, "each member disposed exactly once", log, order)
        expect([n for w, n in log if w == "begin"] == order, "in order", log, order)
    else:
        expect(log == [(w, n) for n in order for w in ("begin", "end")], "each member disposed exactly once, in order", log, order)
    ctx.nontrivial(len(order) >= 2)
