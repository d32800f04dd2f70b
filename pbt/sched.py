"""Deterministic thread schedules.

Threads run one at a time; at every traced line (or opcode) of the code under test, at every lock operation and
whenever the event loop would sleep, the running thread may be replaced according to a generated plan.  Any schedule
produced this way is one the operating system could have produced, so an invariant that fails under it fails in
reality; a thread that blocks in a primitive the scheduler does not know about is detached after a while and merely
runs freely.
"""

from __future__ import annotations

import _thread
import asyncio
import os
import selectors
import sys
import threading
import time
from typing import Any, Callable

_real_lock = _thread.allocate_lock
_real_rlock = _thread.RLock
_managed: dict[int, "Managed"] = {}

QUIET_FILES = {"tagged_union.py", "option.py", "result.py", "curry.py", "pipe.py", "compose.py", "typing.py", "misc.py"}


class Stuck(BaseException):
    """No thread can make progress: a lost wake-up or a deadlock."""


class Abort(BaseException):
    """Unwinds the remaining threads once the run is decided."""


class Managed:
    def __init__(self, sched: "Scheduler", n: int, fn: Callable[[], Any]) -> None:
        self.sched, self.n, self.fn = sched, n, fn
        self.baton = _real_lock()
        self.baton.acquire()
        self.ready: Callable[[], bool] | None = None  # None: runnable
        self.finished = False
        self.error: BaseException | None = None
        self.result: Any = None
        self.ident = 0


class Scheduler:
    """plan: [(steps, pick)...]: run the current thread for `steps` yield points, then switch to runnable number `pick`."""

    def __init__(self, plan: Any, opcodes: bool = False, quiet: Any = None) -> None:
        self.plan = list(plan)
        self.at = 0
        self.left = self.plan[0][0] if self.plan else -1
        self.opcodes = opcodes
        self.quiet = QUIET_FILES if quiet is None else quiet
        self.threads: list[Managed] = []
        self.current: Managed | None = None
        self.done = _real_lock()
        self.done.acquire()
        self.steps = 0
        self.switches = 0
        self.stuck: str | None = None
        self.aborting = False
        root = os.environ.get("VERIF_REPO", "/repo")
        self.root = os.path.join(os.path.realpath(root), "expression") + os.sep

    # ------------------------------------------------------------ choosing
    def runnable(self, but: Managed | None = None) -> list[Managed]:
        return [t for t in self.threads if not t.finished and t is not but and (t.ready is None or t.ready())]

    def give(self, t: Managed) -> None:
        t.ready = None
        self.current = t
        try:
            t.baton.release()
        except RuntimeError:  # it is running freely already
            pass

    def wait(self, t: Managed) -> None:
        t.baton.acquire()
        if self.aborting:
            raise Abort

    def yield_point(self, t: Managed) -> None:
        if self.current is not t:  # detached while it was blocked outside the scheduler's knowledge
            self.wait(t)
            return
        self.steps += 1
        if self.left < 0:
            return
        if self.left > 0:
            self.left -= 1
            return
        pick = self.plan[self.at][1]
        self.at += 1
        self.left = self.plan[self.at][0] if self.at < len(self.plan) else -1
        others = self.runnable(t)
        if not others:
            return
        self.switches += 1
        self.give(others[pick % len(others)])
        self.wait(t)

    def block(self, t: Managed, ready: Callable[[], bool], may_idle: bool = False) -> bool:
        """Wait until `ready`; with may_idle returns False when no other thread can run."""
        while True:
            if self.current is not t:
                self.wait(t)
            if ready():
                return True
            others = self.runnable(t)
            if not others:
                if ready():
                    return True
                if may_idle:
                    return False
                self.stuck = "every thread waits"
                raise Stuck(self.stuck)
            t.ready = ready
            self.steps += 1
            self.give(others[0])
            self.wait(t)

    # ------------------------------------------------------------ running
    def trace(self, t: Managed) -> Any:
        def local(frame: Any, event: str, arg: Any) -> Any:
            if event == ("opcode" if self.opcodes else "line"):
                self.yield_point(t)
            return local

        def glob(frame: Any, event: str, arg: Any) -> Any:
            name = frame.f_code.co_filename
            if not name.startswith(self.root) or os.path.basename(name) in self.quiet:
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local

        return glob

    def body(self, t: Managed) -> None:
        t.ident = _thread.get_ident()
        _managed[t.ident] = t
        try:
            self.wait(t)
            sys.settrace(self.trace(t))
            try:
                t.result = t.fn()
            finally:
                sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:  # noqa: BLE001
            t.error = e
        finally:
            _managed.pop(t.ident, None)
            t.finished = True
            if not self.aborting and self.current is t:
                others = self.runnable()
                if others:
                    self.give(others[0])
                elif any(not o.finished for o in self.threads):
                    if self.stuck is None:
                        self.stuck = "a thread waits for something nobody will do"
                    self.abort()
            if all(o.finished for o in self.threads):
                try:
                    self.done.release()
                except RuntimeError:  # another thread that finished at the same time said so already
                    pass

    def abort(self) -> None:
        self.aborting = True
        for o in self.threads:
            if not o.finished:
                try:
                    o.baton.release()
                except RuntimeError:
                    pass

    def run(self, fns: list[Callable[[], Any]]) -> list[Managed]:
        self.threads = [Managed(self, i, f) for i, f in enumerate(fns)]
        for t in self.threads:
            _thread.start_new_thread(self.body, (t,))
        self.give(self.threads[0])
        seen, since = -1, time.monotonic()
        while not self.done.acquire(True, 0.1):
            now = time.monotonic()
            if self.steps != seen:
                seen, since = self.steps, now
            elif now - since > 1.0:  # blocked in something unknown: let the others go on
                cur = self.current
                others = self.runnable(cur)
                if others:
                    self.give(others[0])
                since = now
        return self.threads


def pause() -> None:
    """A yield point in the harness's own code (inside a generated callback, say)."""
    t = current()
    if t is not None and not t.sched.aborting:
        t.sched.yield_point(t)


def block_until(ready: Callable[[], bool]) -> None:
    t = current()
    assert t is not None
    t.sched.block(t, ready)


def current() -> Managed | None:
    return _managed.get(_thread.get_ident())


class CoopLock:
    """threading.Lock / RLock that hands over to another managed thread instead of blocking."""

    _make: Any = staticmethod(_real_lock)
    _reentrant = False

    def __init__(self) -> None:
        self._real = self._make()
        self._count = 0

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        t = current()
        if t is None or not blocking or timeout >= 0:
            got = self._real.acquire(blocking, timeout)
        else:
            t.sched.yield_point(t)
            while not self._real.acquire(False):
                t.sched.block(t, lambda: self._count == 0)
            got = True
        if got:
            self._count += 1
        return got

    def release(self) -> None:
        self._count -= 1
        try:
            self._real.release()
        except BaseException:
            self._count += 1
            raise
        t = current()
        if t is not None and not t.sched.aborting and sys.exc_info()[0] is None:
            t.sched.yield_point(t)

    def __enter__(self) -> bool:
        return self.acquire()

    def __exit__(self, *a: Any) -> None:
        self.release()

    def locked(self) -> bool:
        return self._count > 0

    def __getattr__(self, name: str) -> Any:
        if name == "_real":
            raise AttributeError(name)
        return getattr(self._real, name)


class CoopRLock(CoopLock):
    _make = staticmethod(_real_rlock)
    _reentrant = True


def install() -> None:
    """Locks created from now on take part in schedules (and are ordinary locks for every other thread)."""
    threading.Lock = CoopLock  # type: ignore[assignment, misc]
    threading.RLock = CoopRLock  # type: ignore[assignment, misc]


class CoopSelector(selectors.DefaultSelector):  # type: ignore[misc, valid-type]
    """Instead of sleeping, lets another thread run; notices when nobody will ever wake the loop up."""

    def select(self, timeout: float | None = None) -> Any:
        t = current()
        if t is None or (timeout is not None and timeout <= 0):
            if t is not None:
                t.sched.yield_point(t)
            return super().select(timeout)
        peek = super().select
        if t.sched.block(t, lambda: bool(peek(0)), may_idle=timeout is not None):
            return peek(0)
        return peek(timeout)


def run_loop(main: Callable[[], Any]) -> Any:
    """asyncio.run on a loop whose idling takes part in the schedule."""
    loop = asyncio.SelectorEventLoop(CoopSelector())
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(main())
    finally:
        asyncio.set_event_loop(None)
        loop.close()


def plans(threads: int, switches: int = 8, stretch: int = 40) -> Any:
    from hypothesis import strategies as st

    return st.lists(st.tuples(st.integers(0, 6) | st.integers(0, stretch), st.integers(0, max(0, threads - 1))), max_size=switches)


class Interrupter:
    """While entered, the entering thread is interrupted at the given steps (lines or bytecodes of the library), and at each of them
    another thread performs `action` from start to end (or until it waits for something the interrupted thread holds)."""

    def __init__(self, action: Callable[[], Any], at: Any, opcodes: bool = False, quiet: Any = None, patience: float = 0.3) -> None:
        self.action, self.at, self.opcodes = action, frozenset(at), opcodes
        self.quiet = QUIET_FILES if quiet is None else quiet
        self.patience = patience
        self.steps = 0
        self.threads: list[threading.Thread] = []
        self.errors: list[BaseException] = []
        self.root = os.path.join(os.path.realpath(os.environ.get("VERIF_REPO", "/repo")), "expression") + os.sep

    def _act(self) -> None:
        try:
            self.action()
        except BaseException as e:  # noqa: BLE001
            self.errors.append(e)

    def _local(self, frame: Any, event: str, arg: Any) -> Any:
        if event == ("opcode" if self.opcodes else "line"):
            self.steps += 1
            if self.steps in self.at:
                t = threading.Thread(target=self._act, daemon=True)
                self.threads.append(t)
                t.start()
                t.join(self.patience)
        return self._local

    def _global(self, frame: Any, event: str, arg: Any) -> Any:
        name = frame.f_code.co_filename
        if not name.startswith(self.root) or os.path.basename(name) in self.quiet:
            return None
        frame.f_trace_opcodes = self.opcodes
        return self._local

    def __enter__(self) -> "Interrupter":
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a: Any) -> None:
        sys.settrace(self._old)

    def join(self) -> bool:
        for t in self.threads:
            t.join(5)
        return not any(t.is_alive() for t in self.threads)


def positions(total: int, offset: int, count: int) -> list[int]:
    """`count` steps spread over 1..total, starting at offset/1000."""
    if total <= count:
        return list(range(1, total + 1))
    return [1 + (offset * total // 1000 + j * total // count) % total for j in range(count)]
