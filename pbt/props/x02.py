"""X02: catching turns exactly the named exceptions into errors."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from expression import Error, Failure, Nothing, Ok, Some, Success
from expression.collections import Block
from expression.extra.result import catch

from ..core import Ctx, Property
from ..util import Box, expect
from ..values import Later

PROPERTY = Property(
    "X02",
    rule="functions that return any value or raise any class of a generated exception hierarchy, under stacks of up to four catch "
    "wrappers, called with generated arguments; non-trivial when an exception is raised under at least one wrapper",
)


class A(Exception): ...


class AB(A): ...


class ABC(AB): ...


class D(Exception): ...


class AD(A, D): ...


class Base(BaseException): ...


class FalsyExc(A):
    def __bool__(self) -> bool:
        return False

    def __eq__(self, o: Any) -> bool:
        return True

    def __hash__(self) -> int:
        return 0


CLASSES: dict[str, Any] = {
    "A": A, "AB": AB, "ABC": ABC, "D": D, "AD": AD, "Base": Base, "FalsyExc": FalsyExc, "ValueError": ValueError, "KeyError": KeyError, "LookupError": LookupError,
    "Exception": Exception, "TypeError": TypeError, "StopIteration": StopIteration, "OSError": OSError, "FileNotFoundError": FileNotFoundError,
    "KeyboardInterrupt": KeyboardInterrupt, "GeneratorExit": GeneratorExit, "AssertionError": AssertionError, "RecursionError": RecursionError,
    "ExceptionGroup": ExceptionGroup,
}  # fmt: skip
CATCHABLE = sorted(CLASSES)
VALUES: list[Any] = [None, 0, False, "", (), [], 1, "x", Box(1), Nothing, Some(1), A("value"), A, Ok(1), Ok(None), Error("own"), Error(None), Success(2), Failure(A("own")), Error(A("own")), (i for i in ()), iter([1]), Block([Ok(1)]), (Ok(1), None), {"ok": 1}, len, range(3), Later()]
KW = ["f", "fn", "exception", "args", "kwargs", "self", "decorator", "x"]


def make(name: str, *msg: Any) -> BaseException:
    """An exception of the named class; a group holds one exception of every ordinary class, none of which is raised itself."""
    if name == "ExceptionGroup":
        return ExceptionGroup("group", [c("inside") for c in CLASSES.values() if issubclass(c, Exception) and c is not ExceptionGroup])
    return CLASSES[name](*msg)


def cases() -> Any:
    action = st.one_of(
        st.tuples(st.just("return"), st.integers(0, len(VALUES) - 1)),
        st.tuples(st.just("raise"), st.sampled_from(sorted(CLASSES))),
        st.tuples(st.just("raise"), st.sampled_from(sorted(CLASSES))),
        # raised while handling, or because of, an exception of another class
        st.tuples(st.sampled_from(["nested", "from"]), st.tuples(st.sampled_from(sorted(CLASSES)), st.sampled_from(sorted(CLASSES)))),
        st.tuples(st.just("noargs"), st.sampled_from(sorted(CLASSES))),
    )
    v = st.integers(0, len(VALUES) - 1)
    return st.tuples(
        st.lists(st.tuples(st.sampled_from(CATCHABLE), st.booleans()), max_size=4),
        st.lists(action, min_size=1, max_size=3),
        st.lists(v, max_size=3),
        st.lists(st.tuples(st.sampled_from(KW), v), max_size=3, unique_by=lambda p: p[0]),
    )


@PROPERTY.obligation(cases, quick=12000, shards=5)
def catching(case: Any, ctx: Ctx) -> None:
    stack, actions, pos, kws = case
    args = tuple(VALUES[i] for i in pos)
    kw = {n: VALUES[i] for n, i in kws}
    script: list[Any] = []
    calls: list[Any] = []

    def original(*a: Any, **k: Any) -> Any:
        calls.append((a, k))
        what, exc = script[0]
        if what == "return":
            return exc
        if what == "nested":
            try:
                raise script[1]
            except BaseException:  # noqa: BLE001
                raise exc  # noqa: B904
        if what == "from":
            raise exc from script[1]
        raise exc

    fn: Any = original
    for name, direct in stack:
        cls = CLASSES[name]
        fn = catch(fn, exception=cls) if direct else catch(exception=cls)(fn)
    expect(not calls, "wrapping calls nothing")

    for what, arg in actions:
        first: Any = None
        if what == "return":
            exc = VALUES[arg]
        elif what in ("nested", "from"):
            exc, first = make(arg[0], "msg"), make(arg[1], "first")
        elif what == "noargs":
            exc = make(arg)
        else:
            exc = make(arg, "msg")
        if what != "return":
            shape = exc.args
        script[:] = [(what, exc), first]
        calls.clear()
        try:
            got: Any = ("ok", fn(*args, **kw))
        except BaseException as e:  # noqa: BLE001
            got = ("exc", e)
        expect(len(calls) == 1, "the function runs exactly once", len(calls))
        a, k = calls[0]
        expect(len(a) == len(args) and all(x is y for x, y in zip(a, args)), "positional arguments", a, args)
        expect(list(k) == list(kw) and all(k[n] is kw[n] for n in kw), "keyword arguments", k, kw)
        if what == "return":
            expect(got[0] == "ok", "returns", got)
            v = got[1]
            if not stack or isinstance(exc, type(Ok(1))):
                expect(v is exc, "its own result unchanged", v, exc)
            else:
                expect(isinstance(v, type(Ok(1))) and v.is_ok() and v.ok is exc, "Ok of the value", v, exc)
        else:
            caught = any(isinstance(exc, CLASSES[n]) for n, _ in stack)
            if caught:
                expect(got[0] == "ok" and got[1].is_error() and got[1].error is exc, "Error holding the very exception", got, exc)
            else:
                expect(got[0] == "exc" and got[1] is exc, "other exceptions propagate unchanged", got, exc)
            expect(exc.args == shape, "the exception is not altered", exc.args, shape)
            if what == "from":
                expect(exc.__cause__ is first, "the cause is kept", exc.__cause__)
            ctx.nontrivial(bool(stack))
            ctx.label("caught" if caught else "propagates")


@PROPERTY.obligation(lambda: st.tuples(st.sampled_from(CATCHABLE), st.sampled_from(CATCHABLE), st.sampled_from(sorted(CLASSES)), st.booleans()), quick=1500, thorough=6000)
def layered(case: Any, ctx: Ctx) -> None:
    """Catching functions that call catching functions: each handles what its own body lets through."""
    inner_c, outer_c, raised, own = case
    exc = make(raised, "m")
    runs: list[str] = []

    @catch(exception=CLASSES[inner_c])
    def inner(x: Any) -> Any:
        runs.append("inner")
        raise exc

    @catch(exception=CLASSES[outer_c])
    def outer(x: Any) -> Any:
        runs.append("outer")
        r = inner(x)
        runs.append("after")
        return r if own else 5

    try:
        got: Any = outer(1)
    except BaseException as e:  # noqa: BLE001
        got = e
    if isinstance(exc, CLASSES[inner_c]):
        expect(runs == ["outer", "inner", "after"], "runs", runs)
        if own:
            expect(got.is_error() and got.error is exc, "inner's error handed on", got)
        else:
            expect(got.is_ok() and got.ok == 5, "outer's own value", got)
    elif isinstance(exc, CLASSES[outer_c]):
        expect(runs == ["outer", "inner"], "runs", runs)
        expect(got.is_error() and got.error is exc, "outer's error", got)
    else:
        expect(got is exc and runs == ["outer", "inner"], "propagates", got)

    class Host:
        @catch(exception=CLASSES[outer_c])
        def method(self, y: Any = 3, *, z: Any = 4) -> Any:
            return (self, y, z)

    h = Host()
    out = h.method(z=9).ok
    expect(out[0] is h and out[1:] == (3, 9), "method with defaults", out)
    ctx.nontrivial(True)
