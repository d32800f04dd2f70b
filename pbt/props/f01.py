"""F01: piping and composing apply the functions left to right, once each."""

from __future__ import annotations

import functools
from typing import Any

from hypothesis import strategies as st

from expression import Error, Failure, Nothing, Ok, Some, Success, TailCall, compose, flip, fst, identity, pipe, pipe2, pipe3, snd
from expression.collections import Block, Map, Seq, TypedArray
from expression.core.misc import starid
from expression.core.pipe import starpipe
from expression.core.error import EffectError

from ..core import Ctx, Property
from ..util import Boom, expect, same
from ..values import Later

PROPERTY = Property(
    "F01",
    rule="a value of any kind and a chain of up to 40 (some cases thousands) generated callables that wrap, drop, repeat or raise; "
    "non-trivial when the chain has at least three functions",
)


class Fatal(BaseException):
    pass


EXCS: dict[str, Any] = {"boom": Boom, "stop": StopIteration, "fatal": Fatal, "key": KeyError, "type": TypeError, "effect": EffectError}


class Falsy:
    """A callable that is false, empty, and equal to every other one."""

    def __init__(self, fn: Any) -> None:
        self.fn = fn

    def __call__(self, *a: Any) -> Any:
        return self.fn(*a)

    def __bool__(self) -> bool:
        return False

    def __len__(self) -> int:
        return 0

    def __eq__(self, o: Any) -> bool:
        return isinstance(o, Falsy)

    def __hash__(self) -> int:
        return 1


class Holder:
    def __init__(self, fn: Any) -> None:
        self.fn = fn

    def method(self, x: Any) -> Any:
        return self.fn(x)


VALUES: list[Any] = [None, 0, False, "", (), (1, 2), [], [3], {}, {"a": 1}, 5, "ab", 1.5, identity, int, Ellipsis, NotImplemented, Boom("value"), StopIteration, TailCall(1), Some(0), Nothing, Ok(1), Error(1), float("nan"), True, 1, Later(), Later, iter(()), (x for x in ())]
LIBRARY: dict[str, Any] = {
    "some": lambda: Some(1),
    "nothing": lambda: Nothing,
    "ok": lambda: Ok(None),
    "error": lambda: Error("e"),
    "success": lambda: Success(2),
    "failure": lambda: Failure(Boom(1)),
    "block": lambda: Block([1, 2]),
    "empty_block": lambda: Block.empty(),
    "map": lambda: Map.of(a=1),
    "empty_map": lambda: Map.empty(),
    "seq": lambda: Seq([1, 2]),
    "array": lambda: TypedArray([1, 2]),
    "empty_array": lambda: TypedArray([]),
}


def value(code: Any) -> Any:
    return VALUES[code[1]] if code[0] == "v" else LIBRARY[code[1]]()


def value_codes() -> Any:
    return st.one_of(
        st.tuples(st.just("v"), st.integers(0, len(VALUES) - 1)),
        st.tuples(st.just("lib"), st.sampled_from(sorted(LIBRARY))),
    )


def fn_codes() -> Any:
    good = st.one_of(
        st.tuples(st.just("wrap"), st.integers(0, 3)),
        st.tuples(st.just("const"), st.integers(0, len(VALUES) - 1)),
        st.just(("ident", 0)),
        st.just(("list", 0)),
        st.just(("same", 0)),
    )
    return st.tuples(st.sampled_from(["lambda", "lambda", "falsy", "method", "partial"]), good)


class Run:
    """Builds the callables of a chain and records what each was called with."""

    def __init__(self) -> None:
        self.log: list[Any] = []

    def effect(self, code: Any, x: Any) -> Any:
        op, n = code
        if op == "wrap":
            return (n, x)
        if op == "const":
            return VALUES[n]
        if op == "list":
            return [x]
        if op == "raise":
            raise n
        return x

    def fn(self, i: int, code: Any) -> Any:
        how, what = code

        def body(x: Any) -> Any:
            self.log.append((i, x))
            return self.effect(what, x)

        if how == "falsy":
            return Falsy(body)
        if how == "method":
            return Holder(body).method
        if how == "partial":
            return functools.partial(lambda f, x: f(x), body)
        return body


def same_log(a: list[Any], b: list[Any], what: str) -> None:
    expect([i for i, _ in a] == [i for i, _ in b], f"{what}: which functions were called", [i for i, _ in a], [i for i, _ in b])
    for (i, x), (_, y) in zip(a, b):
        expect(alike(x, y), f"{what}: argument of function {i}", x, y)


def alike(x: Any, y: Any) -> bool:
    """The same object, or containers built by separate runs around the same objects."""
    if x is y:
        return True
    if type(x) is type(y) and isinstance(x, (tuple, list)) and len(x) == len(y):
        return all(alike(a, b) for a, b in zip(x, y))
    if type(x) is type(y) and isinstance(x, (Some(1).__class__, Ok(1).__class__, Block, Map)):
        return bool(x == y)
    if type(x) is type(y) and isinstance(x, (Seq, TypedArray)):
        return list(x) == list(y)
    return isinstance(x, (int, str, float)) and type(x) is type(y) and x == y


def attempt(fn: Any) -> Any:
    try:
        return ("ok", fn())
    except BaseException as e:  # noqa: BLE001
        return ("exc", e)


def cases() -> Any:
    return st.tuples(
        value_codes(),
        st.lists(fn_codes(), max_size=9) | st.lists(fn_codes(), min_size=10, max_size=40),
        st.none() | st.tuples(st.integers(0, 39), st.sampled_from(sorted(EXCS))),
        st.lists(st.integers(0, 40), max_size=4),
    )


def prepare(codes: Any, exc: Any) -> Any:
    codes = list(codes)
    err = None
    if exc is not None and codes:
        err = EXCS[exc[1]]("no")
        codes[exc[0] % len(codes)] = ("lambda", ("raise", err))
    return codes, err


def reference(v: Any, codes: Any) -> Any:
    run = Run()
    fns = [run.fn(i, c) for i, c in enumerate(codes)]

    def go() -> Any:
        x = v
        for f in fns:
            x = f(x)
        return x

    return attempt(go), run.log


def judge(got: Any, log: list[Any], want: Any, wlog: list[Any], what: str) -> None:
    same(got[0], want[0], f"{what}: outcome ({got[1]!r} / {want[1]!r})")
    if got[0] == "exc":
        expect(got[1] is want[1], f"{what}: the very exception", got[1], want[1])
    else:
        expect(alike(got[1], want[1]), f"{what}: value", got[1], want[1])
    same_log(log, wlog, what)


@PROPERTY.obligation(cases, quick=9000, shards=5)
def chains(case: Any, ctx: Ctx) -> None:
    vc, codes0, exc, cuts = case
    v = value(vc)
    codes, err = prepare(codes0, exc)
    want, wlog = reference(v, codes)

    def check(what: str, use: Any) -> None:
        run = Run()
        fns = [run.fn(i, c) for i, c in enumerate(codes)]
        got = attempt(lambda: use(fns))
        judge(got, run.log, want, wlog, what)

    check("pipe", lambda fns: pipe(v, *fns))
    check("compose", lambda fns: compose(*fns)(v))
    if hasattr(v, "pipe"):
        check("pipe method", lambda fns: v.pipe(*fns))

    # any bracketing, with identities anywhere
    def bracketed(fns: list[Any]) -> Any:
        at = sorted(min(c, len(fns)) for c in cuts)
        parts = [fns[a:b] for a, b in zip([0, *at], [*at, len(fns)])]
        out = identity
        for p in parts:
            out = compose(out, compose(*p), compose(), identity)
        return out(v)

    check("composition is associative, identity is its unit", bracketed)

    def right(fns: list[Any]) -> Any:
        out = identity
        for f in reversed(fns):
            out = compose(f, out)
        return out(v)

    check("composition from the right", right)
    check("split pipe", lambda fns: pipe(v, compose(*fns[: len(fns) // 2]), *fns[len(fns) // 2 :]))

    # composing calls nothing; the composed function can be used again
    run = Run()
    fns = [run.fn(i, c) for i, c in enumerate(codes)]
    composed = compose(*fns)
    expect(not run.log, "composing calls no function")
    for _ in range(2):
        run.log.clear()
        judge(attempt(lambda: composed(v)), run.log, want, wlog, "the composed function, used again")
    # the functions are those given at composing time
    fns.clear()
    run.log.clear()
    judge(attempt(lambda: composed(v)), run.log, want, wlog, "the composed function after its argument list changed")
    ctx.nontrivial(len(codes) >= 3)
    ctx.label("raises" if err else "returns")


@PROPERTY.obligation(lambda: st.tuples(st.lists(value_codes(), min_size=0, max_size=5), st.lists(fn_codes(), max_size=6), st.none() | st.tuples(st.integers(0, 5), st.sampled_from(sorted(EXCS))), st.none() | value_codes(), st.booleans()), quick=6000, shards=3)
def several_values(case: Any, ctx: Ctx) -> None:
    """pipe2, pipe3 and the starred pipe equal direct application."""
    vcs, codes0, exc, first, falsy = case
    vs = tuple(value(c) for c in vcs)
    codes, err = prepare(codes0, exc)
    log: list[Any] = []

    def curried(n: int) -> Any:
        def step(got: tuple[Any, ...]) -> Any:
            def take(x: Any) -> Any:
                now = (*got, x)
                log.append(("first", now))
                if len(now) < n:
                    return step(now)
                return now if first is None else value(first)

            return Falsy(take) if falsy else take

        return step(())

    for n, p in ((2, pipe2), (3, pipe3)):
        if len(vs) < n:
            continue
        args = vs[:n]
        expect(p(args) is args, "no functions: the values themselves")
        want, wlog = reference(args if first is None else value(first), codes)
        log.clear()
        run = Run()
        fns = [run.fn(i, c) for i, c in enumerate(codes)]
        got = attempt(lambda: p(args, curried(n), *fns))  # noqa: B023
        judge(got, run.log, want, wlog, f"pipe{n}")
        expect(len(log) == n and alike(log[-1][1], args), f"pipe{n}: first function's arguments", log)

    # starred: every function but the last returns a tuple of the next one's arguments
    calls: list[Any] = []

    def star(i: int) -> Any:
        def f(*a: Any) -> Any:
            calls.append((i, a))
            if err is not None and i == exc[0] % len(codes):
                raise err
            what = codes[i][1]
            if what[0] == "const":  # no, one or a false argument for the next one
                return ((), (None,), ((),), (0, False))[what[1] % 4]
            return (a, i, *a[:2])

        return Falsy(f) if codes[i][0] == "falsy" else f

    def want_star() -> Any:
        if not codes:
            return vs
        x: Any = vs
        for i in range(len(codes)):
            x = star(i)(*x)
        return x

    want = attempt(want_star)
    wcalls = list(calls)
    calls.clear()
    got = attempt(lambda: starpipe(vs, *[star(i) for i in range(len(codes))]))
    judge(got, calls, want, wcalls, "starpipe")
    calls.clear()
    if codes and err is None:  # the last result need not be a tuple
        expect(starpipe(vs, *[star(i) for i in range(len(codes))], lambda *a: Ellipsis) is Ellipsis, "starpipe result")
    expect(alike(starid(*vs), vs), "starid")
    ctx.nontrivial(len(codes) >= 3)


@PROPERTY.obligation(lambda: st.tuples(value_codes(), value_codes(), st.none() | st.sampled_from(sorted(EXCS))), quick=800, thorough=4000)
def small_ones(case: Any, ctx: Ctx) -> None:
    ac, bc, exc = case
    a, b = value(ac), value(bc)
    log: list[Any] = []
    err = EXCS[exc]("no") if exc else None

    def fn(x: Any, y: Any) -> Any:
        log.append((x, y))
        if err is not None:
            raise err
        return (x, y)

    g = flip(fn)
    got = attempt(lambda: g(b, a))
    expect(len(log) == 1 and log[0][0] is a and log[0][1] is b, "flip passes (a, b)", log)
    if err is not None:
        expect(got == ("exc", err) and got[1] is err, "flip's exception", got)
    else:
        expect(got[0] == "ok" and got[1][0] is a and got[1][1] is b, "flip's value", got)
        back = flip(flip(fn))(a, b)
        expect(back[0] is a and back[1] is b, "flip twice", back)
    expect(fst((a, b)) is a and snd((a, b)) is b, "fst and snd", a, b)
    expect(identity(a) is a, "identity", a)
    expect(pipe(a) is a and compose()(a) is a and compose(identity)(a) is a, "no functions", a)
    if hasattr(a, "pipe"):
        expect(a.pipe() is a and a.pipe(identity) is a, "pipe method without functions", a)
    ctx.nontrivial(a is not b)


@PROPERTY.obligation(lambda: st.integers(1000, 6000), quick=12, thorough=100)
def long_chains(case: Any, ctx: Ctx) -> None:
    """Thousands of functions."""
    n = case
    order: list[int] = []

    def mk(i: int) -> Any:
        def f(x: int) -> int:
            order.append(i)
            return x + i

        return f

    fns = [mk(i) for i in range(n)]
    want = 7 + sum(range(n))
    for use in (lambda: pipe(7, *fns), lambda: compose(*fns)(7), lambda: pipe2((3, 4), lambda a: lambda b: a + b, *fns)):
        order.clear()
        same(use(), want, "value")
        same(order, list(range(n)), "order")
    order.clear()
    same(Some(7).pipe(lambda o: o.value, *fns), want, "pipe method")
    ctx.nontrivial(True)
