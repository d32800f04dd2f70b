"""F02: curried functions equal the original for every way of passing arguments."""

from __future__ import annotations

import functools
from typing import Any

from hypothesis import strategies as st

from expression import curry, curry_flip, curry_flipped, pipe, pipeable

from ..core import Ctx, Property
from ..util import Boom, Box, expect, same

PROPERTY = Property(
    "F02",
    rule="functions of every shape (variadic, defaults, keyword-only, methods, callable objects) curried at arity 0-4 with generated "
    "argument lists; partial applications form a generated tree whose nodes are reused in any order; non-trivial when some partial "
    "application is used at least twice",
)

KW = ["a", "b", "fun", "args", "args_", "kw", "kwargs", "function", "num_args", "arity", "self", "key"]
VALS: list[Any] = [None, 0, False, "", (), (1,), [], 1, 2, "x", Box(1), Ellipsis, dict]


def vals(idx: Any) -> tuple[Any, ...]:
    return tuple(VALS[i] for i in idx)


def ids(v: Any) -> Any:
    """Arguments by identity."""
    a, k = v
    return ([id(x) for x in a], sorted((n, id(x)) for n, x in k.items()))


class Target:
    """The original function: records every call, then returns or raises; it also spoils the dictionary it was given."""

    def __init__(self, boom: Any = None) -> None:
        self.calls: list[Any] = []
        self.boom = boom

    def __call__(self, /, *a: Any, **k: Any) -> Any:
        self.calls.append((a, dict(k)))
        if self.boom is not None:
            raise self.boom
        out = ("called", a, dict(k))
        k["spoilt"] = 1
        return out


def shapes(t: Target) -> dict[str, Any]:
    class Host:
        def method(self, /, *a: Any, **k: Any) -> Any:
            return t(*a, **k)

    def plain(*a: Any, **k: Any) -> Any:
        return t(*a, **k)

    return {"object": t, "function": plain, "method": Host().method, "partial": functools.partial(t)}


arg = st.integers(0, len(VALS) - 1)
arg_lists = st.lists(arg, max_size=4)
kw_dicts = st.lists(st.tuples(st.sampled_from(KW), arg), max_size=3, unique_by=lambda p: p[0])


def trees() -> Any:
    """(shape, arity, raise?, operations); an operation picks an existing partial application and extends it."""
    op = st.tuples(st.integers(0, 30), arg, arg_lists, kw_dicts)
    return st.tuples(st.sampled_from(["object", "function", "method", "partial"]), st.integers(0, 4), st.booleans(), st.lists(op, min_size=1, max_size=14))


def final_call(t: Target, call: Any, want: Any, boom: Any, what: str) -> None:
    before = len(t.calls)
    try:
        got = ("ok", call())
    except Boom as e:
        got = ("exc", e)
    expect(len(t.calls) == before + 1, f"{what}: the original is called exactly once", t.calls[before:])
    same(ids(t.calls[-1]), ids(want), f"{what}: arguments {t.calls[-1]!r} / {want!r}")
    if boom is not None:
        expect(got[0] == "exc" and got[1] is boom, f"{what}: the exception reaches the caller", got)
    else:
        expect(got[0] == "ok" and got[1][0] == "called", f"{what}: the original's value is returned", got)
        same(ids(got[1][1:]), ids(want), f"{what}: value")


@PROPERTY.obligation(trees, quick=9000, shards=4)
def curried(case: Any, ctx: Ctx) -> None:
    shape, n, raises, ops = case
    boom = Boom("x") if raises else None
    t = Target(boom)
    partials: list[Any] = [(curry(n)(shapes(t)[shape]), (), 0)]
    used: dict[int, int] = {}
    for pick, a, rest, kw in ops:
        i = pick % len(partials)
        f, prefix, depth = partials[i]
        used[i] = used.get(i, 0) + 1
        if depth < n:
            before = len(t.calls)
            g = f(VALS[a])
            expect(len(t.calls) == before, "nothing is called before the last argument arrives")
            partials.append((g, (*prefix, VALS[a]), depth + 1))
        else:
            r, k = vals(rest), {m: VALS[x] for m, x in kw}
            final_call(t, lambda: f(*r, **k), ((*prefix, *r), k), boom, f"curry({n})")  # noqa: B023
    # complete every partial application that is left, oldest first and newest first
    for order in (partials, partials[::-1]):
        for f, prefix, depth in list(order):
            want = list(prefix)
            while depth < n:
                f, want, depth = f(VALS[depth]), [*want, VALS[depth]], depth + 1
            final_call(t, lambda: f(5, key=None), ((*want, 5), {"key": None}), boom, f"curry({n}) completed later")  # noqa: B023
    ctx.nontrivial(any(c >= 2 for c in used.values()))
    ctx.label(f"arity{n}")


@PROPERTY.obligation(trees, quick=9000, shards=4)
def flipped(case: Any, ctx: Ctx) -> None:
    shape, n, raises, ops = case
    boom = Boom("x") if raises else None
    t = Target(boom)
    deco = curry_flip if len(ops) % 2 else curry_flipped
    base = deco(n)(shapes(t)[shape])
    partials: list[Any] = []  # (callable, trailing args, kwargs, leading args so far)
    used: dict[int, int] = {}
    for pick, a, rest, kw in ops:
        i = pick % (len(partials) + 1) - 1
        before = len(t.calls)
        r, k = vals(rest), {m: VALS[x] for m, x in kw}
        if i < 0 or n == 0:
            if n == 0:
                final_call(t, lambda: base(*r, **k), (r, k), boom, "curry_flip(0)")  # noqa: B023
                continue
            partials.append((base(*r, **k), r, k, ()))
            expect(len(t.calls) == before, "nothing is called by the trailing arguments")
            continue
        f, tr, tk, lead = partials[i]
        used[i] = used.get(i, 0) + 1
        if len(lead) < n - 1:
            partials.append((f(VALS[a]), tr, tk, (*lead, VALS[a])))
            expect(len(t.calls) == before, "nothing is called before the last leading argument arrives")
        else:
            final_call(t, lambda: f(VALS[a]), ((*lead, VALS[a], *tr), tk), boom, f"curry_flip({n})")  # noqa: B023
    for order in (partials, partials[::-1]):
        for f, tr, tk, lead in list(order):
            while len(lead) < n - 1:
                f, lead = f(VALS[len(lead)]), (*lead, VALS[len(lead)])
            final_call(t, lambda: f(9), ((*lead, 9, *tr), tk), boom, f"curry_flip({n}) completed later")  # noqa: B023
    ctx.nontrivial(any(c >= 2 for c in used.values()))
    ctx.label(f"arity{n}")


@PROPERTY.obligation(lambda: st.tuples(st.sampled_from(["object", "function", "method", "partial"]), st.booleans(), arg_lists, kw_dicts, arg_lists), quick=2500)
def pipeables(case: Any, ctx: Ctx) -> None:
    shape, raises, rest, kw, values = case
    boom = Boom("x") if raises else None
    t = Target(boom)
    r, k = vals(rest), {m: VALS[x] for m, x in kw}
    f = pipeable(shapes(t)[shape], *r, **k)
    expect(not t.calls, "pipeable calls nothing")
    for v in vals(values):
        final_call(t, lambda: f(v), ((v, *r), k), boom, "pipeable")  # noqa: B023
        final_call(t, lambda: pipe(v, pipeable(shapes(t)[shape], *r, **k)), ((v, *r), k), boom, "pipeable in a pipe")  # noqa: B023
    ctx.nontrivial(len(values) >= 2)


def declared() -> Any:
    return st.tuples(st.integers(0, 4), st.lists(arg, min_size=4, max_size=4), st.sampled_from(["none", "pos", "kw", "both"]), arg, arg)


@PROPERTY.obligation(declared, quick=2500)
def declared_signatures(case: Any, ctx: Ctx) -> None:
    """Functions with defaults and keyword-only parameters; absent ones keep their defaults."""
    n, idx, extra, e1, e2 = case
    a = vals(idx)
    log: list[Any] = []

    def original(p: Any, q: Any, r: Any, s: Any, t: Any = "dt", *, u: Any = "du") -> Any:
        """Doc."""
        log.append((p, q, r, s, t, u))
        return log[-1]

    pos = (VALS[e1],) if extra in ("pos", "both") else ()
    kw = {"u": VALS[e2]} if extra in ("kw", "both") else {}
    want = original(*a, *pos, **kw)
    log.clear()

    f: Any = curry(n)(original)
    for x in a[:n]:
        f = f(x)
    expect(not log, "not called yet")
    got = f(*a[n:], *pos, **kw)
    expect(all(x is y for x, y in zip(got, want)) and len(log) == 1, "curry: value and single call", got, want)
    if n < 4:  # the remaining ones may be given by name
        f = curry(n)(original)
        for x in a[:n]:
            f = f(x)
        got = f(**dict(zip("pqrs"[n:], a[n:])), **({"t": pos[0]} if pos else {}), **kw)
        expect(all(x is y for x, y in zip(got, want)), "curry: remaining by name", got, want)
    log.clear()

    f = curry_flip(n)(original)
    if n:
        f = f(*a[n:], *pos, **kw)
        for x in a[: n - 1]:
            f = f(x)
        expect(not log, "not called yet")
        got = f(a[n - 1])
    else:
        got = f(*a, *pos, **kw)
    expect(all(x is y for x, y in zip(got, want)) and len(log) == 1, "curry_flip: value and single call", got, want)
    if n and n < 4:
        f = curry_flip(n)(original)(**dict(zip("pqrs"[n:], a[n:])), **({"t": pos[0]} if pos else {}), **kw)
        for x in a[:n]:
            f = f(x)
        expect(all(x is y for x, y in zip(f, want)), "curry_flip: trailing ones by name", f, want)
    ctx.nontrivial(n >= 1)
