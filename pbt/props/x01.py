"""X01: pipelines and traversals compose fallible functions with first-error semantics."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from expression import Error, Failure, Nothing, Ok, Option, Result, Some, Success
from expression.collections import Block
from expression.extra.option import pipeline as option_pipeline
from expression.extra.result import pipeline as result_pipeline
from expression.extra.result import sequence, traverse

from ..core import Ctx, Property
from ..util import Boom, Box, expect, same
from ..values import Later

PROPERTY = Property(
    "X01",
    rule="chains of up to 60 option- or result-returning functions that succeed, fail or raise at generated places, and blocks of up to "
    "thousands of elements traversed with functions failing at generated elements; non-trivial when at least two functions or elements "
    "are involved",
)

VALUES: list[Any] = [None, 0, False, "", (), [], 1, 2, "x", Box(1), Nothing, Some(None), Ok(1), Error("inner"), Ellipsis, Later(), Later, len, iter(()), Block([1])]
ERRORS: list[Any] = [None, 0, "", "e", Boom(1), Boom(2), Box(2), (), Nothing, Ok(1)]


def shown(v: Any) -> Any:
    if isinstance(v, Option):
        return ("some", id(v.value)) if v.is_some() else ("nothing",)
    expect(isinstance(v, Result), "an option or a result", v)
    return ("ok", id(v.ok)) if v.is_ok() else ("error", id(v.error))


def steps() -> Any:
    v = st.integers(0, len(VALUES) - 1)
    good = st.one_of(st.tuples(st.just("const"), v), st.just(("same",)), st.just(("same",)))
    bad = st.one_of(st.tuples(st.just("bad"), st.integers(0, len(ERRORS) - 1)), st.just(("raise",)))
    return st.one_of(good, good, good, good, bad)


def cases() -> Any:
    return st.tuples(
        st.sampled_from(["option", "result", "try"]),
        st.integers(0, len(VALUES) - 1),
        st.lists(steps(), max_size=8) | st.lists(steps(), min_size=9, max_size=60),
        st.lists(st.integers(0, 60), max_size=3),
    )


@PROPERTY.obligation(cases, quick=8000, shards=4)
def pipelines(case: Any, ctx: Ctx) -> None:
    kind, v0, codes, cuts = case
    pipeline: Any = option_pipeline if kind == "option" else result_pipeline
    err = Boom("raised")
    start = VALUES[v0]

    def apply(code: Any, x: Any) -> Any:
        if code[0] == "raise":
            raise err
        if code[0] == "bad":
            return Nothing if kind == "option" else Failure(ERRORS[code[1]]) if kind == "try" else Error(ERRORS[code[1]])
        y = VALUES[code[1]] if code[0] == "const" else x
        return Some(y) if kind == "option" else Success(y) if kind == "try" else Ok(y)

    def attempt(fn: Any, log: list[Any]) -> Any:
        try:
            return (shown(fn()), log)
        except Boom as e:
            return (("exc", id(e)), log)

    def reference() -> Any:
        log: list[Any] = []
        x, out = start, Some(start) if kind == "option" else Ok(start)
        for i, c in enumerate(codes):
            log.append((i, id(x)))
            try:
                out = apply(c, x)
            except Boom as e:
                return (("exc", id(e)), log)
            if (isinstance(out, Option) and out.is_none()) or (isinstance(out, Result) and out.is_error()):
                break
            x = out.value if isinstance(out, Option) else out.ok
        return (shown(out), log)

    want = reference()

    def fns(log: list[Any]) -> list[Any]:
        def mk(i: int, c: Any) -> Any:
            def f(x: Any) -> Any:
                log.append((i, id(x)))
                return apply(c, x)

            return f

        return [mk(i, c) for i, c in enumerate(codes)]

    def check(what: str, make: Any) -> None:
        log: list[Any] = []
        p = make(fns(log))
        expect(not log, f"{what}: building calls nothing")
        for _ in range(2):
            log.clear()
            same(attempt(lambda: p(start), log), want, what)

    check("pipeline", lambda fs: pipeline(*fs))

    def bound(fs: list[Any]) -> Any:
        def go(x: Any) -> Any:
            out = Some(x) if kind == "option" else Ok(x)
            for f in fs:
                out = out.bind(f)
            return out

        return go

    check("binding one after the other", bound)

    def split(fs: list[Any]) -> Any:
        at = sorted(min(c, len(fs)) for c in cuts)
        return pipeline(*[pipeline(*fs[a:b]) for a, b in zip([0, *at], [*at, len(fs)])])

    check("pipeline of pipelines", split)
    ctx.nontrivial(len(codes) >= 2)
    ctx.label(kind)


def blocks() -> Any:
    el = st.one_of(
        st.tuples(st.just("ok"), st.integers(0, len(VALUES) - 1)),
        st.tuples(st.just("ok"), st.integers(0, len(VALUES) - 1)),
        st.tuples(st.just("ok"), st.integers(0, len(VALUES) - 1)),
        st.tuples(st.just("bad"), st.integers(0, len(ERRORS) - 1)),
    )
    return st.tuples(st.lists(el, max_size=10), st.none() | st.integers(0, 9), st.booleans())


@PROPERTY.obligation(blocks, quick=6000, shards=3)
def traversals(case: Any, ctx: Ctx) -> None:
    els, raising, tries = case
    ok, bad = (Success, Failure) if tries else (Ok, Error)
    items = [Box(i) for i in range(len(els))]
    results = [ok(VALUES[v]) if k == "ok" else bad(ERRORS[v]) for k, v in els]
    first = next((r for r in results if r.is_error()), None)
    err = Boom("raised")
    calls: list[int] = []

    def fn(b: Box) -> Any:
        calls.append(b.n)
        if boom and b.n == raising:
            raise err
        return results[b.n]

    boom = False
    src = Block(items)
    seq_src = Block(results)
    # elements of every kind, equal ones among them
    raw = [VALUES[v] for k, v in els]
    pure = lambda v: bad((v, "bad")) if len(els) % 3 == 0 and VALUES.index(v) % 7 == 6 else ok((v,))  # noqa: E731
    fails = [v for v in raw if pure(v).is_error()]
    out = traverse(pure, Block(raw))
    if fails:
        expect(out.is_error() and out.error[0] is fails[0], "traverse: the leftmost error", out, raw)
    else:
        expect(out.is_ok() and isinstance(out.ok, Block), "traverse: all succeed", out, raw)
        got_raw = list(out.ok)
        expect(len(got_raw) == len(raw) and all(g[0] is v for g, v in zip(got_raw, raw)), "traverse: results in order", out, raw)
    for out, what in ((traverse(fn, src), "traverse"), (sequence(seq_src), "sequence"), (traverse(lambda r: r, seq_src), "traverse with identity")):
        if first is not None:
            expect(out.is_error() and out.error is first.error, f"{what}: the leftmost error", out, first)
        else:
            expect(out.is_ok() and isinstance(out.ok, Block), f"{what}: a block", out)
            expect([id(x) for x in out.ok] == [id(r.ok) for r in results], f"{what}: all values in order", out)
    expect(len(calls) == len(set(calls)), "each element is visited at most once", calls)
    if first is None:
        same(sorted(calls), list(range(len(els))), "each element is visited")
        if raising is not None and raising < len(els):
            boom = True
            try:
                got: Any = traverse(fn, src)
            except Boom as e:
                got = e
            expect(got is err, "an exception reaches the caller", got)
    expect([id(x) for x in src] == [id(x) for x in items] and list(seq_src) == results, "the block is unchanged")
    ctx.nontrivial(len(els) >= 2)
    ctx.label("fails" if first is not None else "succeeds")


@PROPERTY.obligation(lambda: st.tuples(st.integers(11, 400) | st.integers(400, 2500), st.lists(st.integers(0, 400) | st.integers(0, 2499), max_size=3)), quick=120, thorough=2000, shards=2)
def large_blocks(case: Any, ctx: Ctx) -> None:
    n, bad = case
    hits = sorted({b for b in bad if b < n})
    out = traverse(lambda i: Error(i) if i in hits else Ok(i * 2), Block(range(n)))
    if hits:
        same(out, Error(hits[0]), "leftmost error")
    else:
        same(list(out.ok), [i * 2 for i in range(n)], "all values")
    ctx.nontrivial(True)
