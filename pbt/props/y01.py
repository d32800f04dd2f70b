"""Y01: async sequences compute the list result, in order and on demand."""

from __future__ import annotations

import asyncio
from functools import reduce
from typing import Any, AsyncIterator

from hypothesis import strategies as st

from expression import Nothing, Some, pipe
from expression.collections import asyncseq
from expression.collections.asyncseq import AsyncSeq

from .. import seqstages as S
from ..core import Ctx, Property, Violation
from ..util import Boom, expect, same
from .s02 import Ref, within

PROPERTY = Property(
    "Y01",
    rule="async programs (source with a suspension pattern, 0-6 stages, consumer or consumption prefix) against the synchronous "
    "generator reference; non-trivial when there are at least two stages, at least two elements, and some suspension occurs",
    assumptions=["sources are consumed once; callbacks are deterministic"],
)


class ASource:
    """Async view of an instrumented source; `pattern` says how often to suspend before each element."""

    def __init__(self, src: Any, pattern: tuple[int, ...]) -> None:
        self.src, self.pattern = src, pattern or (0,)

    async def __aiter__(self) -> AsyncIterator[Any]:
        i = 0
        it = iter(self.src)
        while True:
            for _ in range(self.pattern[i % len(self.pattern)]):
                await asyncio.sleep(0)
            i += 1
            try:
                x = next(it)
            except StopIteration:
                return
            yield x


def stage_codes() -> Any:
    j, salt, count = st.just, S.salt, S.count
    tup = st.lists(S.elems, max_size=5).map(tuple)
    return st.one_of(
        st.tuples(j("map"), salt),
        st.tuples(j("filter"), salt),
        st.tuples(j("choose"), salt),
        st.tuples(j("collect"), salt),
        st.tuples(j("concat"), salt),
        st.tuples(j("append"), st.tuples(tup)),
        st.tuples(j("skip"), count),
        st.tuples(j("take"), count),
        st.tuples(j("tail")),
        st.tuples(j("scan"), salt),
    )


async def real_stage(env: S.Env, i: int, code: tuple[Any, ...], xs: Any, method: bool, pat: tuple[int, ...]) -> Any:  # noqa: C901
    name = code[0]
    s = AsyncSeq(xs)
    if name == "map":
        f = env.cb(i, lambda x: S.m_map(code[1], x))
        return await s.map(f) if method else pipe(xs, asyncseq.map(f))
    if name == "filter":
        f = env.cb(i, lambda x: S.truthy(code[1], x))
        return await s.filter(f) if method else pipe(xs, asyncseq.filter(f))
    if name == "choose":
        f = env.cb(i, lambda x: (lambda r: Some(r[0]) if r else Nothing)(S.m_choose(code[1], x)))
        return await s.choose(f) if method else pipe(xs, asyncseq.choose(f))
    if name == "collect":
        f = env.cb(i, lambda x: ASource(env.source((i, "inner"), tuple(S.m_collect(code[1], x))), pat))
        return await s.collect(f) if method else pipe(xs, asyncseq.collect(f))
    if name == "concat":
        inner = lambda x: ASource(env.source((i, "inner"), tuple(S.m_collect(code[1], x))), pat)  # noqa: E731
        return await AsyncSeq(pipe(xs, asyncseq.map(inner))).concat()
    if name == "append":
        return pipe(xs, asyncseq.append(ASource(env.source((i, 0), code[1][0]), pat)))
    if name == "skip":
        return await s.skip(code[1])
    if name == "take":
        return await s.take(code[1])
    if name == "tail":
        return await s.tail()
    if name == "scan":
        f = env.cb(i, lambda st_, x: S.m_map(code[1], S.h(code[1], st_), x))
        return s.scan(f, [None, 0, (), "s"][code[1] % 4])
    raise AssertionError(name)


def source_codes(infinite: bool) -> Any:
    j = st.just
    fin = [
        st.tuples(j("src"), st.lists(S.elems, max_size=9).map(tuple)),
        st.tuples(j("src"), st.lists(S.elems, min_size=4, max_size=12).map(tuple)),
        st.tuples(j("range"), st.integers(-5, 9), st.integers(-5, 9), st.sampled_from([1, 2, -1, -3])),
        st.tuples(j("repeat"), S.elems, st.integers(0, 6)),
        st.tuples(j("empty"), j(0)),
    ]
    inf = [st.tuples(j("count")), st.tuples(j("forever"), S.elems)]
    return st.one_of(*fin, *(inf * 2 if infinite else []))


def real_source(env: S.Env, code: tuple[Any, ...], method: bool, pat: tuple[int, ...]) -> Any:
    name = code[0]
    if name == "range":
        args = code[1:] if code[3] != 1 else code[1:3]
        if args[0] == 0 and len(args) == 2:
            args = args[1:]
        return AsyncSeq.range(*args) if method else asyncseq.range(*args)
    if name == "repeat":
        return asyncseq.repeat(code[1], code[2])
    if name == "forever":
        return asyncseq.repeat(code[1])
    if name == "empty":
        return AsyncSeq.empty() if method else asyncseq.empty()
    return ASource(env.source("src", None if name == "count" else code[1]), pat)


def as_ref(code: tuple[Any, ...]) -> tuple[Any, ...]:
    """The same source for the synchronous reference."""
    if code[0] == "repeat":
        return ("list", (code[1],) * code[2])
    return code


async def real_program(env: S.Env, src: Any, stages: Any, method: bool, pat: tuple[int, ...]) -> Any:
    xs = real_source(env, src, method, pat)
    for i, (m, code) in enumerate(stages):
        xs = await real_stage(env, i, code, xs, m, pat)
    return xs


patterns = st.lists(st.integers(0, 2), min_size=1, max_size=4).map(tuple)
CONSUMERS = ["list", "fold", "fold_back", "head", "length", "sum", "max", "min"]


STATES: list[Any] = [None, 0, "", (), False, 1, "s", (1,)]


def orderable(salt: int) -> Any:
    pool = [1, True, 1.0, 0, False, 2, -1, 0.0]
    return lambda x: pool[S.h(salt, x) % 8]


@PROPERTY.obligation(
    lambda: st.tuples(
        source_codes(False),
        st.lists(st.tuples(st.booleans(), stage_codes()), max_size=6),
        st.sampled_from(CONSUMERS),
        st.integers(0, 7),
        st.booleans(),
        patterns,
        st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, 4), st.integers(1, 4))),
    ),
    quick=9000,
    shards=5,
)
def chains(case: Any, ctx: Ctx) -> None:
    src, stages, consumer, salt, method, pat, fail = case
    ref_env = S.Env(fail)
    xs: list[Any] = []
    err: Any = None
    try:
        for x in S.ref_program(ref_env, as_ref(src), stages)():
            xs.append(x)
    except Boom as e:
        err = e
    num = orderable(salt)

    def folder(s_: Any, x: Any) -> Any:
        k = S.h(salt, (s_, x)) % 16
        if k == 0 and err is None:
            raise Boom("folder")
        return [(s_, x), None, 0, (), s_, x, (x, s_)][k % 7]

    def want() -> Any:
        if consumer == "head" and xs:
            return xs[0]
        if err is not None:
            raise err
        if consumer == "list":
            return xs
        if consumer == "fold":
            return reduce(folder, xs, STATES[salt])
        if consumer == "fold_back":
            return reduce(folder, xs[::-1], STATES[salt])
        if consumer == "head":
            raise ValueError
        if consumer == "length":
            return len(xs)
        if consumer == "sum":
            return sum(map(num, xs))
        return (max if consumer == "max" else min)(list(map(num, xs)))

    async def run() -> Any:
        ys = await real_program(S.Env(fail), src, stages, method, pat)
        if consumer == "list":
            return [y async for y in ys]
        s = AsyncSeq(ys)
        if consumer == "fold":
            return await s.fold(folder, STATES[salt])
        if consumer == "fold_back":
            return await s.fold_back(lambda x, s_: folder(s_, x), STATES[salt])
        if consumer == "head":
            return await s.head()
        if consumer == "length":
            return await s.length()
        nums = AsyncSeq(pipe(ys, asyncseq.map(num)))
        return await {"sum": nums.sum, "max": nums.max, "min": nums.min}[consumer]()

    def res(fn: Any) -> Any:
        try:
            return ("ok", fn())
        except Boom as e:
            return ("exc", e)
        except ValueError:
            return ("exc", ValueError)

    same(res(lambda: asyncio.run(run())), res(want), f"{consumer} of the chain")
    ctx.label(consumer)
    ctx.nontrivial(len(stages) >= 2 and (len(xs) >= 2 or err is not None) and any(pat))


@PROPERTY.obligation(
    lambda: st.tuples(
        source_codes(True),
        st.lists(st.tuples(st.booleans(), stage_codes()), max_size=5),
        st.booleans(),
        patterns,
        st.integers(1, 12),
        st.sampled_from(["next", "next", "take", "head"]),
    ),
    quick=7000,
    shards=4,
)
def demand(case: Any, ctx: Ctx) -> None:
    """Prefixes of (possibly infinite) chains: right elements, no more awaited than they need."""
    src, stages, method, pat, k, how = case
    ref = Ref(as_ref(src), stages, k)
    if how == "head":
        k = 1
    env = S.Env()
    env.cap = 4000

    async def run() -> None:
        prog = await real_program(env, src, stages, method, pat)
        within(env, [], "building the chain")
        if how == "head":
            if ref.items:
                same(await AsyncSeq(prog).head(), ref.items[0], "head")
                within(env, [ref.demand[1]], "head")
            return
        if how == "take":
            if len(ref.items) < k:
                return
            got = [x async for x in await AsyncSeq(prog).take(k)]
            same(got, ref.items[:k], "take")
            within(env, [ref.demand[k]], f"take({k})")
            return
        it = prog.__aiter__()
        for i in range(k):
            if i >= len(ref.items) and ref.end != "stop":
                return
            try:
                x = await it.__anext__()
            except StopAsyncIteration:
                expect(i >= len(ref.items), "ended early", i, ref.items)
                within(env, [ref.last], "at the end")
                return
            expect(i < len(ref.items), "did not end", x, ref.items)
            same(x, ref.items[i], f"element {i}")
            within(env, [ref.demand[i + 1]], f"after element {i}")

    try:
        asyncio.run(run())
    except S.Cap:
        raise Violation("unbounded work for a bounded number of results") from None
    ctx.nontrivial(len(stages) >= 2 and len(ref.items) >= 2 and (any(pat) or src[0] in ("forever", "count")))


@PROPERTY.obligation(
    lambda: st.tuples(st.one_of(st.integers(13, 300), st.integers(300, 3000)), st.lists(st.tuples(st.booleans(), stage_codes().filter(lambda c: c[0] not in ("take", "skip", "concat"))), max_size=2), st.integers(0, 1)),
    quick=90,
    thorough=2000,
    shards=2,
)
def long_sequences(case: Any, ctx: Ctx) -> None:
    n, stages, p = case
    src = ("range", 0, n, 1)
    xs = list(S.ref_program(S.Env(), src, stages)())

    async def run() -> None:
        same(await AsyncSeq(await real_program(S.Env(), src, stages, True, (p,))).length(), len(xs), "length")
        got = [x async for x in await real_program(S.Env(), src, stages, False, (p,))]
        if not any(c[0] == "scan" for _, c in stages):
            same(got, xs, "elements")
        mix = lambda s, x: S.h(1, (s, x))  # noqa: E731
        if any(c[0] == "scan" for _, c in stages):
            mix = lambda s, x: (s * 31 + 1) % 1000003  # noqa: E731
        back = await AsyncSeq(await real_program(S.Env(), src, stages, True, (p,))).fold_back(lambda x, s: mix(s, x), 0)
        same(back, reduce(mix, xs[::-1], 0), "fold_back")
        forth = await AsyncSeq(await real_program(S.Env(), src, stages, False, (p,))).fold(mix, 0)
        same(forth, reduce(mix, xs, 0), "fold")

    asyncio.run(run())
    ctx.nontrivial(True)
