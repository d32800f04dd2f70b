"""S02: sequences are lazy, demand-driven and re-iterable."""

from __future__ import annotations

from collections import Counter
from typing import Any

from hypothesis import strategies as st

from expression import Nothing, Some, pipe
from expression.collections import Seq, seq

from .. import seqstages as S
from ..core import Ctx, Property, Violation
from ..util import expect, same

PROPERTY = Property(
    "S02",
    rule="programs of 1-6 stages over instrumented (often infinite) sources, consumed through an interleaved schedule of up "
    "to three iterators; non-trivial when there are at least two stages and at least three elements were delivered, over "
    "at least two iterators or from an infinite source",
    assumptions=["the demand bound is that of the straightforward generator implementation of each stage"],
)

WORK = 400
INF = ("count", "infinite", "init_infinite", "unfold_forever")


class Ref:
    """The reference run: elements, and the cumulative demand after each of them."""

    def __init__(self, src: Any, stages: Any, limit: int, work: int = WORK) -> None:
        env = S.Env()
        env.cap = work
        self.items: list[Any] = []
        self.demand: list[tuple[Counter[Any], Counter[Any]]] = [(Counter(), Counter())]
        self.end = "more"
        it = S.ref_program(env, src, stages)()
        try:
            while len(self.items) < limit:
                try:
                    self.items.append(next(it))
                except StopIteration:
                    self.end = "stop"
                    self.last = (Counter(env.reads), Counter(env.calls))
                    return
                self.demand.append((Counter(env.reads), Counter(env.calls)))
        except S.Cap:
            self.end = "cap"


def within(env: S.Env, allowed: list[tuple[Counter[Any], Counter[Any]]], what: str) -> None:
    for got, k, name in ((env.reads, 0, "source reads"), (env.calls, 1, "callback calls")):
        total: Counter[Any] = Counter()
        for a in allowed:
            total.update(a[k])
        for key, n in got.items():
            expect(n <= total[key], f"{what}: more {name} than the results need", key, n, total[key])


def lazy_programs() -> Any:
    return st.tuples(
        S.source_codes(True),
        st.lists(st.tuples(st.booleans(), S.stage_codes(infinite_inner=True)), min_size=1, max_size=6),
        st.booleans(),
        st.lists(st.integers(0, 2), min_size=1, max_size=30),
    )


@PROPERTY.obligation(lazy_programs, quick=16000, shards=6)
def demand(case: Any, ctx: Ctx) -> None:
    src, stages, method, schedule = case
    ref = Ref(src, stages, len(schedule))
    env = S.Env()
    env.cap = WORK * 8 + 1000
    try:
        prog = S.real_program(env, src, stages, method)
        within(env, [], "building the chain")
        before = Counter(env.reads)
        iters: dict[int, Any] = {}
        pos: dict[int, int] = {}
        done: set[int] = set()
        zips = any(c[0] == "zip" for _, c in stages)
        delivered = 0
        for who in schedule:
            if who in done:
                # an exhausted iteration: start over
                done.discard(who)
                iters.pop(who, None)
            if who not in iters:
                iters[who] = iter(prog)
                spent = pos.pop(who, None)
                if spent is not None:
                    pos[len(pos) + 100] = spent  # demand already used by the finished one
                pos[who] = 0
            k = pos[who]
            if k >= len(ref.items) and ref.end != "stop":
                continue  # the reference itself would go on searching
            try:
                x = next(iters[who])
                same(("item", x), ("item", ref.items[k]) if k < len(ref.items) else ("end",), f"element {k} of iteration {who}")
                pos[who] = k + 1
                delivered += 1
            except StopIteration:
                expect(k >= len(ref.items), f"iteration {who} ended early", k, ref.items)
                done.add(who)
                pos[who] = -1
            if zips and -1 in pos.values():
                continue
            within(env, [ref.demand[p] if p >= 0 else ref.last for p in pos.values()], f"after element {k} of iteration {who}")
    except S.Cap:
        raise Violation("unbounded work for a bounded number of results") from None
    del before
    ctx.label(src[0])
    ctx.nontrivial(len(stages) >= 2 and delivered >= 3 and (len(pos) >= 2 or src[0] in INF))


@PROPERTY.obligation(
    lambda: st.tuples(
        st.sampled_from([("count",), ("infinite",), ("init_infinite", 1), ("unfold_forever", 1), ("src", tuple(range(400)))]),
        st.lists(st.tuples(st.booleans(), S.stage_codes(infinite_inner=True)), min_size=1, max_size=3),
        st.booleans(),
        st.integers(40, 350),
    ),
    quick=500,
    thorough=15000,
    shards=2,
)
def demand_far_in(case: Any, ctx: Ctx) -> None:
    """The same demand bound hundreds of elements into one iteration."""
    src, stages, method, n = case
    ref = Ref(src, stages, n, 9000)
    env = S.Env()
    env.cap = 40000
    try:
        prog = S.real_program(env, src, stages, method)
        within(env, [], "building the chain")
        it = iter(prog)
        for k, want in enumerate(ref.items):
            same(next(it, Ref), want, f"element {k}")
            within(env, [ref.demand[k + 1]], f"after element {k}")
        if ref.end == "stop":
            expect(next(it, Ref) is Ref, "ends where the reference ends")
        again = iter(prog)
        for k, want in enumerate(ref.items):
            same(next(again, Ref), want, f"element {k} of a second iteration")
    except S.Cap:
        raise Violation("unbounded work for a bounded number of results") from None
    ctx.nontrivial(len(ref.items) >= 40)


@PROPERTY.obligation(
    lambda: st.tuples(
        S.source_codes(True),
        st.lists(st.tuples(st.booleans(), S.stage_codes(infinite_inner=True)), max_size=4),
        st.sampled_from(["head", "find", "pick"]),
        st.integers(0, 7),
        st.booleans(),
    ),
    quick=6000,
    shards=2,
)
def short_circuit(case: Any, ctx: Ctx) -> None:
    """head, find-index and pick stop at the deciding element."""
    src, stages, what, salt, method = case
    ref = Ref(src, stages, 40)
    deciding = None
    for i, x in enumerate(ref.items):
        if what == "head" or (what == "find" and S.truthy(salt, x)) or (what == "pick" and S.m_choose(salt, x)):
            deciding = i
            break
    if deciding is None and ref.end != "stop":
        return
    env = S.Env()
    env.cap = WORK * 8
    calls = Counter()

    def p(x: Any) -> Any:
        calls["p"] += 1
        return S.truthy(salt, x)

    def ch(x: Any) -> Any:
        calls["p"] += 1
        r = S.m_choose(salt, x)
        return Some(r[0]) if r else Nothing

    try:
        xs = S.real_program(env, src, stages, method)
        s = Seq(xs)
        if what == "head":
            if deciding is None:
                return
            got = s.head() if method else seq.head(xs)
            same(got, ref.items[0], "head")
        elif what == "find":
            o = s.try_find_index(p) if method else pipe(xs, seq.try_find_index(p))
            same(list(o.to_list()), [] if deciding is None else [deciding], "try_find_index")
        else:
            o = s.try_pick(ch) if method else pipe(xs, seq.try_pick(ch))
            same(list(o.to_list()), [] if deciding is None else S.m_choose(salt, ref.items[deciding]), "try_pick")
    except S.Cap:
        raise Violation("unbounded work by a short-circuiting consumer") from None
    if deciding is not None:
        within(env, [ref.demand[deciding + 1]], what)
        if what != "head":
            same(calls["p"], deciding + 1, f"{what}: calls of the callback")
    ctx.nontrivial(deciding is not None and len(stages) >= 1 and (deciding > 0 or what == "head"))


@PROPERTY.obligation(
    lambda: st.tuples(
        S.source_codes(False),
        st.lists(st.tuples(st.booleans(), S.stage_codes()), min_size=1, max_size=5),
        st.booleans(),
        st.integers(0, 6),
    ),
    quick=5000,
    shards=2,
)
def repeatable(case: Any, ctx: Ctx) -> None:
    """Complete, abandoned (closed) and repeated iterations all see the same elements."""
    src, stages, method, cut = case
    env = S.Env()
    want = list(S.ref_program(S.Env(), src, stages)())
    prog = S.real_program(env, src, stages, method)
    same(list(prog), want, "first iteration")
    it = iter(prog)
    part = [x for _, x in zip(range(cut), it)]
    same(part, want[:cut], "abandoned iteration")
    if hasattr(it, "close"):
        it.close()
    same(list(prog), want, "iteration after an abandoned one")
    same(len(list(prog)), len(want), "third iteration")
    nested = [(x, y) for x in prog for y in prog] if len(want) <= 6 else []
    if len(want) <= 6:
        same(nested, [(x, y) for x in want for y in want], "nested iterations")
    s = Seq(prog)
    same(s.length(), len(want), "length does not consume a repeatable sequence")
    same(list(s), want, "iteration after length")
    ctx.nontrivial(len(stages) >= 2 and len(want) >= 2)
