"""M02: maps are persistent values - no operation, failing callback or open iterator changes an existing map."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from expression import Nothing, Some
from expression.collections import Map

from ..core import Ctx, Property
from ..util import Boom, expect, payloads, same
from .m01 import Api, construct, key_strategy, op_strategy, pairs, revive, step

PROPERTY = Property(
    "M02",
    rule="branching histories: every operation is applied to an arbitrary earlier version, all versions are kept and "
    "re-observed at the end; non-trivial when some version with >=3 bindings had at least two descendants",
    assumptions=["keys are totally ordered; values are not mutated by the caller"],
)


def snapshot(m: Any) -> tuple[Any, ...]:
    keys = list(m)
    return (list(m.to_seq()), keys, len(m), str(m), list(m.to_list()), [m.try_find(k).to_list() for k in keys], list(m.items()))


def branching() -> Any:
    def build(kind: str) -> Any:
        return st.tuples(
            st.just(kind),
            st.sampled_from(["of_seq", "of_list", "of_block", "create"]),
            st.lists(st.tuples(key_strategy(kind), payloads()), max_size=12),
            st.lists(st.tuples(st.integers(0, 30), st.booleans(), op_strategy(kind)), max_size=18),
        )

    return st.sampled_from(["int", "int", "str", "tuple", "option"]).flatmap(build)


@PROPERTY.obligation(branching, quick=4000, shards=5)
def branching_histories(case: Any, ctx: Ctx) -> None:
    kind, how, init, ops = revive(case)
    m, d = construct(how, init)
    versions: list[tuple[Any, dict[Any, Any], Any]] = [(m, d, snapshot(m))]
    children: dict[int, int] = {}
    for at, functional, op in ops:
        i = at % len(versions)
        m, d, _ = versions[i]
        m2, d2, _ = step(Api(functional), m, d, kind, op)
        children[i] = children.get(i, 0) + 1
        versions.append((m2, d2, snapshot(m2)))
    for m, d, snap in versions:
        same(snapshot(m), snap, "an older version changed")
    ctx.nontrivial(any(n >= 2 and len(versions[i][1]) >= 3 for i, n in children.items()))


OPS = ["change", "filter", "partition", "map", "fold", "fold_back", "exists", "for_all", "try_pick", "iterate"]


@PROPERTY.obligation(
    lambda: st.tuples(
        st.lists(st.tuples(st.integers(0, 40), st.integers(0, 5)), min_size=1, max_size=30),
        st.sampled_from(OPS),
        st.integers(0, 30),
        st.integers(0, 40),
    ),
    quick=2500,
)
def failing_callback(case: Any, ctx: Ctx) -> None:
    """A callback raising at its n-th call: the exception reaches the caller, the map stays intact."""
    items, op, at, key = case
    m = Map.of_seq(items)
    d = dict(items)
    before = snapshot(m)
    calls = 0

    def tick() -> None:
        nonlocal calls
        calls += 1
        if calls > at:
            raise Boom(op)

    def two(k: Any, v: Any, r: Any) -> Any:
        tick()
        return r

    def run() -> Any:
        if op == "change":
            return m.change(key, lambda o: (tick(), Some(1))[1])
        if op == "filter":
            return m.filter(lambda k, v: two(k, v, True))
        if op == "partition":
            return m.partition(lambda k, v: two(k, v, k % 2 == 0))
        if op == "map":
            return m.map(lambda k, v: two(k, v, v))
        if op == "fold":
            return m.fold(lambda s, kv: (tick(), s)[1], 0)
        if op == "fold_back":
            return m.fold_back(lambda kv, s: (tick(), s)[1], 0)
        if op == "exists":
            return m.exists(lambda k, v: two(k, v, False))
        if op == "for_all":
            return m.for_all(lambda k, v: two(k, v, True))
        if op == "try_pick":
            return m.try_pick(lambda k, v: two(k, v, Nothing))
        return m.iterate(lambda k, v: two(k, v, None))

    n_calls = 1 if op == "change" else len(d)
    try:
        run()
        raised = False
    except Boom as e:
        raised = True
        expect(e.tag == op, "wrong exception")
    same(raised, at < n_calls, f"{op}: callback failure {at} of {n_calls} calls")
    same(snapshot(m), before, f"{op} with a failing callback changed the map")
    ctx.nontrivial(raised and len(d) >= 3)


VIEWS = ["iter", "iter", "to_seq", "items", "keys", "values", "to_list"]


@PROPERTY.obligation(
    lambda: st.tuples(
        st.lists(st.integers(0, 40), min_size=1, max_size=30),
        st.lists(st.sampled_from(VIEWS), min_size=1, max_size=4),
        st.lists(st.tuples(st.integers(0, 3), st.integers(0, 6), st.sampled_from(["add", "remove", "change", "look", "reopen"]), st.integers(0, 40)), max_size=20),
    ),
    quick=3000,
)
def iterators_are_stable(case: Any, ctx: Ctx) -> None:
    """Several iterators open over one map, new maps derived and the map looked at in between: nothing disturbs anything."""
    keys, hows, script = case
    d = {k: ("v", k) for k in keys}
    m = Map.of_seq((k, ("v", k)) for k in keys)
    before = snapshot(m)
    views: dict[str, Any] = {"iter": lambda: m, "to_seq": m.to_seq, "items": m.items, "keys": m.keys, "values": m.values, "to_list": m.to_list}
    want = {"iter": sorted(d), "keys": sorted(d), "values": [v for _, v in pairs(d)]}
    opened = [views[how]() for how in hows]
    its = [iter(v) for v in opened]
    got: list[list[Any]] = [[] for _ in its]
    cur = m
    pulled: set[int] = set()
    for at, pulls, op, k in script:
        n = at % len(its)
        for _ in range(pulls):
            try:
                got[n].append(next(its[n]))
                pulled.add(n)
            except StopIteration:
                break
        if op == "look":
            same(snapshot(m), before, "the map while iterators are open")
        elif op == "reopen":  # an iterator given up half way
            its[n] = iter(opened[n] if k % 2 else views[hows[n]]())
            got[n] = []
        else:
            cur = {"add": lambda: cur.add(k, 0), "remove": lambda: cur.remove(k), "change": lambda: cur.change(k, lambda o: Nothing)}[op]()  # noqa: B023
            m.add(k, 1)
            m.remove(k)
    for how, it, g in zip(hows, its, got):
        g.extend(it)
        same(g, want.get(how, pairs(d)), f"{how} iterator")
    for how, view in zip(hows, opened):
        same(list(view), want.get(how, pairs(d)), f"{how} again")
    same(snapshot(m), before, "source map")
    ctx.nontrivial(len(d) >= 3 and len(script) >= 2 and len(pulled) >= 2)
