"""M03: Map equality is content equality, whatever history produced the maps, and agrees with hash."""

from __future__ import annotations

import random
from typing import Any

from hypothesis import strategies as st

from expression import Some
from expression.collections import Block, Map

from ..core import Ctx, Property
from ..util import ORDERS, expect, payloads, same, shuffled

PROPERTY = Property(
    "M03",
    rule="pairs of maps built by different histories from related dictionaries (equal, prefix, one value or key apart, "
    "unrelated); non-trivial when both have >=2 bindings and were built by different routes",
    assumptions=["keys and values are hashable, keys are totally ordered"],
)

ROUTES = ["of_seq", "of_block", "adds", "rev", "noise", "shuffle", "filter", "change", "map", "remove_re-add"]


def build(items: list[tuple[Any, Any]], route: str, seed: int) -> Any:
    """A map holding dict(items), reached along the given route."""
    d = dict(items)
    items = list(d.items())
    rng = random.Random(seed)
    if route == "of_seq":
        return Map.of_seq(items)
    if route == "of_block":
        return Map.of_block(Block(items))
    if route == "rev":
        items = items[::-1]
    if route in ("shuffle", "noise", "remove_re-add", "change"):
        rng.shuffle(items)
    m = Map.empty()
    extra = [k for k in range(-30, 30) if k not in d]
    if route == "filter":
        m = Map.of_seq([*items, *[(k, 0) for k in extra[:15]]])
        return m.filter(lambda k, v: k in d)
    if route == "map":
        return Map.of_seq([(k, None) for k, _ in items]).map(lambda k, v: d[k])
    for k, v in items:
        if route == "noise":
            e = rng.choice(extra)
            m = m.add(e, 1).add(k, "old").add(k, v).remove(e)
        elif route == "change":
            m = m.add(k, 0).change(k, lambda o, v=v: o.map(lambda _: v))
        else:
            m = m.add(k, v)
    if route == "remove_re-add":
        rng.shuffle(items)
        for k, v in items[: len(items) // 2 + 1]:
            m = m.remove(k).add(k, v)
    return m


def pairs_of_dicts() -> Any:
    key = st.integers(-8, 20)
    base = st.lists(st.tuples(key, payloads(hashable=True)), max_size=14)
    tweak = st.one_of(
        st.just(("same",)),
        st.tuples(st.just("drop"), st.integers(0, 13)),
        st.just(("drop_last",)),
        st.just(("drop_first",)),
        st.tuples(st.just("add"), key, payloads(hashable=True)),
        st.tuples(st.just("append_max"), payloads(hashable=True)),
        st.tuples(st.just("set"), st.integers(0, 13), payloads(hashable=True)),
        st.tuples(st.just("alike"), st.integers(0, 13), st.integers(0, 6)),
        st.tuples(st.just("rekey"), st.integers(0, 13), key),
        st.tuples(st.just("other"), base),
        st.just(("empty",)),
    )
    return st.tuples(
        base, tweak, st.sampled_from(ROUTES), st.sampled_from(ROUTES), st.integers(0, 5), st.booleans()
    )


class Same:
    """Prints and hashes like the given value, but equals only itself."""

    def __init__(self, v: Any) -> None:
        self.v = v

    def __repr__(self) -> str:
        return repr(self.v)

    def __hash__(self) -> int:
        return hash(self.v)


def alike(v: Any, n: int) -> Any:
    """Something easily mistaken for v: equal but distinct, or distinct but printing or hashing alike."""
    if n == 0:
        return str(v)
    if n == 1:
        return Same(v)
    if n == 2 and isinstance(v, (int, float)):
        return float(v)
    if n == 3 and isinstance(v, int):
        return v + (2**61 - 1)  # the same hash
    if n == 4:
        return (v,)
    if n == 5:
        return Some(v)
    return Block([v])


def tweaked(d: dict[Any, Any], t: tuple[Any, ...]) -> dict[Any, Any]:
    d = dict(d)
    ks = sorted(d)
    if t[0] == "drop" and ks:
        del d[ks[t[1] % len(ks)]]
    elif t[0] == "drop_last" and ks:
        del d[ks[-1]]
    elif t[0] == "drop_first" and ks:
        del d[ks[0]]
    elif t[0] == "add":
        d[t[1]] = t[2]
    elif t[0] == "append_max":
        d[(ks[-1] + 1) if ks else 0] = t[1]
    elif t[0] == "set" and ks:
        d[ks[t[1] % len(ks)]] = t[2]
    elif t[0] == "alike" and ks:
        k = ks[t[1] % len(ks)]
        d[k] = alike(d[k], t[2])
    elif t[0] == "rekey" and ks:
        v = d.pop(ks[t[1] % len(ks)])
        d[t[2]] = v
    elif t[0] == "other":
        return dict(t[1])
    elif t[0] == "empty":
        return {}
    return d


@PROPERTY.obligation(pairs_of_dicts, quick=10000, shards=6)
def equality_is_content_equality(case: Any, ctx: Ctx) -> None:
    items, t, r1, r2, seed, floaty = case
    d1 = dict(items)
    d2 = tweaked(d1, t)
    m1 = build(list(d1.items()), r1, seed)
    # numerically equal keys of another type are the same key
    second = [(float(k), v) for k, v in d2.items()] if floaty and r2 not in ("filter", "map") else list(d2.items())
    m2 = build(second, r2, seed + 1)
    want = d1 == d2
    same(m1 == m2, want, f"{m1!r} == {m2!r}")
    same(m2 == m1, want, f"symmetry: {m2!r} == {m1!r}")
    same(m1 != m2, not want, "!=")
    same(m2 != m1, not want, "!= (swapped)")
    same(m1 == m1, True, "reflexive")
    for other in (d1, list(d1.items()), tuple(d1.items()), Block(d1.items()), m1.to_seq(), list(m1), set(d1), repr(m1), None, 0, object()):
        same(m1 == other, False, f"{m1!r} == {other!r}, which is not a map")
        same(m1 != other, True, f"{m1!r} != {other!r}, which is not a map")
    if want:
        same(hash(m1), hash(m2), "equal maps must hash alike")
        expect(len({m1, m2}) == 1, "equal maps collapse in a set")
        expect({m1: 1}.get(m2) == 1, "equal maps are interchangeable dict keys")
    ctx.nontrivial(len(d1) >= 2 and len(d2) >= 2 and r1 != r2)


@PROPERTY.obligation(
    lambda: st.tuples(
        st.lists(st.tuples(st.integers(0, 3), st.integers(0, 2)), max_size=4),
        st.lists(st.tuples(st.integers(0, 3), st.integers(0, 2)), max_size=4),
        st.lists(st.tuples(st.integers(0, 3), st.integers(0, 2)), max_size=4),
        st.tuples(*[st.sampled_from(ROUTES)] * 3),
    ),
    quick=4000,
)
def equivalence_relation(case: Any, ctx: Ctx) -> None:
    a, b, c, routes = case
    ms = [build(x, r, 3) for x, r in zip((a, b, c), routes)]
    eq = [[x == y for y in ms] for x in ms]
    for i in range(3):
        expect(eq[i][i], "reflexive")
        for j in range(3):
            expect(eq[i][j] == eq[j][i], "symmetric", ms[i], ms[j])
            if eq[i][j]:
                expect(hash(ms[i]) == hash(ms[j]), "hash", ms[i], ms[j])
            for k in range(3):
                expect(not (eq[i][j] and eq[j][k]) or eq[i][k], "transitive")
    ctx.nontrivial(sum(map(sum, eq)) > 3)


@PROPERTY.obligation(
    lambda: st.tuples(
        st.integers(20, 900) | st.integers(20, 150),
        st.sampled_from(ORDERS),
        st.sampled_from(ORDERS),
        st.sampled_from(["build", "shrink", "filter", "noise", "overwrite"]),
        st.sampled_from(["same", "same", "same", "value", "drop_last", "drop_first", "drop", "append"]),
        st.integers(0, 10**6),
    ),
    quick=160,
    thorough=4000,
    shards=2,
)
def many_bindings(case: Any, ctx: Ctx) -> None:
    """Differently shaped trees of the same (or nearly the same) bindings."""
    n, o1, o2, route, tweak, seed = case
    rng = random.Random(seed)
    value = lambda k: k * 7 % 11  # noqa: E731
    m1 = Map.of_seq([(k, value(k)) for k in shuffled(n, o1, seed)])
    d2 = {k: value(k) for k in range(n)}
    at = rng.randrange(n)
    if tweak == "value":
        d2[at] = -1
    elif tweak == "drop":
        del d2[at]
    elif tweak == "drop_last":
        del d2[n - 1]
    elif tweak == "drop_first":
        del d2[0]
    elif tweak == "append":
        d2[n] = 0
    order = [k for k in shuffled(n + 1, o2, seed + 1) if k in d2]
    big = 2 * n if route in ("shrink", "filter") else 0
    m2: Any = Map.of_seq([(k, d2[k]) for k in order] + [(n + 5 + k, 0) for k in range(big)])
    if route == "shrink":
        for k in range(big):
            m2 = m2.remove(n + 5 + k)
    elif route == "filter":
        m2 = m2.filter(lambda k, v: k < n + 5)
    elif route == "noise":
        for _ in range(n // 4):
            k = rng.choice(order)
            m2 = m2.remove(k).add(k, d2[k])
    elif route == "overwrite":
        for k in order[::2]:
            m2 = m2.add(k, "x").add(k, d2[k])
    want = tweak == "same"
    same(m1 == m2, want, "==")
    same(m2 == m1, want, "== swapped")
    same(m1 != m2, not want, "!=")
    if want:
        same(hash(m1), hash(m2), "equal maps must hash alike")
        for o in ORDERS:
            m3 = Map.of_seq([(k, value(k)) for k in shuffled(n, o, seed + 2)])
            same(m1 == m3, True, "== whatever the order of insertion")
            same(hash(m1), hash(m3), "equal maps must hash alike")
    ctx.nontrivial(route != "build" or o1 != o2)
