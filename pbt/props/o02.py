"""O02: options, results and tries compare, hash and order consistently."""

from __future__ import annotations

import random
from typing import Any

from hypothesis import strategies as st

from expression import Error, Failure, Nothing, Ok, Option, Result, Some, Success
from expression.collections import Block

from ..core import Ctx, Property
from ..util import Boom, expect, outcome, same
from ..values import make, values

PROPERTY = Property(
    "O02",
    rule="lists of 2-6 options/results/tries of one (nested) comparable type, all pairs and the sort of the list compared with a "
    "tuple-key reference; pairs of arbitrary nested values for equality and hashing; non-trivial when the values span both "
    "cases or two payloads of the same case are equal but distinct objects",
    assumptions=["payload comparison is a total order and equality agrees with it and with hash"],
)


# ------------------------------------------------------------------ comparable, homogeneous types
def typed(t: Any) -> Any:
    """Codes of values of the comparable type t."""
    if t == "int":
        return st.one_of(st.integers(-2, 3), st.booleans(), st.sampled_from([0.0, 1.0, 2.5, 1000, -1000, 2**70])).map(lambda v: ("v", v))
    if t == "str":
        return st.text("ab", max_size=2).map(lambda v: ("v", v))
    if t == "tuple":
        return st.tuples(st.integers(0, 1), st.integers(0, 2)).map(lambda v: ("v", v))
    if t[0] == "opt":
        return st.one_of(st.just(("nothing",)), st.tuples(st.just("some"), typed(t[1])), st.tuples(st.just("some"), typed(t[1])))
    if t[0] == "res":
        return st.one_of(st.tuples(st.just("ok"), typed(t[1])), st.tuples(st.just("err"), typed(t[2])))
    return st.one_of(st.tuples(st.just("success"), typed(t[1])), st.tuples(st.just("failure"), typed(t[2])), st.tuples(st.just("ok"), typed(t[1])), st.tuples(st.just("err"), typed(t[2])))


def types() -> Any:
    base = st.sampled_from(["int", "str", "tuple"])
    inner = st.recursive(
        base, lambda t: st.one_of(st.tuples(st.just("opt"), t), st.tuples(st.just("res"), t, t), st.tuples(st.just("try"), t, t)), max_leaves=3
    )
    return st.one_of(st.tuples(st.just("opt"), inner), st.tuples(st.just("res"), inner, inner), st.tuples(st.just("try"), inner, inner))


def key(code: Any) -> Any:
    k = code[0]
    if k == "v":
        return code[1]
    if k == "nothing":
        return (0,)
    if k == "some":
        return (1, key(code[1]))
    return (0 if k in ("ok", "success") else 1, key(code[1]))


@PROPERTY.obligation(lambda: types().flatmap(lambda t: st.tuples(st.just(t), st.lists(typed(t), min_size=2, max_size=6), st.integers(0, 99))), quick=9000, shards=5)
def ordering(case: Any, ctx: Ctx) -> None:
    _t, codes, seed = case
    xs = [make(c) for c in codes]
    ks = [key(c) for c in codes]
    for x, kx in zip(xs, ks):
        same(x < x, False, "irreflexive")
        for y, ky in zip(xs, ks):
            same(x == y, kx == ky, f"{x!r} == {y!r}")
            same(x != y, kx != ky, f"{x!r} != {y!r}")
            same(x < y, kx < ky, f"{x!r} < {y!r}")
            same(x > y, kx > ky, f"{x!r} > {y!r}")
            if kx == ky:
                same(hash(x), hash(y), f"hash of the equal values {x!r} and {y!r}")
    want = [xs[i] for i in sorted(range(len(xs)), key=lambda i: ks[i])]
    for how in (sorted(xs), list(Block(xs).sort()), list(Block(xs).sort_with(lambda v: v))):
        expect(all(a is b for a, b in zip(how, want)) and len(how) == len(want), "sort", how, want)
    shuffled = list(xs)
    random.Random(seed).shuffle(shuffled)
    same([x == y for x, y in zip(sorted(shuffled), want)], [True] * len(xs), "sorting any permutation gives the same list")
    same(max(xs) == want[-1] and min(xs) == want[0], True, "max and min")
    same(len(set(xs)), len(set(map(repr, map(norm, ks)))), "distinct members of a set")
    same({x: i for i, x in enumerate(xs)}[make(codes[0])], max(i for i, k in enumerate(ks) if k == ks[0]), "lookup by an equal key")
    ctx.nontrivial(len({k[0] for k in ks}) == 2 or any(ks[i] == ks[j] for i in range(len(ks)) for j in range(i)))


def norm(k: Any) -> Any:
    """Equal keys get the same text (1, True and 1.0 are equal)."""
    if isinstance(k, tuple):
        return tuple(norm(x) for x in k)
    return float(k) if isinstance(k, (int, float)) else k


def ref_eq(a: Any, b: Any) -> bool:
    """Structural equality of value codes."""
    ka, kb = a[0], b[0]
    alias = {"success": "ok", "failure": "err"}
    ka, kb = alias.get(ka, ka), alias.get(kb, kb)
    seqs = {"list", "tuple", "block"}
    if ka == "v" and kb in seqs or kb == "v" and ka in seqs:
        v, other = (a, b) if ka == "v" else (b, a)
        if type(v[1]) is {"list": list, "tuple": tuple, "block": None}[alias.get(other[0], other[0])]:
            return len(v[1]) == len(other[1]) and all(ref_eq(("v", x), y) for x, y in zip(v[1], other[1]))
        return False
    if ka != kb:
        return False
    if ka == "v":
        return bool(a[1] == b[1])
    if ka == "nothing":
        return True
    if ka in ("box", "exc"):
        return False  # separately made boxes and exceptions are never equal
    if ka in ("boom", "fn"):
        return bool(a[1] == b[1])
    if ka in ("some", "ok", "err"):
        return ref_eq(a[1], b[1])
    if ka in seqs:
        return len(a[1]) == len(b[1]) and all(ref_eq(x, y) for x, y in zip(a[1], b[1]))
    raise AssertionError(ka)


def wrap(k: str, c: Any) -> Any:
    return ("nothing",) if k == "nothing" else ("failure", ("boom", 1)) if k == "failure" else (k, c)


WRAPS = ["some", "some", "nothing", "ok", "err", "success", "failure"]


@PROPERTY.obligation(
    lambda: st.tuples(
        values(),
        st.one_of(st.none(), values()),
        st.sampled_from(WRAPS),
        st.sampled_from(WRAPS),
    ),
    quick=9000,
    shards=3,
)
def equality(case: Any, ctx: Ctx) -> None:
    """Arbitrary payloads: equal exactly when same type, same case, equal payload; never equal to the bare payload."""
    ca, cb, wa, wb = case
    if cb is None:
        cb = ca
    a, b = wrap(wa, ca), wrap(wb, cb)
    x, y = make(a), make(b)
    want = ref_eq(a, b)
    same(x == y, want, f"{x!r} == {y!r}")
    same(y == x, want, f"{y!r} == {x!r}")
    same(x != y, not want, f"{x!r} != {y!r}")
    same(x == x, True, "reflexive")
    if want:
        hx, hy = outcome(lambda: hash(x)), outcome(lambda: hash(y))
        same(hx, hy, f"hashes of equal values {x!r}, {y!r}")
        if hx[0] == "ok":
            expect(y in {x} and x in {y: 0}, "interchangeable as keys")
    payload = make(ca)
    for bare in (payload, None, 0, "", False, (), [payload], {"tag": "some", "some": payload}):
        if isinstance(bare, (Option, Result)):
            continue
        for v in (Some(payload), Ok(payload), Error(payload), Nothing, Success(payload), Failure(Boom(1))):
            same(v == bare, False, f"{v!r} == bare {bare!r}")
            same(bare == v, False, f"bare {bare!r} == {v!r}")
            same(v != bare, True, f"{v!r} != bare {bare!r}")
    same(Some(payload) == Ok(payload), False, "Some is never Ok")
    same(Ok(payload) == Error(payload), False, "Ok is never Error")
    same(Ok(payload) == Some(payload), False, "Ok is never Some")
    same(Nothing == Error(payload) or Nothing == Some(payload) or Error(None) == Nothing, False, "Nothing")
    ctx.nontrivial(want or (wa == wb and ca != cb))
