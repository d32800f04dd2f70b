"""U01: a tagged union holds exactly one declared case, immutably when frozen."""

from __future__ import annotations

import dataclasses
import functools
from typing import Any, Literal

from hypothesis import strategies as st

from expression import case, tag, tagged_union

from ..core import Ctx, Property
from ..util import expect, outcome, same
from ..values import make, values

PROPERTY = Property(
    "U01",
    rule="random union declarations (1-5 cases, tag field anywhere, frozen/order/repr/eq options, optionally subclassed) and 2-6 "
    "construction attempts each (right and wrong names, tags, numbers of cases), all instances re-observed at the end; "
    "non-trivial when the union has at least two cases and at least two attempts of different cases succeeded",
    assumptions=["unions declare a tag field; payload comparison is total where ordering is checked"],
)

NAMES = ["a", "b", "c", "d", "e"]
# many cases, names that are prefixes of each other, look like internals or differ only in case
MANY = ["rect", "rectangle", "Rect", "circle", "value", "name", "kind", "index", "case", "data", "none", "some", "tags", "_t", "ok2", "ok10", "fields", "cls"]


def declare(decl: Any) -> tuple[Any, Any]:
    """(decorated class, class to instantiate)"""
    names, tagpos, frozen, order, rep, eq, sub, how = decl
    ns: dict[str, Any] = {"__annotations__": {}, "__module__": __name__, "__qualname__": "U"}
    fields_ = list(names)
    fields_.insert(tagpos % (len(names) + 1), "tag")
    for n in fields_:
        ns["__annotations__"][n] = Literal[tuple(names)] if n == "tag" else object
        ns[n] = tag() if n == "tag" else case()
    raw = type("U", (), ns)
    if how == "bare" and not (frozen or order) and rep and eq:
        cls = tagged_union(raw)
    else:
        cls = tagged_union(frozen=frozen, order=order, repr=rep, eq=eq)(raw)
    if sub:
        return cls, type("V", (cls,), {"__module__": __name__, "extra": lambda self: self.tag})
    return cls, cls


def declarations(order_only: bool = False) -> Any:
    b = st.booleans()
    return st.tuples(
        st.one_of(
            st.permutations(NAMES).flatmap(lambda p: st.integers(1, 5).map(lambda n: tuple(p[:n]))),
            st.permutations(NAMES).flatmap(lambda p: st.integers(1, 5).map(lambda n: tuple(p[:n]))),
            st.permutations(MANY).flatmap(lambda p: st.integers(1, len(MANY)).map(lambda n: tuple(p[:n]))),
        ),
        st.integers(0, 5),
        st.sampled_from([True, True, False]),
        st.just(True) if order_only else b,
        st.sampled_from([True, True, True, False]),
        st.sampled_from([True, True, True, False]) if not order_only else st.just(True),
        st.sampled_from([False, False, False, True]),
        st.sampled_from(["bare", "call"]),
    )


@functools.cache
def matchers(names: tuple[str, ...]) -> Any:
    """Functions trying one case pattern each, with and without the tag."""
    src = "def tagged(C, u, out):\n" + "".join(f"    match u:\n        case C(tag={n!r}, {n}=x):\n            out.append(({n!r}, x))\n" for n in names)
    src += "def bare(C, u, out):\n" + "".join(f"    match u:\n        case C({n}=x):\n            out.append(({n!r}, x))\n" for n in names)
    ns: dict[str, Any] = {}
    exec(src, ns)  # noqa: S102
    return ns["tagged"], ns["bare"]


def matched(C: Any, u: Any, names: tuple[str, ...]) -> list[tuple[str, Any]]:
    """Every case pattern that matches u, with the payload it captures."""
    out: list[tuple[str, Any]] = []
    bare: list[tuple[str, Any]] = []
    f, g = matchers(tuple(sorted({*names, *NAMES})))
    f(C, u, out)
    g(C, u, bare)
    expect([n for n, _ in out] == [n for n, _ in bare], "patterns with and without the tag agree", out, bare)
    return out


def check_value(D: Any, C: Any, u: Any, decl: Any, name: str, payload: Any, plain: bool) -> None:
    names, _, frozen, order, rep, eq, sub, how = decl
    expect(type(u) is C and isinstance(u, D), "class", type(u))
    same(u.tag, name, "tag")
    expect(getattr(u, name) is payload, "payload", getattr(u, name), payload)
    hits = matched(D, u, names)
    expect(len(hits) == 1 and hits[0][0] == name and hits[0][1] is payload, "pattern matching", hits)
    if rep:
        expect(repr(u) in (f"U({name}={payload!r})", f"{C.__name__}({name}={payload!r})"), "repr", repr(u))
    if plain:
        same(dataclasses.asdict(u) == {"tag": name, name: payload}, True, f"asdict {dataclasses.asdict(u)!r}")
    same(sorted(f.name for f in dataclasses.fields(u)), sorted(["tag", name]), "dataclass fields")
    same(u == u, True, "reflexive")


def freeze_check(u: Any, decl: Any, name: str, payload: Any) -> None:
    for n in (*decl[0], "tag"):
        for v in (payload, None, name, "zzz"):
            same(outcome(lambda: setattr(u, n, v)), ("exc", TypeError), f"assigning {n}")  # noqa: B023
        same(outcome(lambda: delattr(u, n)), ("exc", TypeError), f"deleting {n}")  # noqa: B023
    same(u.tag, name, "tag after rejected assignment")
    expect(getattr(u, name) is payload, "payload after rejected assignment")


def attempts() -> Any:
    return st.lists(
        st.tuples(
            st.one_of(
                st.lists(st.integers(0, 4), min_size=1, max_size=1),
                st.lists(st.integers(0, 17), min_size=1, max_size=1),
                st.lists(st.integers(0, 4) | st.sampled_from([100, 101]), max_size=3, unique=True),
            ).map(tuple),
            st.sampled_from(["no", "no", "right", "right", "none", "other", "unknown", "empty", "positional"]),
            values(opaque=True),
        ),
        min_size=2,
        max_size=6,
    )


@PROPERTY.obligation(lambda: st.tuples(declarations(), attempts()), quick=7000, shards=5)
def construction(case_: Any, ctx: Ctx) -> None:
    decl, tries = case_
    names = decl[0]
    D, C = declare(decl)
    alive: list[tuple[Any, str, Any, bool]] = []
    for idxs, tagged, code in tries:
        # positions beyond the declared cases become unknown names; 100 and 101 always are
        chosen = [names[i] if i < len(names) else f"x{i}" for i in idxs]
        if len(idxs) == 1 and idxs[0] < 100:
            chosen = [names[idxs[0] % len(names)]]
        payload = make(code)
        kw = {n: payload for n in chosen}
        ok = len(chosen) == 1 and chosen[0] in names
        args: tuple[Any, ...] = ()
        if tagged == "right" and chosen:
            kw["tag"] = chosen[0]
        elif tagged == "none":
            kw["tag"] = None
        elif tagged == "other":
            others = [n for n in (*names, "q") if n not in chosen]
            kw["tag"] = others[0]
            ok = False
        elif tagged == "unknown":
            kw["tag"], ok = "tag", False
        elif tagged == "empty":
            kw["tag"], ok = "", False
        elif tagged == "positional":
            args, ok = (payload,), False
        got = outcome(lambda: C(*args, **kw))  # noqa: B023
        if not ok:
            same(got, ("exc", TypeError), f"construction with {args!r} {kw!r} for cases {names}")
            continue
        expect(got[0] == "ok", "construction was rejected", got, kw)
        alive.append((got[1], chosen[0], payload, code[0] == "v"))
        check_value(D, C, got[1], decl, chosen[0], payload, code[0] == "v")
        if decl[2]:
            freeze_check(got[1], decl, chosen[0], payload)
    for u, n, p, plain in alive:
        check_value(D, C, u, decl, n, p, plain)
    if decl[2] and decl[5]:
        for u, n, p, _ in alive:
            h = outcome(lambda: hash(p))  # noqa: B023
            same(outcome(lambda: hash(u))[0], h[0], "hashable exactly when the payload is")  # noqa: B023
    ctx.nontrivial(len(names) >= 2 and len({n for _, n, _, _ in alive}) >= 2)


def atom_codes() -> Any:
    return st.one_of(st.integers(-1, 2), st.booleans(), st.sampled_from([0.0, 1.0]))


@PROPERTY.obligation(
    lambda: st.tuples(declarations(True), declarations(True), st.lists(st.tuples(st.integers(0, 4) | st.integers(0, 17), atom_codes()), min_size=2, max_size=6)),
    quick=5000,
    shards=3,
)
def comparison(case_: Any, ctx: Ctx) -> None:
    """Equality, hash and order are by case in declaration order, then payload."""
    decl, decl2, items = case_
    names = decl[0]
    D, C = declare(decl)
    D2, C2 = declare(decl2)
    us = [C(**{names[i % len(names)]: v}) for i, v in items]
    ks = [(i % len(names), v) for i, v in items]
    for u, k in zip(us, ks):
        for v, q in zip(us, ks):
            same(u == v, k == q, f"{u!r} == {v!r}")
            same(u != v, k != q, f"{u!r} != {v!r}")
            same(u < v, k < q, f"{u!r} < {v!r} with cases {names}")
            same(u > v, k > q, f"{u!r} > {v!r} with cases {names}")
            if k == q and decl[2]:
                same(hash(u), hash(v), "hash of equal values")
        w = C2(**{decl2[0][0]: k[1]})
        same(u == w, False, "values of different unions are never equal")
        same(w == u, False, "values of different unions are never equal")
        same(u == k[1], False, "never equal to the payload")
        same(outcome(lambda: u < k[1])[0], "exc", "not ordered with other types")  # noqa: B023
    want = [us[i] for i in sorted(range(len(us)), key=lambda i: ks[i])]
    got = sorted(us)
    expect(all(a is b for a, b in zip(got, want)), "sort", got, want)
    del D, D2
    ctx.nontrivial(len(names) >= 2 and len({k[0] for k in ks}) >= 2)


class Mirror:
    """Compares from the right-hand side."""

    def __eq__(self, other: Any) -> Any:
        return "eq"

    def __gt__(self, other: Any) -> Any:
        return "gt"

    def __lt__(self, other: Any) -> Any:
        return "lt"

    __hash__ = None  # type: ignore


@PROPERTY.obligation(
    lambda: st.tuples(declarations(), st.booleans(), st.lists(st.tuples(st.integers(0, 4) | st.integers(0, 17), atom_codes(), atom_codes()), min_size=2, max_size=5)),
    quick=2500,
    shards=2,
)
def options(case_: Any, ctx: Ctx) -> None:
    """The decorator generates exactly what it was asked to generate and keeps what the class says."""
    decl, own, items = case_
    names, tagpos, frozen, order, rep, eq, _, _ = decl
    ns: dict[str, Any] = {"__annotations__": {}, "__module__": __name__, "__qualname__": "U"}
    fields_ = list(names)
    fields_.insert(tagpos % (len(names) + 1), "tag")
    for n in fields_:
        ns["__annotations__"][n] = Literal[tuple(names)] if n == "tag" else object
        ns[n] = tag() if n == "tag" else case()
    if own:
        if not rep:
            ns["__repr__"] = lambda self: f"<{self.tag}>"
        if not eq:
            ns["__eq__"] = lambda self, other: type(other) is type(self) and self.tag == other.tag
            ns["__hash__"] = lambda self: hash(self.tag)
        if not order:
            ns["__lt__"] = lambda self, other: (self.tag, 0) < (other.tag, 0)
    ns["title"] = lambda self: f"{self.tag}!"
    ns["payload"] = property(lambda self: getattr(self, self.tag))
    ns["of"] = classmethod(lambda cls, n, v: cls(**{n: v}))
    ns["fresh"] = staticmethod(lambda v: v)
    U = tagged_union(frozen=frozen, order=order, repr=rep, eq=eq)(type("U", (), ns))
    ks = [(names[i % len(names)], v) for i, v, _ in items]
    us = [U.of(n, v) for n, v in ks]
    for u, (n, v), (_, _, new) in zip(us, ks, items):
        same(u.title(), f"{n}!", "methods of the class")
        expect(u.payload is v and U.fresh(v) is v, "properties of the class")
        if rep:
            same(repr(u), f"U({n}={v!r})", "generated repr")
        elif own:
            same(repr(u), f"<{n}>", "the class's own repr")
        else:
            same(repr(u), object.__repr__(u), "no repr generated")
        for w, (m, x) in zip(us, ks):
            want = (n == m and v == x) if eq else (n == m) if own else u is w
            same(u == w, want, "equality as asked for")
            same(u != w, not want, "inequality as asked for")
            if order:
                same(u < w, (names.index(n), v) < (names.index(m), x), "generated order")
            elif own:
                same(u < w, n < m, "the class's own order")
            else:
                same(outcome(lambda: u < w), ("exc", TypeError), "no order generated")  # noqa: B023
        if order:
            same(u < Mirror(), "gt", "the other operand decides when the union does not know it")
        if frozen:
            same(outcome(lambda: setattr(u, n, new)), ("exc", TypeError), "frozen")  # noqa: B023
            expect(getattr(u, n) is v, "payload")
    if not frozen:
        for u, (n, _), (_, _, new) in zip(us, ks, items):
            setattr(u, n, new)
        for u, (n, _), (_, _, new) in zip(us, ks, items):
            expect(getattr(u, n) is new and u.tag == n, "assigned payload", getattr(u, n), new)
            same(sorted(dataclasses.asdict(u).items()), sorted({"tag": n, n: new}.items()), "asdict after assignment")
            if eq:
                same(u == U.of(n, new), True, "equality after assignment")
    ctx.nontrivial(len(names) >= 2 and len({k[0] for k in ks}) >= 2)
