"""U02: copying and pickling preserve options, results, unions and collections."""

from __future__ import annotations

import copy
import dataclasses
import pickle
from typing import Any, Generic, Literal, TypeVar

from hypothesis import strategies as st

from expression import Failure, Nothing, Option, Result, Some, Success, Try, case, tag, tagged_union
from expression.collections import Block, Map

from .. import values as V
from ..core import Ctx, Property
from ..util import Boom, expect, outcome, same

PROPERTY = Property(
    "U02",
    rule="nested values of options, results, tries, user unions, blocks, maps and plain containers, each copied shallowly, deeply "
    "and through every pickle protocol; non-trivial when the value nests at least two library types",
    assumptions=["payload classes are themselves copyable and picklable; user unions live at module level"],
)

_T = TypeVar("_T")


@tagged_union(frozen=True, order=True)
class Frozen:
    tag: Literal["leaf", "node", "empty"] = tag()
    leaf: Any = case()
    node: Any = case()
    empty: None = case()


@tagged_union
class Open(Generic[_T]):
    left: Any = case()
    right: Any = case()
    tag: Literal["left", "right"] = tag()

    def swap(self) -> Any:
        return Open(right=self.left) if self.tag == "left" else Open(left=self.right)


class Derived(Frozen):
    def size(self) -> int:
        return 1


UNIONS: dict[str, Any] = {"frozen": Frozen, "open": Open, "derived": Derived}


def make(code: Any) -> Any:
    k = code[0]
    if k in UNIONS:
        return UNIONS[k](**{code[1]: make(code[2])})
    if k in ("some", "ok", "err", "success"):
        return V.make((k, ("v", None))).__class__(**{{"some": "some", "ok": "ok", "err": "error", "success": "ok"}[k]: make(code[1])})
    if k == "list":
        return [make(c) for c in code[1]]
    if k == "tuple":
        return tuple(make(c) for c in code[1])
    if k == "dict":
        return {n: make(c) for n, c in code[1]}
    if k == "block":
        return Block([make(c) for c in code[1]])
    if k == "map":
        return Map.of_seq([(n, make(c)) for n, c in code[1]])
    if k == "twin":  # one object in two places
        x = make(code[1])
        return Block([x, Some(x)])
    return V.make(code)


def codes() -> Any:
    base = st.one_of(V.atoms(False), V.atoms(True), st.just(("nothing",)), st.tuples(st.just("failure"), st.tuples(st.just("boom"), st.integers(0, 2))))

    def extend(inner: Any) -> Any:
        kv = st.lists(st.tuples(st.integers(0, 4), inner), max_size=3)
        return st.one_of(
            st.tuples(st.sampled_from(["some", "ok", "err", "success"]), inner),
            st.tuples(st.just("frozen"), st.sampled_from(["leaf", "node"]), inner),
            st.tuples(st.just("derived"), st.sampled_from(["leaf", "node"]), inner),
            st.tuples(st.just("open"), st.sampled_from(["left", "right"]), inner),
            st.tuples(st.sampled_from(["tuple", "list", "block", "block"]), st.lists(inner, max_size=3)),
            st.tuples(st.sampled_from(["map", "map", "dict"]), kv),
            st.tuples(st.just("twin"), inner),
        )

    top = st.recursive(base, extend, max_leaves=6)
    return st.one_of(extend(top), top)


def shape(v: Any) -> Any:
    """Everything observable about a value, as plain data with class names."""
    if dataclasses.is_dataclass(v):
        return (type(v).__name__, v.tag, shape(getattr(v, v.tag)), tuple(sorted(f.name for f in dataclasses.fields(v))), repr(v), str(v))
    if isinstance(v, Block):
        return ("Block", len(v), [shape(x) for x in v])
    if isinstance(v, Map):
        return ("Map", len(v), [(shape(k), shape(x)) for k, x in v.items()], [shape(v[k]) for k in v])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [shape(x) for x in v])
    if isinstance(v, dict):
        return ("dict", [(shape(k), shape(x)) for k, x in v.items()])
    if isinstance(v, Boom):
        return ("Boom", v.tag)
    return (type(v).__name__, v)


def mutables(v: Any, out: list[Any]) -> list[Any]:
    """The mutable plain containers reachable from v."""
    if dataclasses.is_dataclass(v):
        mutables(getattr(v, v.tag), out)
    elif isinstance(v, (Block, tuple)):
        for x in v:
            mutables(x, out)
    elif isinstance(v, list):
        out.append(v)
        for x in v:
            mutables(x, out)
    elif isinstance(v, dict):
        out.append(v)
        for x in v.values():
            mutables(x, out)
    elif isinstance(v, Map):
        for _, x in v.items():
            mutables(x, out)
    elif isinstance(v, Boom):
        out.append(v)
    return out


def parts(v: Any) -> list[Any]:
    """Immediate contents."""
    if dataclasses.is_dataclass(v):
        return [getattr(v, v.tag)]
    if isinstance(v, Map):
        return [x for _, x in v.items()]
    if isinstance(v, dict):
        return list(v.values())
    return list(v) if isinstance(v, (Block, list, tuple)) else []


def alias_pattern(v: Any) -> list[int]:
    """Which mutable parts are the same object, in traversal order."""
    seen: dict[int, int] = {}
    return [seen.setdefault(id(m), len(seen)) for m in mutables(v, [])]


def usable(c: Any, v: Any) -> None:
    """The copy answers the class's own operations as the original does."""
    if isinstance(v, Option):
        same(shape(c.map(lambda x: (x, 1))), shape(v.map(lambda x: (x, 1))), "map on the copy")
        same(c.is_some(), v.is_some(), "is_some")
        same(shape(c.to_list()), shape(v.to_list()), "to_list")
        same(c < v or v < c, False, "the copy is not ordered before or after") if _ordered(v) else None
    elif isinstance(v, Result):
        same(shape(c.map(lambda x: (x, 1))), shape(v.map(lambda x: (x, 1))), "map on the copy")
        same(shape(c.swap()), shape(v.swap()), "swap on the copy")
        expect(isinstance(c, Try) == isinstance(v, Try), "try-ness")
    elif isinstance(v, Block):
        same(shape(c.cons(0)), shape(v.cons(0)), "cons on the copy")
        same(shape(c.skip(1)), shape(v.skip(1)), "skip on the copy")
    elif isinstance(v, Map):
        same(shape(c.add(99, 1)), shape(v.add(99, 1)), "add on the copy")
        same(shape(c.remove(1)), shape(v.remove(1)), "remove on the copy")
    elif isinstance(v, Open):
        same(shape(c.swap()), shape(v.swap()), "method of the copy")
    if isinstance(v, (Option, Result, Frozen)):
        for n in ("tag", v.tag):
            same(outcome(lambda: setattr(c, n, None)), ("exc", TypeError), f"the copy is frozen ({n})")  # noqa: B023
            same(outcome(lambda: delattr(c, n)), ("exc", TypeError), f"the copy is frozen ({n})")  # noqa: B023


def _ordered(v: Any) -> bool:
    return outcome(lambda: v < v)[0] == "ok"


LIB = {"some", "nothing", "ok", "err", "success", "failure", "frozen", "open", "derived", "block", "map", "twin"}


def lib_count(code: Any) -> int:
    if not isinstance(code, (tuple, list)):
        return 0
    n = 1 if isinstance(code, tuple) and code and isinstance(code[0], str) and code[0] in LIB else 0
    if isinstance(code, tuple) and code and code[0] == "v":
        return 0
    return n + sum(lib_count(c) for c in code)


def check_copy(v: Any, c: Any, what: str) -> None:
    expect(type(c) is type(v), f"{what}: class", type(c), type(v))
    same(c == v, True, f"{what}: copy equals the original ({c!r} / {v!r})")
    same(v == c, True, f"{what}: original equals the copy")
    same(shape(c), shape(v), f"{what}: observable content")
    hv = outcome(lambda: hash(v))
    if hv[0] == "ok" and not isinstance(v, Open) and "open" not in repr(v).lower():
        same(outcome(lambda: hash(c)), hv, f"{what}: hash")
    usable(c, v)


@PROPERTY.obligation(codes, quick=7000, shards=6)
def copies(case_: Any, ctx: Ctx) -> None:
    v = make(case_)
    before = shape(v)
    s = copy.copy(v)
    check_copy(v, s, "shallow copy")
    expect(all(x is y for x, y in zip(parts(s), parts(v))) and len(parts(s)) == len(parts(v)), "a shallow copy shares the contents", v)
    d = copy.deepcopy(v)
    check_copy(v, d, "deep copy")
    mine = {id(m) for m in mutables(v, [])}
    expect(not any(id(m) in mine for m in mutables(d, [])), "a deep copy shares no mutable part", v)
    same(alias_pattern(d), alias_pattern(v), "a deep copy keeps what is shared inside")
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        p = pickle.loads(pickle.dumps(v, proto))
        check_copy(v, p, f"pickle protocol {proto}")
        expect(not any(id(m) in mine for m in mutables(p, [])), "an unpickled value shares no mutable part", v)
    check_copy(v, copy.copy(copy.deepcopy(pickle.loads(pickle.dumps(s)))), "copy of a copy")
    for m in mutables(d, []):  # changing the deep copy leaves the original alone
        if isinstance(m, list):
            m.append("changed")
        elif isinstance(m, dict):
            m["changed"] = 1
    same(shape(v), before, "the original afterwards")
    ctx.nontrivial(lib_count(case_) >= 2)


@PROPERTY.obligation(lambda: st.tuples(st.integers(100, 3000), st.integers(0, 5)), quick=12, thorough=300)
def large_collections(case_: Any, ctx: Ctx) -> None:
    """Thousands of elements survive every kind of copy."""
    n, proto = case_
    for v in (Block(range(n)), Map.of_seq([(i * 7 % n, [i]) for i in range(n)]), Some(Block([Some(i) if i % 3 else Nothing for i in range(n)]))):
        for c in (copy.copy(v), copy.deepcopy(v), pickle.loads(pickle.dumps(v, proto))):
            expect(type(c) is type(v), "class")
            same(c == v, True, "equality")
            same(shape(c), shape(v), "content")
    same(pickle.loads(pickle.dumps([Success(1), Failure(Boom(2))], proto)), [Success(1), Failure(Boom(2))], "tries")
    ctx.nontrivial(True)
