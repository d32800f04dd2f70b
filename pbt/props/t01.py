"""T01: textual and dictionary forms describe the value completely."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st
from pydantic import BaseModel

from expression import Error, Failure, Nothing, Ok, Result, Some, Success, case, result, tag, tagged_union
from expression.collections import Block, Map, Seq, TypedArray, seq

from ..core import Ctx, Property
from ..util import Boom, Box, expect

PROPERTY = Property(
    "T01",
    rule="generated nested values (options, results, tries, unions, blocks, maps, sequences, arrays, plain Python values) whose text, representation "
    "and dictionary form are computed by a reference from the generating code; non-trivial when at least two library values are nested "
    "or a collection has at least two elements",
)


@tagged_union(frozen=True)
class Shape:
    tag: str = tag()
    circle: Any = case()
    square: Any = case()
    _private: Any = case()


@tagged_union
class Loose:
    tag: str = tag()
    a: Any = case()
    b: Any = case()


class Model(BaseModel):
    n: int
    s: str = ""


class Record:
    """Has an attribute of that name which is no method."""

    dict = "words"

    def __repr__(self) -> str:
        return "Record()"


class Formed:
    """Knows its own dictionary form."""

    def __init__(self, n: Any) -> None:
        self.n = n

    def dict(self) -> Any:
        return {"formed": self.n}

    def __repr__(self) -> str:
        return f"Formed({self.n})"


ATOMS: list[Any] = [None, 0, False, "", (), 0.0, 1, True, "a", "it's", 'q"q', "a b;c, d]", (1, "x"), -1, 2.5, "\n", "é", b"b", [1, "y"], {"k": "v"}, frozenset({1}), Record(), "long " * 90, "q'" * 300, tuple(range(150)), 10**60, 1.0e-300, 0.1 + 0.2]

WRAP = {"some": Some, "ok": Ok, "err": Error, "success": Success, "failure": Failure}
UNIONS: dict[str, Any] = {
    "circle": lambda x: Shape(circle=x),
    "square": lambda x: Shape(square=x),
    "la": lambda x: Loose(a=x),
    "lb": lambda x: Loose(tag="b", b=x),
}
SEQS = ("block", "seq", "seqgen", "array")


def make(c: Any) -> Any:
    k = c[0]
    if k == "v":
        return ATOMS[c[1]]
    if k == "nothing":
        return Nothing
    if k == "box":
        return Box(c[1])
    if k == "boom":
        return Boom(c[1])
    if k == "formed":
        return Formed(c[1])
    if k == "model":
        return Model(n=c[1], s="m")
    if k in WRAP:
        return WRAP[k](make(c[1]))
    if k in UNIONS:
        return UNIONS[k](make(c[1]))
    if k == "map":
        return Map.of_seq((n, make(x)) for n, x in c[1])
    xs = [make(x) for x in c[1]]
    if k == "block":
        return Block(xs)
    if k == "seq":
        return Seq(xs)
    if k == "seqgen":
        return Seq(seq.map(lambda x: x)(xs))
    return TypedArray(xs)


def mapitems(c: Any) -> list[Any]:
    return sorted(dict(c[1]).items())


def text(c: Any) -> str:
    k = c[0]
    if k in WRAP:
        return {"some": "Some", "ok": "Ok", "err": "Error", "success": "Success", "failure": "Failure"}[k] + " " + text(c[1])
    if k == "nothing":
        return "Nothing"
    if k in UNIONS:
        return rep(c)
    if k == "block":
        return "[" + ", ".join(text(x) for x in c[1]) + "]"
    if k == "array":
        return "[|" + ", ".join(text(x) for x in c[1]) + "|]"
    if k in ("seq", "seqgen"):
        parts = [text(x) for x in c[1][:100]]
        return "[" + "; ".join(parts + ["..."] * (len(c[1]) > 100)) + "]"
    if k == "map":
        return "map [" + "; ".join((f'("{n}", ' if isinstance(n, str) else f"({n}, ") + text(x) + ")" for n, x in mapitems(c)) + "]"
    return str(make(c))


def rep(c: Any) -> str:
    k = c[0]
    if k == "some":
        return f"Option(some={rep(c[1])})"
    if k == "nothing":
        return "Option(none=None)"
    if k in ("ok", "success"):
        return f"Result(ok={rep(c[1])})"
    if k in ("err", "failure"):
        return f"Result(error={rep(c[1])})"
    if k in UNIONS:
        name = {"la": "Loose(a", "lb": "Loose(b"}.get(k, f"Shape({k}")
        return f"{name}={rep(c[1])})"
    if k in SEQS or k == "map":
        return text(c)
    return repr(make(c))




def check_dict(got: Any, c: Any, value: Any) -> None:
    """got is what dict() gave for the payload value made from code c."""
    k = c[0]
    if k == "nothing":
        expect(got is None, "Nothing is null", got)
    elif k == "some":
        check_dict(got, c[1], value.value)
    elif k in ("ok", "success"):
        expect(type(got) is dict and list(got) == ["tag", "ok"] and got["tag"] == "ok", "an ok result names its case", got)
        check_dict(got["ok"], c[1], value.ok)
    elif k in ("err", "failure"):
        expect(type(got) is dict and list(got) == ["tag", "error"] and got["tag"] == "error", "an error result names its case", got)
        check_dict(got["error"], c[1], value.error)
    elif k == "block":
        expect(type(got) is list and len(got) == len(c[1]), "a block is a list", got)
        for g, x, v in zip(got, c[1], value):
            check_dict(g, x, v)
    elif k in ("seq", "seqgen"):
        items = list(got)
        expect(len(items) == len(c[1]), "every element of a sequence", items)
        for g, x, v in zip(items, c[1], value):
            check_dict(g, x, v)
    elif k == "model":
        expect(got == {"n": c[1], "s": "m"}, "a model is its dump", got)
    elif k == "formed":
        expect(got == {"formed": c[1]}, "a payload that knows its form", got)
    else:
        expect(got is value, "any other payload is given as it is", got, value)


def codes(depth_leaves: int = 6, forms: Any = None) -> Any:
    base = st.one_of(
        st.tuples(st.just("v"), st.integers(0, len(ATOMS) - 1)),
        st.tuples(st.just("v"), st.integers(0, len(ATOMS) - 1)),
        st.just(("nothing",)),
        st.tuples(st.just("box"), st.integers(0, 2)),
        st.tuples(st.just("boom"), st.integers(0, 2)),
        st.tuples(st.just("model"), st.integers(0, 2)),
        st.tuples(st.just("formed"), st.integers(0, 2)),
    )

    def extend(inner: Any) -> Any:
        key = st.integers(-3, 5)
        skey = st.sampled_from(["", "a", "b", 'k"', "é", "ab", " a ", "A", "x\ny", "%s{}", "0"])
        one = st.tuples(st.sampled_from(["some", "some", "ok", "err", "success", *UNIONS]), inner)
        return st.one_of(
            one,
            one,
            st.tuples(st.just("failure"), st.tuples(st.just("boom"), st.integers(0, 2))),
            st.tuples(st.sampled_from(SEQS), st.lists(inner, max_size=4)),
            st.tuples(st.just("map"), st.lists(st.tuples(key, inner), max_size=4) | st.lists(st.tuples(skey, inner), max_size=4)),
        )

    return st.recursive(base, extend, max_leaves=depth_leaves)


def size(c: Any) -> int:
    if c[0] in WRAP or c[0] in UNIONS:
        return 1 + size(c[1])
    if c[0] == "map":
        return len(c[1]) + sum(size(x) for _, x in c[1])
    if c[0] in SEQS:
        return len(c[1]) + sum(size(x) for x in c[1])
    return 0


@PROPERTY.obligation(codes, quick=12000, thorough=200000, shards=3)
def texts(case: Any, ctx: Ctx) -> None:
    v = make(case)
    for _ in range(2):  # asking for it changes nothing
        expect(str(v) == text(case), "str", str(v), text(case))
        expect(f"{v}" == text(case), "format", f"{v}", text(case))
        expect(repr(v) == rep(case), "repr", repr(v), rep(case))
    if case[0] in SEQS:
        expect(len(list(v)) == len(case[1]), "still iterable")
    ctx.nontrivial(size(case) >= 2)


def many() -> Any:
    return st.tuples(st.sampled_from([*SEQS, "map"]), st.integers(90, 130) | st.integers(0, 600), codes(2))


@PROPERTY.obligation(many, quick=700, thorough=8000)
def long_ones(case: Any, ctx: Ctx) -> None:
    kind, n, item = case
    body: Any = [(i, ("v", i % len(ATOMS)) if i % 3 else item) for i in range(n)]
    code = (kind, body if kind == "map" else [x for _, x in body])
    v = make(code)
    expect(str(v) == text(code), "str of a long one", str(v)[-300:], text(code)[-300:])
    expect(repr(v) == text(code), "repr of a long one")
    if kind in ("block", "seq", "seqgen"):
        for _ in range(2):
            check_dict(v.dict(), code, v)
    ctx.nontrivial(n >= 2)


# every wrapper around every empty or one-element thing
SMALL: list[Any] = [("nothing",), *[(k, []) for k in (*SEQS, "map")], *[(k, [("nothing",)]) for k in SEQS], *[(k, [("block", [])]) for k in SEQS], ("map", [(0, ("nothing",))])]
SMALL += [(w, x) for w in ("some", "ok", "err", "success") for x in SMALL]
SMALL += [(w, x) for w in ("some", "ok", "err") for x in SMALL if x[0] in ("some", "ok", "err")]


@PROPERTY.obligation(lambda: st.one_of(codes(), codes(), st.tuples(st.sampled_from(["some", "ok", "err"]), codes(3))), quick=9000, thorough=120000, shards=2, fixed=SMALL)
def dictionaries(case: Any, ctx: Ctx) -> None:
    k = case[0]
    if k not in ("some", "nothing", "ok", "err", "success", "failure", "block", "seq", "seqgen"):
        case = ("some", case) if size(case) % 2 else ("block", [case, ("nothing",), case])
        k = case[0]
    v = make(case)
    for _ in range(2):
        check_dict(v.dict(), case, v)
    if isinstance(v, Result):
        check_dict(result.dict(v), case, v)
    ctx.nontrivial(size(case) >= 2)

