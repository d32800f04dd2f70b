"""J01: models containing options, results and blocks round-trip through JSON."""

from __future__ import annotations

import datetime
import json
from typing import Annotated, Any, Literal, Optional

import pydantic
from hypothesis import strategies as st

from expression import Error, Nothing, Ok, Option, Result, Some, option, result
from expression.collections import Block, block

from ..core import Ctx, Property
from ..util import expect, same

PROPERTY = Property(
    "J01",
    rule="generated pydantic models (fields of option, result, block, list, dict, nested model and plain types, nested up to four deep) "
    "with generated values; non-trivial when an option, result or block contains another of them or a model",
    assumptions=[
        "Some of a payload whose own representation is null is not generated (null means Nothing)",
        "inside an option, result or block the payload is a library type, a model or a plain JSON-representable value",
    ],
)

LEAVES: dict[str, Any] = {
    "int": int,
    "str": str,
    "bool": bool,
    "float": float,
    "date": datetime.date,
    "ints": list[int],
    "maybe": Optional[int],  # noqa: UP007, UP045
    "pos": Annotated[int, pydantic.Field(gt=0)],
    "lit": Literal["a", "b"],
    "any": Any,
}
plain_any = st.recursive(
    st.one_of(st.none(), st.integers(-5, 5), st.text("ab", max_size=2), st.booleans()),
    lambda i: st.one_of(st.lists(i, max_size=2), st.dictionaries(st.sampled_from(["k", "ok", "error", "some", "tag"]), i, max_size=2)),
    max_leaves=3,
)
VALUES: dict[str, Any] = {
    "int": st.integers(-(2**40), 2**40),
    "str": st.one_of(st.text(max_size=5).filter(lambda s: s.isprintable()), st.sampled_from(["", "null", "None", "1", "ok", "some"])),
    "bool": st.booleans(),
    "float": st.one_of(st.floats(allow_nan=False, allow_infinity=False, width=32), st.sampled_from([0.0, 1.0, -2.0])),
    "date": st.dates(datetime.date(1970, 1, 1), datetime.date(2100, 1, 1)).map(lambda d: d.isoformat()),
    "ints": st.lists(st.integers(-5, 5), max_size=3),
    "maybe": st.one_of(st.none(), st.integers(-5, 5)),
    "pos": st.integers(1, 50),
    "lit": st.sampled_from(["a", "b"]),
    "any": plain_any,
}
BAD: dict[str, Any] = {
    "int": ["x!", [], {}, 1.5],
    "str": [5, [], {}, True],
    "bool": ["x!", 7, []],
    "float": ["x!", [], {}],
    "date": ["x!", [], {}],
    "ints": ["x!", 5, ["x!"], [[1]]],
    "maybe": ["x!", [], 1.5],
    "pos": [0, -3, "x!"],
    "lit": ["c", 1, []],
}


# types: ("leaf", name) | ("opt"|"block"|"list"|"dict", T) | ("res", T, E) | ("model", ((name, T), ...))
#        | ("bare_opt",) | ("bare_res",) | ("bare_block",)
def types(depth: int, field: bool = True) -> Any:
    leaf = st.tuples(st.just("leaf"), st.sampled_from([k for k in LEAVES if k != "any"]))
    bare = st.sampled_from([("bare_opt",), ("bare_res",), ("bare_block",)])
    if depth == 0:
        return st.one_of(leaf, leaf, bare)
    sub = st.deferred(lambda: types(depth - 1, False))
    alts = [
        leaf,
        bare,
        st.tuples(st.just("opt"), sub),
        st.tuples(st.just("opt"), sub),
        st.tuples(st.just("block"), sub),
        st.tuples(st.just("res"), sub, sub),
        st.tuples(st.just("res"), sub, sub),
        st.deferred(lambda: model_types(depth - 1)),
    ]
    if field:
        fsub = st.deferred(lambda: types(depth - 1, True))
        alts += [st.tuples(st.just("list"), fsub), st.tuples(st.just("dict"), fsub)]
    return st.one_of(alts)


def model_types(depth: int) -> Any:
    return st.lists(types(depth, True), min_size=1, max_size=3).map(lambda ts: ("model", tuple((f"f{i}", t) for i, t in enumerate(ts))))


def py_type(t: Any) -> Any:
    k = t[0]
    if k == "leaf":
        return LEAVES[t[1]]
    if k == "opt":
        return Option[py_type(t[1])]
    if k == "block":
        return Block[py_type(t[1])]
    if k == "list":
        return list[py_type(t[1])]
    if k == "dict":
        return dict[str, py_type(t[1])]
    if k == "res":
        return Result[py_type(t[1]), py_type(t[2])]
    if k == "bare_opt":
        return Option
    if k == "bare_res":
        return Result
    if k == "bare_block":
        return Block
    return pydantic.create_model("M", **{n: (py_type(ft), ...) for n, ft in t[1]})


@st.composite
def value_of(draw: Any, t: Any) -> Any:
    """Value codes: None for Nothing is ("none",); Some -> ("some", code)..."""
    k = t[0]
    if k == "leaf":
        return draw(VALUES[t[1]])
    if k in ("opt", "bare_opt"):
        if draw(st.integers(0, 3)) == 0:
            return ("none",)
        inner_t = t[1] if k == "opt" else ("leaf", "any")
        inner = draw(value_of(inner_t))
        return ("none",) if dump(inner_t, inner, True) is None else ("some", inner)
    if k in ("block", "bare_block", "list"):
        inner_t = ("leaf", "any") if k == "bare_block" else t[1]
        return tuple(draw(st.lists(value_of(inner_t), max_size=3)))
    if k == "dict":
        return tuple(draw(st.lists(st.tuples(st.sampled_from("pq"), value_of(t[1])), max_size=2, unique_by=lambda p: p[0])))
    if k in ("res", "bare_res"):
        tag = draw(st.sampled_from(["ok", "error"]))
        inner_t = ("leaf", "any") if k == "bare_res" else t[1 if tag == "ok" else 2]
        return (tag, draw(value_of(inner_t)))
    return tuple((n, draw(value_of(ft))) for n, ft in t[1])


def build(t: Any, c: Any, tp: Any) -> Any:
    """The library value for a code; `tp` is the python type made for t (models must be the same class)."""
    k = t[0]
    if k == "leaf":
        return datetime.date.fromisoformat(c) if t[1] == "date" else c
    args = getattr(tp, "__args__", (Any, Any))
    any_ = ("leaf", "any")
    if k in ("opt", "bare_opt"):
        return Nothing if c[0] == "none" else Some(build(t[1] if k == "opt" else any_, c[1], args[0]))
    if k in ("block", "bare_block"):
        return Block([build(t[1] if k == "block" else any_, x, args[0]) for x in c])
    if k == "list":
        return [build(t[1], x, args[0]) for x in c]
    if k == "dict":
        return {n: build(t[1], x, args[1]) for n, x in c}
    if k in ("res", "bare_res"):
        i = 0 if c[0] == "ok" else 1
        inner = build(t[1 + i] if k == "res" else any_, c[1], args[i])
        return Ok(inner) if i == 0 else Error(inner)
    return tp(**{n: build(ft, x, tp.model_fields[n].annotation) for (n, ft), (_, x) in zip(t[1], c)})


def dump(t: Any, c: Any, js: bool, lax: bool = False) -> Any:
    """The reference representation (js: as JSON data; lax: leaves in another convertible form)."""
    k = t[0]
    if k == "leaf":
        if t[1] == "date":
            return c if js or lax else datetime.date.fromisoformat(c)
        if lax and t[1] in ("int", "pos"):
            return str(c)
        if lax and t[1] == "float":
            return int(c) if c == int(c) and abs(c) < 1e6 and repr(c) != "-0.0" else repr(c)
        if lax and t[1] == "ints":
            return [str(x) for x in c]
        if lax and t[1] == "bool":
            return "true" if c else "false"
        return c
    any_ = ("leaf", "any")
    if k in ("opt", "bare_opt"):
        return None if c[0] == "none" else dump(t[1] if k == "opt" else any_, c[1], js, lax)
    if k in ("block", "bare_block", "list"):
        return [dump(any_ if k == "bare_block" else t[1], x, js, lax) for x in c]
    if k == "dict":
        return {n: dump(t[1], x, js, lax) for n, x in c}
    if k in ("res", "bare_res"):
        i = 0 if c[0] == "ok" else 1
        return {"tag": c[0], c[0]: dump(t[1 + i] if k == "res" else any_, c[1], js, lax)}
    return {n: dump(ft, x, js, lax) for (n, ft), (_, x) in zip(t[1], c)}


def unfit(t: Any, c: Any, js: bool) -> list[Any]:
    """Every way of spoiling exactly one place: the spoilt data, lazily small (list of thunks)."""
    k = t[0]
    out: list[Any] = []
    if k == "leaf":
        return list(BAD.get(t[1], []))
    if k == "opt":
        if c[0] == "none":
            return []
        return [b for b in unfit(t[1], c[1], js) if b is not None]
    if k in ("block", "list"):
        for i, x in enumerate(c):
            for b in unfit(t[1], x, js):
                d = dump(t, c, js)
                d[i] = b
                out.append(d)
        out.append(5)
        return out
    if k == "bare_block":
        return [5, True]
    if k == "dict":
        for n, x in c:
            for b in unfit(t[1], x, js):
                out.append({**dump(t, c, js), n: b})
        return [*out, 5]
    if k in ("res", "bare_res"):
        if k == "res":
            i = 0 if c[0] == "ok" else 1
            out = [{"tag": c[0], c[0]: b} for b in unfit(t[1 + i], c[1], js)]
        out += [{}, {"tag": c[0]}, "x!", 5]
        if js:
            out += [{"tag": "nope", c[0]: dump(t, c, js)[c[0]]}, {c[0]: dump(t, c, js)[c[0]]}, []]
        return out
    if k == "model":
        d = dump(t, c, js)
        for (n, ft), (_, x) in zip(t[1], c):
            for b in unfit(ft, x, js):
                out.append({**d, n: b})
            if n == "f0":
                out.append({m: v for m, v in d.items() if m != n})
        return [*out, 5]
    return []


def shape(v: Any) -> Any:
    if isinstance(v, pydantic.BaseModel):
        return ("model", {n: shape(getattr(v, n)) for n in type(v).model_fields})
    if isinstance(v, Option):
        return ("nothing",) if v.is_none() else ("some", shape(v.value))
    if isinstance(v, Result):
        return ("ok", shape(v.ok)) if v.tag == "ok" else ("error", shape(v.error))
    if isinstance(v, Block):
        return ("block", [shape(x) for x in v])
    if isinstance(v, list):
        return [shape(x) for x in v]
    if isinstance(v, dict):
        return {k: shape(x) for k, x in v.items()}
    return v


WRAP = {"opt", "res", "block"}


def nested(t: Any, inside: bool = False) -> bool:
    if t[0] in WRAP | {"bare_opt", "bare_res", "bare_block"} and inside:
        return True
    if t[0] == "model":
        return inside or any(nested(ft) for _, ft in t[1])
    if t[0] == "leaf":
        return False
    return any(nested(x, inside or t[0] in WRAP) for x in t[1:])


def cases(depth: int) -> Any:
    return model_types(depth).flatmap(lambda t: st.tuples(st.just(t), value_of(t)))


def rejected(fn: Any, what: str) -> None:
    try:
        got = fn()
    except pydantic.ValidationError:
        return
    expect(False, f"{what}: accepted or wrong error", got)


@PROPERTY.obligation(lambda: cases(3), quick=1600, thorough=40000, shards=6)
def roundtrip(case: Any, ctx: Ctx) -> None:
    t, c = case
    tp = py_type(t)
    m = build(t, c, tp)
    want = shape(m)
    same({n: shape(getattr(m, n)) for n in tp.model_fields}, want[1], "the model keeps what it was given")
    d = m.model_dump()
    same(d, dump(t, c, False), "dictionary dump")
    text = m.model_dump_json()
    same(json.loads(text), dump(t, c, True), "JSON dump")
    same(m.model_dump(mode="json"), dump(t, c, True), "JSON-mode dump")
    for what, back in (("dictionary", tp.model_validate(d)), ("JSON", tp.model_validate_json(text)), ("JSON data", tp.model_validate(dump(t, c, True)))):
        same(shape(back), want, f"validated from its {what}")
        same((back == m, m == back), (True, True), f"equal after the {what} round trip")
        same(back.model_dump_json(), text, "second dump")
    # the library types' own representation
    for (n, ft), (_, x) in zip(t[1], c):
        v = getattr(m, n)
        if ft[0] in ("opt", "bare_opt"):
            same(v.dict(), dump(ft, x, False), "Option.dict")
            same(option.model_dump(v), dump(ft, x, False), "option.model_dump")
        elif ft[0] in ("res", "bare_res"):
            same(v.dict(), dump(ft, x, False), "Result.dict")
            same(result.dict(v), dump(ft, x, False), "result.dict")
        elif ft[0] in ("block", "bare_block"):
            same(v.dict(), dump(ft, x, False), "Block.dict")
            same(block.dict(v), dump(ft, x, False), "block.dict")
    same(shape(m), want, "dumping does not change the model")
    ctx.nontrivial(nested(t))
    for k in WRAP:
        if any(ft[0] == k for _, ft in t[1]):
            ctx.label(f"field:{k}")


@PROPERTY.obligation(lambda: cases(2), quick=600, thorough=15000, shards=3)
def convertible(case: Any, ctx: Ctx) -> None:
    """Payloads given in another accepted form come out as the declared type."""
    t, c = case
    tp = py_type(t)
    want = shape(build(t, c, tp))
    lax = dump(t, c, True, True)
    same(shape(tp.model_validate(lax)), want, "converted from python data")
    same(shape(tp.model_validate_json(json.dumps(lax))), want, "converted from JSON")
    ctx.nontrivial(nested(t) and lax != dump(t, c, True))


@PROPERTY.obligation(lambda: st.tuples(cases(2), st.integers(0, 10**6)), quick=1200, thorough=30000, shards=4)
def unfit_data(case: Any, ctx: Ctx) -> None:
    """One spoilt place anywhere makes validation fail with pydantic's error."""
    (t, c), pick = case
    tp = py_type(t)
    for js in (False, True):
        bad = unfit(t, c, js)
        if not bad:
            continue
        for i in range(min(6, len(bad))):
            data = bad[(pick + i * 7919) % len(bad)]
            if js:
                rejected(lambda: tp.model_validate_json(json.dumps(data)), f"JSON {data!r} for {t!r}")  # noqa: B023
            else:
                rejected(lambda: tp.model_validate(data), f"data {data!r} for {t!r}")  # noqa: B023
        ctx.nontrivial(nested(t))
    same(shape(tp.model_validate(dump(t, c, False))), shape(build(t, c, tp)), "the unspoilt data is accepted")


def _top() -> Any:
    return types(2, False).flatmap(lambda t: st.tuples(st.just(t), value_of(t), value_of(t)))


@PROPERTY.obligation(_top, quick=500, thorough=10000, shards=2)
def defaults_and_adapters(case: Any, ctx: Ctx) -> None:
    """Absent fields take their defaults; a type on its own (no model around) round-trips too."""
    t, c, dflt = case
    tp = py_type(t)
    v, dv = build(t, c, tp), build(t, dflt, tp)
    m = pydantic.create_model("D", x=(tp, dv), y=(Option[tp], Nothing), z=(int, ...))
    a = m.model_validate({"z": 1})
    same((shape(a.x), shape(a.y)), (shape(dv), ("nothing",)), "defaults")
    same(a.model_dump(), {"x": dump(t, dflt, False), "y": None, "z": 1}, "defaults dumped")
    b = m.model_validate_json(json.dumps({"z": 1, "x": dump(t, c, True), "y": dump(t, c, True)}))
    some = ("nothing",) if dump(t, c, True) is None else ("some", shape(v))
    same((shape(b.x), shape(b.y)), (shape(v), some), "given fields")
    ad = pydantic.TypeAdapter(tp)
    same(ad.dump_python(v), dump(t, c, False), "adapter dump")
    same(json.loads(ad.dump_json(v)), dump(t, c, True), "adapter JSON")
    same(shape(ad.validate_json(ad.dump_json(v))), shape(v), "adapter round trip")
    same(shape(ad.validate_python(v)), shape(v), "adapter accepts the value")
    ctx.nontrivial(nested(t))


@PROPERTY.obligation(
    lambda: types(1, False).flatmap(lambda t: st.tuples(st.just(t), st.lists(value_of(t), min_size=1, max_size=3), st.integers(1, 400) | st.integers(60, 1500), st.integers(0, 10**6))),
    quick=250,
    thorough=6000,
    shards=2,
)
def long_blocks(case: Any, ctx: Ctx) -> None:
    """Blocks of up to thousands of elements: every element survives, and one unfit element spoils the whole."""
    et, some, n, pick = case
    t = ("block", et)
    c = tuple(some[i * i % len(some)] for i in range(n))
    m = pydantic.create_model("L", x=(py_type(t), ...))
    v = build(t, c, m.model_fields["x"].annotation)
    data, js = dump(t, c, False), dump(t, c, True)
    same(m(x=v).model_dump(), {"x": data}, "dump")
    same(json.loads(m(x=v).model_dump_json()), {"x": js}, "JSON")
    for got in (m.model_validate({"x": data}), m.model_validate_json(json.dumps({"x": js})), m(x=v), m.model_validate_json(m(x=v).model_dump_json())):
        same(shape(got.x), shape(v), "round trip")
    bad = [b for b in unfit(et, some[0], True)]
    if bad:
        for at in {0, pick % n, n - 1}:
            spoilt = [*js[:at], bad[pick % len(bad)], *js[at + 1 :]]
            rejected(lambda: m.model_validate_json(json.dumps({"x": spoilt})), f"element {at} of {n} unfit")  # noqa: B023
    ctx.nontrivial(n >= 2)
