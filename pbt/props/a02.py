"""A02: typed storage keeps every in-range value exactly and rejects the rest."""

from __future__ import annotations

import ctypes
import math
from typing import Any

from hypothesis import strategies as st

from expression import pipe
from expression.collections import TypedArray, array

from ..core import Ctx, Property, Violation
from ..util import expect, same

TypeCode = array.TypeCode

PROPERTY = Property(
    "A02",
    rule="every machine type x construction route x values at, around and beyond its limits; non-trivial when the case has a "
    "value within 2 of a limit of the type, or a float that the declared precision rounds",
    assumptions=[
        "Int32 and Uint32 are stored as C long: integers between 32 and 64 bits may be kept exactly or rejected, anything else is pinned",
    ],
)

# name -> (declared lo, declared hi, lo and hi beyond which storing is impossible, error)
INTS: dict[str, tuple[int, int, int, int, type[Exception]]] = {"Byte": (0, 255, 0, 255, ValueError)}
for bits in (8, 16, 32, 64):
    wide = 64 if bits == 32 else bits
    INTS[f"Int{bits}"] = (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1, -(2 ** (wide - 1)), 2 ** (wide - 1) - 1, OverflowError)
    INTS[f"Uint{bits}"] = (0, 2**bits - 1, 0, 2**wide - 1, OverflowError)

MARK = {
    "Int8": array.int8, "Int16": array.int16, "Int32": array.int32, "Int64": array.int64,
    "Uint8": array.uint8, "Uint16": array.uint16, "Uint32": array.uint32, "Uint64": array.uint64,
    "Float": array.float32, "Double": array.float64,
}  # fmt: skip


def near(name: str) -> Any:
    lo, hi, slo, shi, _ = INTS[name]
    d = st.integers(-2, 2)
    return st.one_of(
        st.integers(lo, hi),
        d.map(lambda k: lo + k),
        d.map(lambda k: hi + k),
        d.map(lambda k: slo + k),
        d.map(lambda k: shi + k),
        st.integers(-(2**70), 2**70),
        st.integers(-3, 3),
    )


def int_cases() -> Any:
    return st.sampled_from(sorted(INTS)).flatmap(
        lambda n: st.tuples(
            st.just(n),
            st.sampled_from(["code", "code", "mark", "mark_first"] if n in MARK else ["code", "bytes", "bytearray"]),
            st.lists(near(n), max_size=5),
            st.lists(st.tuples(st.sampled_from(["set", "insert", "append", "filter", "setslice"]), st.integers(-6, 6), near(n)), max_size=5),
        )
    )


def classify(name: str, v: int) -> str:
    lo, hi, slo, shi, _ = INTS[name]
    return "in" if lo <= v <= hi else ("maybe" if slo <= v <= shi else "out")


def build(name: str, how: str, xs: list[int]) -> Any:
    if how == "code":
        return TypedArray(xs, TypeCode[name])
    if how == "bytes":
        return TypedArray(bytes(xs))
    if how == "bytearray":
        return TypedArray(bytearray(xs))
    mk = MARK[name]
    if how == "mark":
        return TypedArray([mk(x) for x in xs])
    return TypedArray([mk(x) if i == 0 else x for i, x in enumerate(xs)])


def state(a: Any, model: list[int], code: Any, what: str) -> None:
    got = list(a)
    same(got, model, what)
    expect(all(type(x) is int for x in got), f"{what}: elements are plain ints", got)
    expect(a.typecode == code, f"{what}: type code", a.typecode, code)


@PROPERTY.obligation(int_cases, quick=9000, shards=4)
def integers(case: Any, ctx: Ctx) -> None:
    name, how, xs, muts = case
    lo, hi, slo, shi, err = INTS[name]
    code = TypeCode[name]
    ctx.nontrivial(any(min(abs(v - b) for b in (lo, hi, slo, shi)) <= 2 for v in [*xs, *(m[2] for m in muts)]))
    kinds = {classify(name, v) for v in xs}
    if how in ("bytes", "bytearray"):
        xs = [v for v in xs if 0 <= v <= 255]
        kinds = {"in"}
    if "out" in kinds or "maybe" in kinds:
        try:
            a = build(name, how, xs)
        except err:
            xs = [v for v in xs if classify(name, v) == "in"]
            a = build(name, how, xs)
        else:
            if "out" in kinds:
                raise Violation(f"{name}: {xs} was accepted and became {list(a)}")
    else:
        a = build(name, how, xs)
    if how.startswith("mark") and not xs:
        return  # nothing declares the type of an empty array
    model = list(xs)
    state(a, model, code, "construction")
    for op, i, v in muts:
        if op == "filter":
            p = lambda x: (x + i) % 3 != 0  # noqa: E731,B023
            b = a.filter(p) if i % 2 else pipe(a, array.filter(p))
            a, model = b, [x for x in model if p(x)]
            state(a, model, code, "filter")
            continue
        if op == "setslice":
            continue
        if op == "set" and not -len(model) <= i < len(model):
            continue
        run = {"set": lambda: a.__setitem__(i, v), "insert": lambda: a.insert(i, v), "append": lambda: a.append(v)}[op]  # noqa: B023
        c = classify(name, v)
        try:
            run()
        except err:
            expect(c != "in", f"{name}: {op} of the in-range value was rejected", v)
        else:
            expect(c != "out", f"{name}: {op} of the out-of-range value was accepted", v, list(a))
            {"set": lambda: model.__setitem__(i, v), "insert": lambda: model.insert(i, v), "append": lambda: model.append(v)}[op]()  # noqa: B023
        state(a, model, code, f"after {op} of {v}")


def floats() -> Any:
    return st.one_of(
        st.floats(allow_nan=True, allow_infinity=True),
        st.floats(width=32),
        st.integers(-(2**30), 2**30).map(float),
        st.sampled_from([0.1, -0.0, 1e-45, 3.4028234663852886e38, 1e-320, 16777217.0, 5e-324]),
    )


def rounded(name: str, x: float) -> float:
    return ctypes.c_float(x).value if name == "Float" else x


@PROPERTY.obligation(
    lambda: st.tuples(
        st.sampled_from(["Float", "Double"]),
        st.sampled_from(["code", "mark", "double"]),
        st.lists(floats().filter(lambda x: not (math.isfinite(x) and abs(x) > 3.4028234e38)), max_size=5),
        st.lists(st.tuples(st.sampled_from(["set", "insert", "append", "filter"]), st.integers(-5, 5), floats().filter(lambda x: not (math.isfinite(x) and abs(x) > 3.4e38))), max_size=4),
    ),
    quick=4000,
    shards=2,
)
def floating(case: Any, ctx: Ctx) -> None:
    name, how, xs, muts = case
    if how == "double":
        name = "Double"
        a = TypedArray([array.double(x) for x in xs])
    elif how == "mark":
        a = TypedArray([MARK[name](x) for x in xs])
    else:
        a = TypedArray(xs, TypeCode[name])
    if how != "code" and not xs:
        return
    code = TypeCode[name]
    model = [rounded(name, x) for x in xs]
    same([repr(x) for x in a], [repr(x) for x in model], "construction")
    expect(a.typecode == code, "type code", a.typecode, code)
    for op, i, v in muts:
        if op == "filter":
            p = lambda x: not (x < i)  # noqa: E731,B023
            a, model = a.filter(p), [x for x in model if p(x)]
        elif op == "set":
            if not -len(model) <= i < len(model):
                continue
            a[i] = v
            model[i] = rounded(name, v)
        elif op == "insert":
            a.insert(i, v)
            model.insert(i, rounded(name, v))
        else:
            a.append(v)
            model.append(rounded(name, v))
        same([repr(x) for x in a], [repr(x) for x in model], f"after {op}")
        expect(a.typecode == code, f"type code after {op}", a.typecode, code)
    ctx.nontrivial(any(repr(rounded("Float", x)) != repr(x) for x in xs))


@PROPERTY.obligation(lambda: st.lists(st.one_of(st.integers(-(2**70), 2**70), st.floats(), st.booleans(), st.text(max_size=2), st.none()), max_size=5), quick=2000)
def untyped(case: Any, ctx: Ctx) -> None:
    """Undeclared elements are stored as they are, whatever their type or size."""
    for a in (TypedArray(case), TypedArray(case, TypeCode.Any), TypedArray(iter(case))):
        expect(a.typecode == TypeCode.Any, "type code", a.typecode)
        expect(len(a) == len(case) and all(x is y for x, y in zip(a, case)), "elements are stored unchanged", list(a), case)
        b = a.filter(lambda x: True)
        expect(b.typecode == TypeCode.Any and all(x is y for x, y in zip(b, case)), "filter", list(b))
    ctx.nontrivial(any(isinstance(x, int) and not -(2**63) <= x < 2**63 for x in case))
