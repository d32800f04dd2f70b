"""D01: casts never change a value and succeed exactly for instances."""

from __future__ import annotations

import abc
import collections.abc as cabc
from typing import Any, Dict, Generic, Iterable, List, Mapping, Protocol, Sequence, Tuple, TypeVar, runtime_checkable  # noqa: UP035

from hypothesis import strategies as st

from expression import Error, Nothing, Ok, Option, Result, Some, downcast, try_downcast, upcast
from expression.collections import Block, Map, Seq

from ..core import Ctx, Property
from ..util import Boom, expect

PROPERTY = Property(
    "D01",
    rule="every pair of a class (plain, generated hierarchy, builtin, abstract, protocol, virtual base, library type, generic alias) and "
    "a value; hierarchies are generated; non-trivial when value and class are related by neither identity nor `object`",
)

_T = TypeVar("_T")


class G(Generic[_T]):
    pass


class Virtual(abc.ABC):  # noqa: B024
    pass


@runtime_checkable
class HasGo(Protocol):
    def go(self) -> Any: ...


class Goer:
    def go(self) -> Any:
        return 1


class Quirk:
    """Falsy, equal to everything."""

    def __bool__(self) -> bool:
        return False

    def __eq__(self, o: Any) -> bool:
        return True

    def __hash__(self) -> int:
        return 0


class Meta(type):
    def __instancecheck__(cls, o: Any) -> bool:
        return o == 5 and type(o) is int


class OnlyFive(metaclass=Meta):
    pass


Virtual.register(Goer)


class MyList(list):  # type: ignore[type-arg]
    pass


class MyInt(int):
    pass


CLASSES: list[Any] = [
    object, int, bool, str, float, complex, bytes, list, tuple, dict, set, frozenset, type(None), type, Exception, Boom, BaseException, MyList, MyInt,
    G, Virtual, HasGo, Goer, Quirk, OnlyFive, Option, Result, Block, Map, Seq, cabc.Iterable, cabc.Sequence, cabc.Mapping, cabc.Callable, cabc.Hashable, cabc.Sized,
]  # fmt: skip
GENERICS: list[tuple[Any, Any]] = [
    (list[int], list), (dict[str, int], dict), (tuple[int, ...], tuple), (List[int], list), (Dict[str, int], dict), (Tuple[int], tuple), (G[int], G),  # noqa: UP006
    (Option[int], Option), (Result[int, str], Result), (Block[int], Block), (Map[str, int], Map), (Seq[int], Seq), (Iterable[int], cabc.Iterable),
    (Sequence[int], cabc.Sequence), (Mapping[str, int], cabc.Mapping), (cabc.Iterable[str], cabc.Iterable), (type[int], type), (set[int], set),
]  # fmt: skip
VALUES: list[Any] = [
    None, 0, 1, 5, True, False, "", "x", 0.0, 1.5, 1j, b"", [], [1], (), (1,), {}, {"a": 1}, set(), frozenset(), object(), int, type, Boom(1), MyList(), MyList([1]), MyInt(0), MyInt(5),
    G(), Goer(), Quirk(), Nothing, Some(1), Some(None), Ok(1), Error("e"), Block([]), Block([1]), Map.empty(), Map.of(a=1), Seq([1]), lambda: 1, Ellipsis, NotImplemented, range(3),
]  # fmt: skip


def check(cls: Any, runtime: Any, v: Any, generic: bool) -> None:
    expect(upcast(cls, v) is v, "upcast returns the value itself", cls, v)
    isa = isinstance(v, runtime)
    got = try_downcast(cls, v)
    expect(got is (v if isa else None), "try_downcast", cls, v, got)
    if not generic:
        try:
            d: Any = ("ok", downcast(cls, v))
        except AssertionError:
            d = ("assertion", None)
        except Exception as e:  # noqa: BLE001
            d = ("exc", e)
        expect(d[0] == ("ok" if isa else "assertion"), "downcast", cls, v, d)
        expect(not isa or d[1] is v, "downcast returns the value itself", cls, v, d)


ALL = [(c, c, False) for c in CLASSES] + [(a, o, True) for a, o in GENERICS]


@PROPERTY.obligation(lambda: st.tuples(st.integers(0, len(ALL) - 1), st.integers(0, len(VALUES) - 1)), quick=2500, thorough=6000, fixed=((-1, -1),))
def pairs(case: Any, ctx: Ctx) -> None:
    ci, vi = case
    if ci < 0:  # every pair
        for cls, runtime, generic in ALL:
            for v in VALUES:
                check(cls, runtime, v, generic)
        return
    cls, runtime, generic = ALL[ci]
    check(cls, runtime, VALUES[vi], generic)
    ctx.nontrivial(cls is not object and type(VALUES[vi]) is not cls)


@PROPERTY.obligation(lambda: st.lists(st.lists(st.integers(0, 9), max_size=2, unique=True), min_size=2, max_size=7), quick=1500, thorough=20000, shards=2)
def hierarchies(case: Any, ctx: Ctx) -> None:
    """Generated class graphs: every value against every class."""
    classes: list[Any] = []
    for i, parents in enumerate(case):
        bases = [classes[p] for p in parents if p < i]
        try:
            classes.append(type(f"K{i}", tuple(bases), {}))
        except TypeError:  # no consistent order of bases
            classes.append(type(f"K{i}", tuple(bases[:1]), {}))
    for v in [c() for c in classes]:
        for c in classes:
            check(c, c, v, False)
    ctx.nontrivial(any(len(c.__mro__) > 3 for c in classes))
