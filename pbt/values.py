"""Codes (plain data) for values of the library's types, arbitrarily nested, and generators of them."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from expression import Error, Failure, Nothing, Ok, Some, Success
from expression.collections import Block, Map

from .util import Boom, Box

ATOMS: list[Any] = [None, 0, False, "", (), 0.0, 1, True, "a", (1, 2), -1, "ab", 1000, 2.5, b"xy"]
FUNCTIONS: list[Any] = [len, int, Some, dict]


class Later:
    """Can be awaited, iterated, called and entered, but nobody should."""

    used = 0

    def __repr__(self) -> str:
        return "Later()"

    def _use(self, *_: Any) -> Any:
        Later.used += 1
        raise AssertionError("the payload was used")

    __await__ = __iter__ = __next__ = __call__ = __enter__ = __exit__ = __aiter__ = __anext__ = __len__ = __getitem__ = _use


OPAQUE: list[Any] = [Later(), Later(), iter(()), (x for x in ()), object(), Later]
EXCEPTIONS: list[Any] = [Exception, ValueError, KeyError, StopIteration, GeneratorExit, TypeError]
UNHASHABLE: list[Any] = [[], {}, [0], {"k": 1}]


def fresh(v: Any) -> Any:
    """An equal object which is not the same one, where Python has such a thing."""
    if type(v) in (int, float, str):
        return type(v)(repr(v)) if type(v) is not str else "".join(list(v))
    if type(v) in (list, tuple):
        return type(v)(list(v))
    if type(v) is bytes:
        return bytes(bytearray(v))
    return dict(v) if type(v) is dict else v


def make(code: Any) -> Any:
    """Fresh value for a code (every call creates new objects)."""
    k = code[0]
    if k == "v":
        return fresh(code[1])
    if k == "some":
        return Some(make(code[1]))
    if k == "nothing":
        return Nothing
    if k == "ok":
        return Ok(make(code[1]))
    if k == "err":
        return Error(make(code[1]))
    if k == "success":
        return Success(make(code[1]))
    if k == "failure":
        return Failure(make(code[1]))
    if k == "box":
        return Box(code[1])
    if k == "boom":
        return Boom(code[1])
    if k == "exc":
        return EXCEPTIONS[code[1]](code[1])
    if k == "fn":
        return FUNCTIONS[code[1]]
    if k == "opaque":
        return OPAQUE[code[1]]
    if k == "list":
        return [make(c) for c in code[1]]
    if k == "tuple":
        return tuple(make(c) for c in code[1])
    if k == "dict":
        return {n: make(c) for n, c in code[1]}
    if k == "block":
        return Block([make(c) for c in code[1]])
    if k == "map":
        return Map.of_seq([(n, make(c)) for n, c in code[1]])
    raise AssertionError(code)


def atoms(hashable: bool = True) -> Any:
    return st.tuples(st.just("v"), st.sampled_from(ATOMS if hashable else ATOMS + UNHASHABLE))


def values(hashable: bool = False, collections: bool = False, opaque: bool = False) -> Any:
    base = st.one_of(atoms(hashable), atoms(hashable), st.just(("nothing",)), st.tuples(st.just("box"), st.integers(0, 2)), st.tuples(st.just("exc"), st.integers(0, len(EXCEPTIONS) - 1)), st.tuples(st.just("fn"), st.integers(0, len(FUNCTIONS) - 1)))

    if opaque:
        base = base | st.tuples(st.just("opaque"), st.integers(0, len(OPAQUE) - 1))

    def extend(inner: Any) -> Any:
        alts = [
            st.tuples(st.sampled_from(["some", "ok", "err", "some"]), inner),
            st.tuples(st.just("tuple"), st.lists(inner, max_size=3)),
        ]
        if collections:
            alts += [
                st.tuples(st.just("block"), st.lists(inner, max_size=3)),
                st.tuples(st.just("list"), st.lists(inner, max_size=3)),
                st.tuples(st.just("map"), st.lists(st.tuples(st.integers(0, 4), inner), max_size=3)),
                st.tuples(st.just("dict"), st.lists(st.tuples(st.integers(0, 4), inner), max_size=2)),
                st.tuples(st.just("success"), inner),
                st.tuples(st.just("failure"), st.tuples(st.just("boom"), st.integers(0, 2))),
            ]
        return st.one_of(*alts)

    return st.recursive(base, extend, max_leaves=5)
