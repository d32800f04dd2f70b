"""Helpers shared by the property modules: oracles' comparison, callable codes, payload pools."""

from __future__ import annotations

import random
from typing import Any, Callable

from hypothesis import strategies as st

from .core import Violation


def expect(cond: Any, msg: str = "", *info: Any) -> None:
    if not cond:
        raise Violation(msg + (" | " + " | ".join(repr(i)[:600] for i in info) if info else ""))


def same(got: Any, want: Any, what: str) -> None:
    """Equal and of the same shape/type for scalars (1, True and 1.0 are told apart)."""
    if not strict_eq(got, want):
        raise Violation(f"{what}: got {got!r:.800}, expected {want!r:.800}")


def strict_eq(a: Any, b: Any) -> bool:
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return repr(a) == repr(b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(strict_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(
            strict_eq(k1, k2) and strict_eq(v1, v2) for (k1, v1), (k2, v2) in zip(a.items(), b.items())
        )
    return bool(a == b)


def twin(x: Any) -> Any:
    """An equal value that can be told apart where there is one: code that keeps the old value because it is equal gets noticed."""
    if isinstance(x, (bool, float)):
        return int(x) if abs(x) < 1e15 and x == int(x) else x
    if isinstance(x, int):
        return float(x)
    if isinstance(x, (list, dict)):
        return type(x)(x)
    return x


def outcome(fn: Callable[[], Any]) -> tuple[str, Any]:
    """('ok', value) or ('exc', exception class)."""
    try:
        return ("ok", fn())
    except Exception as e:  # noqa: BLE001
        return ("exc", type(e))


class Boom(ValueError, TypeError, KeyError, IndexError, AttributeError, ZeroDivisionError, NotImplementedError, RecursionError, EOFError, AssertionError):
    """Raised by generated callbacks; must reach the caller unchanged.  It is of every kind that code may take for an error of its own."""

    __str__ = Exception.__str__

    def __init__(self, tag: Any = None) -> None:
        super().__init__(tag)
        self.tag = tag

    def __eq__(self, o: Any) -> bool:
        return type(o) is type(self) and o.tag == self.tag

    def __hash__(self) -> int:
        return hash(("Boom", self.tag))


class Boom2(Boom):
    pass


class Box:
    """Identity-bearing payload: equality is identity, so copies are noticed."""

    def __init__(self, n: int) -> None:
        self.n = n

    def __repr__(self) -> str:
        return f"Box({self.n})"


# payloads that trip truthiness / None / identity mistakes
FALSY = [None, 0, False, "", (), 0.0, [], {}]
HASHABLE_FALSY = [None, 0, False, "", (), 0.0]


def payloads(hashable: bool = False) -> Any:
    pool = st.sampled_from(HASHABLE_FALSY if hashable else FALSY)
    return st.one_of(
        pool,
        st.integers(-3, 9),
        st.text("ab\u00e9", max_size=3),
        st.tuples(st.integers(0, 3), st.integers(0, 3)),
        st.booleans(),
    )


ints = st.integers(-20, 20)


# ---------------------------------------------------------------- int -> int codes
def int_fn_codes() -> Any:
    return st.one_of(
        st.tuples(st.just("add"), st.integers(-5, 5)),
        st.tuples(st.just("mul"), st.integers(-3, 3)),
        st.tuples(st.just("const"), st.integers(-3, 3)),
        st.tuples(st.just("mod"), st.integers(1, 5)),
    )


def int_fn(code: tuple[str, int]) -> Callable[[Any], Any]:
    op, n = code
    return {
        "add": lambda x: x + n,
        "mul": lambda x: x * n,
        "const": lambda x: n,
        "mod": lambda x: x % n,
    }[op]


def pred_codes() -> Any:
    return st.one_of(
        st.tuples(st.just("lt"), st.integers(-10, 10)),
        st.tuples(st.just("mod"), st.integers(1, 4), st.integers(0, 3)),
        st.tuples(st.just("const"), st.booleans()),
        st.tuples(st.just("in"), st.frozensets(st.integers(-5, 9), max_size=4).map(lambda s: tuple(sorted(s)))),
    )


def pred(code: tuple[Any, ...]) -> Callable[[Any], bool]:
    op = code[0]
    if op == "lt":
        return lambda x: x < code[1]
    if op == "mod":
        return lambda x: x % code[1] == code[2] % code[1]
    if op == "const":
        return lambda x: code[1]
    return lambda x: x in code[1]


def shuffled(n: int, order: str, seed: int) -> list[int]:
    xs = list(range(n))
    if order == "desc":
        xs.reverse()
    elif order == "shuffle":
        random.Random(seed).shuffle(xs)
    elif order == "zigzag":
        xs = [x for p in zip(xs, reversed(xs)) for x in p][:n]
        xs = list(dict.fromkeys(xs))
        xs += [i for i in range(n) if i not in set(xs)]
    elif order == "outin":
        lo, hi, out = 0, n - 1, []
        while lo <= hi:
            out.append(lo)
            if lo != hi:
                out.append(hi)
            lo, hi = lo + 1, hi - 1
        xs = out
    elif order == "inout":
        return shuffled(n, "outin", seed)[::-1]
    return xs


ORDERS = ["asc", "desc", "shuffle", "zigzag", "outin", "inout"]


# states of unfolds: all different, most of them falsy
STATES: list[Any] = [0, None, "", (), "x", 1.5, frozenset(), 3, b"", [], -1, (None,), {}]


def state_of(k: int, salt: int) -> Any:
    return STATES[(k + salt) % len(STATES)]


def step_of(state: Any, salt: int) -> int:
    return (STATES.index(state) - salt) % len(STATES)
