"""Programs for effect expressions: one abstract program, rendered as Python source twice.

The real rendering uses the library's decorators with yield / yield from / await; the reference rendering is ordinary
straight-line Python in which `Y(v)` stands for a yield and `raise Stop(v)` for a short circuit.
"""

from __future__ import annotations

from collections.abc import Iterable
from typing import Any

from hypothesis import strategies as st

from expression import Error, Failure, Nothing, Ok, Option, Result, Some, Success
from expression.collections import Seq

from .util import Boom, Box
from .values import Later

VALUES: list[Any] = [None, 0, False, "", (), [], 1, 2, "s", (1, 2), Box(1), Nothing, Some(None), Ok(1), Ellipsis, Boom(5), Later(), Later, len, Error(2), iter(())]
ERRORS: list[Any] = [Boom(1), Boom(2), None, 0, "e", Box(9)]
FAILURES: list[Any] = [e if isinstance(e, Exception) else Boom(repr(e)) for e in ERRORS]


class Stop(BaseException):
    def __init__(self, value: Any) -> None:
        self.value = value


class Fatal(BaseException):
    pass


RAISES: list[Any] = [Boom("r0"), Boom("r1"), KeyError("k"), Fatal("f"), TypeError("t"), RuntimeError("rt"), TimeoutError("to"), AttributeError("a")]


# ---------------------------------------------------------------- strategies
def blocks(depth: int) -> Any:
    v = st.integers(0, len(VALUES) - 1)
    simple = st.one_of(
        st.tuples(st.just("log"), st.integers(0, 9)),
        st.tuples(st.just("yield"), v),
        st.tuples(st.just("yield"), v),
        st.tuples(st.just("from"), v),
        st.tuples(st.just("from"), v),
        st.sampled_from([("yieldx",), ("yieldr",), ("yieldfrom", 3), ("pause", 1), ("pause", 2)]),
        st.tuples(st.just("fromcall"), st.integers(0, 2), st.integers(0, 4)),
        st.tuples(st.just("call"), st.integers(0, 2), st.integers(0, 4)),
        st.tuples(st.just("helper"), st.integers(0, 2), st.integers(0, 4)),
    )
    rare = st.one_of(
        st.tuples(st.just("stop"), st.integers(0, len(ERRORS) - 1)),
        st.tuples(st.just("raise"), st.integers(0, len(RAISES) - 1)),
        st.tuples(st.just("ret"), v),
        st.sampled_from([("retx",), ("retr",), ("retnone",)]),
    )
    alts = [simple] * 9 + [rare] * 2
    if depth:
        sub = st.deferred(lambda: blocks(depth - 1))
        alts += [
            st.tuples(st.just("if"), st.integers(1, 3), sub, sub),
            st.tuples(st.just("for"), st.integers(0, 3), sub),
            st.tuples(st.just("fin"), sub, st.integers(0, 9)),
            st.tuples(st.just("exc"), sub, st.integers(0, 9)),
        ]
    return st.lists(st.one_of(alts), max_size=5).map(tuple)


def programs(kinds: list[str]) -> Any:
    fn = st.tuples(st.sampled_from(kinds), blocks(2))
    last = st.tuples(st.sampled_from([k for k in kinds if k != "helper"]), blocks(2))
    return st.tuples(st.lists(fn, max_size=2), last).map(lambda p: (*p[0], p[1]))


def has_effect(prog: Any) -> int:
    """How many yields, unwrappings and nested calls the program's text contains."""

    def count(b: Any) -> int:
        n = 0
        for s in b:
            n += s[0] in ("yield", "from", "yieldfrom", "yieldx", "yieldr", "stop", "fromcall", "helper", "call")
            n += sum(count(x) for x in s[1:] if isinstance(x, tuple))
        return n

    return sum(count(b) for _, b in prog)


# ---------------------------------------------------------------- rendering
class Render:
    """mode: 'ref' or 'real'; flavour: 'sync', 'seq' or 'async'."""

    def __init__(self, prog: Any, mode: str, flavour: str, deco: str) -> None:
        self.prog, self.mode, self.flavour, self.deco = prog, mode, flavour, deco
        self.out: list[str] = []
        for i, (kind, block) in enumerate(prog):
            self.function(i, kind, block)
        self.source = "\n".join(self.out) + "\n"

    def put(self, depth: int, line: str) -> None:
        self.out.append("    " * depth + line)

    def function(self, i: int, kind: str, block: Any) -> None:
        self.i, self.kind = i, kind
        params = "log, x=7, *, k=3"
        if self.mode == "ref":
            name = f"h{i}" if kind == "helper" else f"b{i}"
            self.put(0, f"def {name}(Y, {params}):")
        else:
            if kind != "helper":
                self.put(0, f"@{self.deco}")
            name = f"h{i}" if kind == "helper" else f"f{i}"
            a = "async " if self.flavour == "async" and kind != "sync" else ""
            self.put(0, f"{a}def {name}({params}):")
        self.put(1, f"log(({i}, x, k))")
        self.put(1, "r = None")
        self.block(1, block)
        if self.mode == "real" and (kind == "expr" or (kind == "helper" and self.flavour != "async")):
            self.put(1, "if False: yield")
        if self.mode == "ref" and kind != "helper":
            self.put(0, f"def f{i}(log, *a, **k): return RUN(b{i}, {kind == 'expr'}, log, *a, **k)")

    def block(self, d: int, block: Any) -> None:
        if not block:
            self.put(d, "pass")
        for s in block:
            self.statement(d, s)

    def callee(self, n: int, helper: bool) -> int | None:
        ok = [j for j in range(self.i) if (self.prog[j][0] == "helper") == helper]
        return ok[n % len(ok)] if ok else None

    def args(self, a: int) -> str:
        return ["log, x", "log, 2", "log", "log, x=x, k=4", "log, k=1"][a]

    def statement(self, d: int, s: Any) -> None:  # noqa: C901
        op = s[0]
        real = self.mode == "real"
        seq, asy = self.flavour == "seq", self.flavour == "async"
        # where a plain body (no yields) or an async helper has no yield, an unwrapping takes its place
        can_yield = self.kind == "expr" or (self.kind == "helper" and not asy)
        can_await = asy and self.kind != "sync"
        can_unwrap = can_yield or can_await
        if op == "log":
            self.put(d, f"log({s[1]})")
        elif op in ("yield", "yieldx", "yieldr", "yieldfrom"):
            e = {"yield": lambda: f"V[{s[1]}]", "yieldx": lambda: "x", "yieldr": lambda: "r", "yieldfrom": lambda: f"V[{s[1]}]"}[op]()
            if op == "yieldfrom" and asy and can_yield:
                self.put(d, f"r = yield await WRAP({e})" if real else f"r = Y({e})")
            elif can_yield:
                self.put(d, f"r = yield {e}" if real else f"r = Y({e})")
            elif can_unwrap:
                self.put(d, f"r = await WRAP({e})" if real else f"r = {e}")
            else:
                self.put(d, f"r = {e}")
            self.put(d, "log(('y', id(r)))")
        elif op == "from":
            e = f"V[{s[1]}]"
            if not can_unwrap:
                self.put(d, f"r = {e}")
            elif seq:
                if real:
                    self.put(d, f"r = yield from Seq([{e}, x])")
                else:
                    self.put(d, f"Y({e}); Y(x); r = None")
            elif asy:
                self.put(d, f"r = await WRAP({e})" if real else f"r = {e}")
            else:
                self.put(d, f"r = yield from WRAP({e})" if real else f"r = Y({e})")
            self.put(d, "log(('f', id(r)))")
        elif op == "stop":
            if seq or not can_unwrap:
                self.put(d, "log('no stop')")
            elif real:
                self.put(d, f"{'await' if asy else 'yield from'} STOP[{s[1]}]")
            else:
                self.put(d, f"raise Stop(STOP[{s[1]}])")
        elif op in ("fromcall", "call"):
            j = self.callee(s[1], False)
            if j is None or (asy and not can_await):
                self.put(d, "log('no callee')")
                return
            c = f"f{j}({self.args(s[2])})"
            if asy and real:
                c = f"(await {c})"
            if op == "call" or not can_unwrap:
                self.put(d, f"log(('c', SHOW({c})))")
            elif seq:
                self.put(d, f"r = yield from {c}" if real else f"r = YALL(Y, {c})")
            elif asy:
                self.put(d, f"r = await {c}" if real else f"r = UNWRAP({c})")
            else:
                self.put(d, f"r = yield from {c}" if real else f"r = Y(UNWRAP({c}))")
            self.put(d, "log(('r', id(r)))")
        elif op == "helper":
            j = self.callee(s[1], True)
            if j is None or not can_unwrap:
                self.put(d, "log('no helper')")
                return
            c = f"h{j}({self.args(s[2])})"
            if real:
                self.put(d, f"r = {'await' if asy else 'yield from'} {c}")
            else:
                self.put(d, f"r = {c.replace('(log', '(Y, log', 1)}")
            self.put(d, "log(('h', id(r)))")
        elif op == "pause":
            if real and can_await:
                self.put(d, f"for _ in range({s[1]}): await SLEEP(0)")
            else:
                self.put(d, "pass")
        elif op == "raise":
            self.put(d, f"raise RAISES[{s[1]}]")
        elif op in ("ret", "retx", "retr", "retnone"):
            e = {"ret": lambda: f"V[{s[1]}]", "retx": lambda: "x", "retr": lambda: "r", "retnone": lambda: "None"}[op]()
            self.put(d, "return" if asy and self.kind == "expr" else f"return {e}")
        elif op == "if":
            self.put(d, f"if x % {s[1]} == 0:")
            self.block(d + 1, s[2])
            self.put(d, "else:")
            self.block(d + 1, s[3])
        elif op == "for":
            self.put(d, f"for i in range({s[1]}):")
            self.block(d + 1, s[2])
        elif op == "fin":
            self.put(d, "try:")
            self.block(d + 1, s[1])
            self.put(d, "finally:")
            self.put(d + 1, f"log(('fin', {s[2]}))")
        elif op == "exc":
            self.put(d, "try:")
            self.block(d + 1, s[1])
            self.put(d, "except Boom as e:")
            self.put(d + 1, f"log(('exc', {s[2]}, id(e)))")
        else:
            raise AssertionError(op)


# ---------------------------------------------------------------- what each builder means
class Meaning:
    """Reference meaning of one builder."""

    def __init__(self, name: str) -> None:
        self.name = name
        if name.endswith("option"):
            self.wrap: Any = Some
            self.zero: Any = Nothing
            self.stops = [Nothing] * len(ERRORS)
        elif name.endswith("result"):
            self.wrap, self.zero = Ok, Ok(None)
            self.stops = [Error(e) for e in ERRORS]
        elif name.endswith("try"):
            self.wrap, self.zero = Ok, Ok(None)
            self.stops = [Failure(e) for e in FAILURES]
        else:
            self.wrap, self.zero, self.stops = None, [], []

    def unwrap(self, v: Any) -> Any:
        if isinstance(v, Option) and v.is_some():
            return v.value
        if isinstance(v, Result) and v.is_ok():
            return v.ok
        raise Stop(v)

    def run(self, body: Any, has_yield: bool, log: Any, *a: Any, **k: Any) -> Any:
        yielded: list[Any] = []

        def y(v: Any) -> Any:
            yielded.append(v)
            return v

        try:
            ret = body(y, log, *a, **k)
        except Stop as s:
            return s.value
        if self.wrap is None:
            return [*yielded, *([ret] if ret is not None else [])]
        if ret is not None:
            return self.wrap(ret)
        return self.wrap(yielded[-1]) if yielded else self.zero


def show(v: Any) -> Any:
    """A wrapped value as plain data, payload by identity."""
    if isinstance(v, Option):
        return ("some", id(v.value)) if v.is_some() else ("nothing",)
    if isinstance(v, Result):
        return ("ok", id(v.ok)) if v.is_ok() else ("error", id(v.error))
    if isinstance(v, Iterable) and not isinstance(v, str):
        once = [id(x) for x in v]
        again = [id(x) for x in v]
        return ("seq", once, again)
    return ("other", repr(v))


def yall(y: Any, vs: Any) -> None:
    for v in vs:
        y(v)


def namespace(m: Meaning, **more: Any) -> dict[str, Any]:
    return {
        "V": VALUES,
        "STOP": m.stops,
        "RAISES": RAISES,
        "Boom": Boom,
        "Stop": Stop,
        "Seq": Seq,
        "SHOW": show,
        "UNWRAP": m.unwrap,
        "WRAP": Success if m.name.endswith("try") else m.wrap,
        "YALL": yall,
        "RUN": m.run,
        **more,
    }
