"""H01: values and functions of the library can be shared: concurrent and re-entrant uses do not influence each other."""

from __future__ import annotations

import copy
import functools
import os
import pickle
import sys
import threading
from typing import Any

from hypothesis import strategies as st

from expression import Error, Nothing, Ok, Some, TailCall, case, compose, curry, curry_flip, effect, pipe, tag, tagged_union, tailrec
from expression.collections import Block, Map, Seq, TypedArray, seq
from expression.extra import parser as P
from expression.extra.option import pipeline as opipe
from expression.extra.result import catch, pipeline as rpipe, traverse

from ..core import Ctx, Property
from ..sched import Scheduler, pause, plans
from ..util import Boom, expect

PROPERTY = Property(
    "H01",
    rule="two or three threads, each with a script of up to four uses of shared options, results, unions, collections, sequences, composed, curried, "
    "tail-recursive, effect-decorated and catching functions and parsers, under generated schedules (switches at the library's lines and inside the "
    "callbacks), and nested uses from within the callbacks; non-trivial when the schedule switched threads, or when a use is nested in "
    "another of the same object",
    assumptions=["thread switches are explored at the library's lines and in callbacks, one thread at a time", "TypedArrays are shared for reading only"],
)


class Env:
    """Everything the uses share; built anew for each run."""

    def __init__(self, n: int) -> None:
        self.n = n
        self.reenter: Any = None
        hook = self.hook
        self.opt: Any = Some(n)
        self.none: Any = Nothing
        self.ok: Any = Ok(n)
        self.err: Any = Error(n)
        self.block = Block(range(n + 3))
        self.map = Map.of_seq((i, i * i) for i in range(n + 6))
        self.seq = Seq(range(n + 3))
        self.chain = pipe(self.seq, seq.map(lambda x: hook(x) + 1), seq.filter(lambda x: hook(x) % 2 == 1), seq.scan(lambda a, b: hook(a) + b, 0))
        self.zipped = Seq(range(5)).zip(self.chain)
        self.array = TypedArray(range(n + 3))

        @curry(1)
        def cur(a: int, b: int) -> Any:
            return (hook(a), hook(b))

        @curry_flip(1)
        def flip(src: int, a: int, b: int = 7) -> Any:
            return (hook(src), hook(a), b)

        self.cur, self.flip = cur, flip
        self.cur1, self.flip1 = cur(n), flip(n)
        self.comp = compose(lambda x: hook(x) + 1, lambda x: hook(x) * 2, lambda x: (x, hook(x)))

        @tailrec
        def tail(k: int, acc: int = 0) -> Any:
            hook(k)
            return acc if k == 0 else TailCall(k - 1, acc=acc + k)

        self.tail = tail

        @effect.option[int]()
        def eo(a: int):  # type: ignore[no-untyped-def]
            x = yield from Some(hook(a))
            y = yield hook(x) + 1
            if a % 3 == 2:
                yield from Nothing
            z = yield from Some(hook(y) + a)
            return (a, x, y, z)

        @effect.result[int, str]()
        def er(a: int):  # type: ignore[no-untyped-def]
            x = yield from Ok(hook(a))
            if a % 3 == 1:
                yield from Error(("stop", hook(a)))
            y = yield hook(x) + 1
            return (a, x, y)

        @effect.seq[int]()
        def es(a: int):  # type: ignore[no-untyped-def]
            for i in range(hook(a) % 4):
                yield hook(i) + a
            yield from Seq([hook(a), a])

        self.eo, self.er, self.es = eo, er, es
        self.fixed_seq = es(3)

        @catch(exception=Boom)
        def caught(a: int) -> Any:
            if hook(a) % 2:
                raise Boom(a)
            return a

        self.caught = caught
        self.opipe = opipe(lambda x: Some(hook(x) + 1), lambda x: Nothing if hook(x) % 3 == 0 else Some(x), lambda x: Some((x, hook(x))))
        self.rpipe = rpipe(lambda x: Ok(hook(x) + 1), lambda x: Error(x) if hook(x) % 3 == 0 else Ok(x))
        digit = P.any_of("0123456789").map(lambda c: (hook(1), c)[1])
        num = P.many1(digit).map(lambda cs: int("".join(cs)))
        self.parser = P.between(P.pchar("["))(P.pchar("]"))(P.sep_by(num, P.pchar(",")))
        self.pint, self.pfloat = P.pint, P.pfloat

        @tagged_union(frozen=True, order=True)
        class U:
            tag: str = tag()
            a: Any = case()
            b: Any = case()

        self.U = U
        self.u = U(b=n)

    def hook(self, x: Any) -> Any:
        pause()
        r = self.reenter
        if r is not None:
            self.reenter = None
            r()
        return x


def lazily(it: Any) -> list[Any]:
    out = []
    for x in it:
        pause()
        out.append(x)
    return out


USES: dict[str, Any] = {
    "opt-map": lambda e, a: e.opt.map(lambda x: e.hook(x) + a).bind(lambda x: Some(e.hook(x)) if a % 2 else Nothing).default_value(a),
    "opt-text": lambda e, a: (str(e.opt), repr(e.opt), hash(e.opt) == hash(Some(e.n)), e.opt == Some(a), e.opt < Some(a)),
    "opt-new": lambda e, a: (Some(a).value, Some((a, e.n)).value, e.none.is_none(), Nothing.or_else(Some(a)).value),
    "opt-map2": lambda e, a: e.opt.map2(lambda x, y: (e.hook(x), e.hook(y)), Some(a)).value,
    "res-map": lambda e, a: (e.ok.map(lambda x: e.hook(x) + a).default_value(0), e.err.map_error(lambda x: e.hook(x) * a).error),
    "res-new": lambda e, a: (Ok(a).ok, Error(a).error, Ok(a).bind(lambda x: Error(e.hook(x))).swap().ok),
    "union-new": lambda e, a: (repr(e.U(a=a)), repr(e.U(b=(a, e.n))), e.U(a=a) < e.u, e.u == e.U(b=a), e.U(b=a).tag),
    "union-copy": lambda e, a: (repr(copy.copy(e.u)), repr(copy.deepcopy(e.u)), repr(pickle.loads(pickle.dumps(Some(a)))), copy.copy(e.opt).value),
    "block-ops": lambda e, a: (list(e.block.map(lambda x: e.hook(x) + a)), list(e.block.filter(lambda x: e.hook(x) % 2 == a % 2)), len(e.block)),
    "block-fold": lambda e, a: (e.block.fold(lambda s, x: e.hook(s) + x, a), list(e.block.cons(a)), list(e.block.append(Block([a]))), e.block[a % e.n]),
    "block-text": lambda e, a: (str(e.block), hash(e.block) == hash(Block(range(e.n + 3))) if Block.__hash__ else 0, e.block == Block(range(a))),
    "map-read": lambda e, a: (e.map[a], e.map.get(a + 90, None), a in e.map, len(e.map), lazily(e.map), list(e.map.items())),
    "map-write": lambda e, a: (list(e.map.add(a, -1).items()), list(e.map.remove(a).items()), list(e.map.change(a, lambda o: o.map(lambda x: e.hook(x) + 1)).items())),
    "map-fold": lambda e, a: (e.map.fold(lambda s, kv: e.hook(s) + kv[0] + a, 0), e.map.fold_back(lambda kv, s: e.hook(s) + kv[0], 0), str(e.map)),
    "map-filter": lambda e, a: (list(e.map.filter(lambda k, v: e.hook(k) % 2 == a % 2).items()), [list(m.items()) for m in e.map.partition(lambda k, v: e.hook(k) < a)]),
    "map-eq": lambda e, a: (e.map == Map.of_seq((i, i * i) for i in range(e.n + 6)), hash(e.map) == hash(Map.of_seq((i, i * i) for i in reversed(range(e.n + 6))))),
    "map-try": lambda e, a: (e.map.try_find(a).default_value(None), e.map.try_pick(lambda k, v: Some((k, e.hook(v))) if k == a else Nothing).value),
    "seq-chain": lambda e, a: (lazily(e.chain), lazily(e.zipped)),
    "seq-part": lambda e, a: (list(pipe(e.chain, seq.take(a % 4))), list(e.seq.skip(a % 3)), e.seq.fold(lambda s, x: e.hook(s) + x, a), e.seq.length()),
    "seq-own": lambda e, a: lazily(e.seq.map(lambda x: e.hook(x) * a).filter(lambda x: e.hook(x) % 3 != 0)),
    "array-ops": lambda e, a: (list(e.array.map(lambda x: e.hook(x) + a)), e.array[a % e.n], list(e.array.filter(lambda x: e.hook(x) > a)), len(e.array)),
    "curry": lambda e, a: (e.cur(a)(e.n), e.cur1(a), e.flip(a)(e.n), e.flip1(a), e.flip(a, b=a)(1)),
    "compose": lambda e, a: (e.comp(a), compose(e.comp, lambda x: (e.hook(a), x))(a)),
    "pipe": lambda e, a: (pipe(a, lambda x: e.hook(x) + 1, e.comp), e.opt.pipe(lambda o: e.hook(o.value) + a)),
    "tailrec": lambda e, a: (e.tail(a), e.tail(a + 3, acc=a)),
    "effect-option": lambda e, a: str(e.eo(a)),
    "effect-result": lambda e, a: str(e.er(a)),
    "effect-seq": lambda e, a: (lazily(e.es(a)), lazily(e.fixed_seq)),
    "catch": lambda e, a: str(e.caught(a)),
    "pipelines": lambda e, a: (str(e.opipe(a)), str(e.rpipe(a))),
    "traverse": lambda e, a: str(traverse(lambda x: Ok(e.hook(x)) if x != a else Error(x), e.block)),
    "parse": lambda e, a: (str(e.parser(f"[{a},{a + 11},7]")), str(e.parser(f"[{a}"))),
    "numbers": lambda e, a: (str(e.pint(f"-{a}x")), str(e.pfloat(f"{a}.5"))),
}
NAMES = sorted(USES)


def use(e: Env, name: str, a: int) -> Any:
    return repr(USES[name](e, a))


@functools.lru_cache(None)
def by_itself(n: int, name: str, a: int) -> Any:
    return use(Env(n), name, a)


def threads_cases() -> Any:
    op = st.tuples(st.sampled_from(NAMES), st.integers(0, 6))

    def build(n: int) -> Any:
        own = st.lists(st.lists(op, min_size=1, max_size=4), min_size=n, max_size=n)
        # all threads on the same few uses: that is where state would be shared
        focus = st.lists(st.sampled_from(NAMES), min_size=1, max_size=2).flatmap(
            lambda names: st.lists(st.lists(st.tuples(st.sampled_from(names), st.integers(0, 6)), min_size=1, max_size=3), min_size=n, max_size=n)
        )
        return st.tuples(st.integers(1, 4), st.one_of(own, focus, focus), plans(n, 12, 60), st.booleans())

    return st.integers(2, 3).flatmap(build)


@PROPERTY.obligation(threads_cases, quick=3000, thorough=60000, shards=8)
def threads(case: Any, ctx: Ctx) -> None:
    n, scripts, plan, opcodes = case
    alone = [[by_itself(n, name, a) for name, a in sc] for sc in scripts]
    e = Env(n)

    def thread(sc: Any) -> Any:
        return lambda: [use(e, name, a) for name, a in sc]

    s = Scheduler(plan, opcodes, quiet=())
    ts = s.run([thread(sc) for sc in scripts])
    expect(s.stuck is None, "deadlock", s.stuck)
    for t, sc, want in zip(ts, scripts, alone):
        if t.error is not None:
            raise t.error
        for (name, a), g, w in zip(sc, t.result, want):
            expect(g == w, f"{name}({a}) gives what it gives alone", g, w)
    for sc, want in zip(scripts, alone):  # and nothing is left behind
        for (name, a), w in zip(sc, want):
            g = use(e, name, a)
            expect(g == w, f"{name}({a}) afterwards", g, w)
    ctx.nontrivial(s.switches > 0)
    if s.switches:
        ctx.label("switched")


class Other:
    """Another thread that performs one whole use each time it is asked to, while the asking thread stands still."""

    def __init__(self, work: Any) -> None:
        self.work = work
        self.go, self.done = threading._allocate_lock(), threading._allocate_lock()
        self.go.acquire()
        self.done.acquire()
        self.bad: Any = None
        self.alive = True
        self.idle = True
        self.count = 0
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.thread.start()

    def main(self) -> None:
        while True:
            self.go.acquire()
            if not self.alive:
                return
            try:
                self.work(self.count)
            except BaseException as x:  # noqa: BLE001
                if self.bad is None:
                    self.bad = x
            self.count += 1
            self.idle = True
            self.done.release()

    def ask(self) -> None:
        if not self.idle:  # still blocked on something the asking thread holds
            return
        self.idle = False
        self.go.release()
        self.done.acquire(True, 0.2) or self.blocked()

    def blocked(self) -> None:
        self.ask = lambda: None  # type: ignore[method-assign]

    def stop(self) -> None:
        if self.idle is False:
            self.done.acquire(True, 5)
        self.alive = False
        self.go.release()
        self.thread.join(5)


ROOT = os.path.join(os.path.realpath(os.environ.get("VERIF_REPO", "/repo")), "expression") + os.sep


def interrupted(fn: Any, ask: Any, stride: int, phase: int, opcodes: bool, limit: int) -> Any:
    """fn(), calling ask at every stride-th line (or bytecode) of the library."""
    left, kind = [phase, limit], "opcode" if opcodes else "line"

    def local(frame: Any, event: str, arg: Any) -> Any:
        if event == kind and left[1]:
            if left[0] == 0:
                left[0], left[1] = stride, left[1] - 1
                ask()
            left[0] -= 1
        return local

    def glob(frame: Any, event: str, arg: Any) -> Any:
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        frame.f_trace_opcodes = opcodes
        return local

    old = sys.gettrace()
    sys.settrace(glob)
    try:
        return fn()
    finally:
        sys.settrace(old)


def interrupted_cases() -> Any:
    pair = st.sampled_from(NAMES).flatmap(lambda n: st.tuples(st.just(n), st.just(n) | st.just(n) | st.sampled_from(NAMES)))
    return st.tuples(st.integers(1, 4), pair, st.integers(0, 6), st.lists(st.integers(0, 6), min_size=1, max_size=3), st.integers(1, 5), st.integers(0, 30), st.booleans())


@PROPERTY.obligation(interrupted_cases, quick=1500, thorough=60000, shards=8)
def interruptions(case: Any, ctx: Ctx) -> None:
    """One use is interrupted again and again, and at each interruption another thread performs a whole use of the same objects."""
    n, (outer, inner), a, bs, stride, phase, opcodes = case
    want_outer, want_inner = by_itself(n, outer, a), [by_itself(n, inner, b) for b in bs]
    e = Env(n)

    def work(i: int) -> None:
        i %= len(bs)
        got = use(e, inner, bs[i])
        expect(got == want_inner[i], f"{inner}({bs[i]}) while {outer}({a}) is interrupted", got, want_inner[i])

    other = Other(work)
    try:
        out = interrupted(lambda: use(e, outer, a), other.ask, stride, phase, opcodes, 150)
    finally:
        other.stop()
    if other.bad is not None:
        raise other.bad
    expect(out == want_outer, f"{outer}({a}) interrupted by {inner}", out, want_outer)
    expect(use(e, outer, a) == want_outer, f"{outer} afterwards")
    ctx.nontrivial(other.count > 0)


HOOKED = [n for n in NAMES if n not in ("opt-text", "opt-new", "union-new", "union-copy", "block-text", "map-read", "map-eq", "numbers", "array-read")]


def nested_cases() -> Any:
    return st.tuples(
        st.integers(1, 4),
        st.sampled_from(HOOKED),
        st.integers(0, 6),
        st.integers(0, 8),
        st.none() | st.sampled_from(NAMES),  # None: the same use again
        st.integers(0, 6),
        st.booleans(),
    )


@PROPERTY.obligation(nested_cases, quick=6000, thorough=80000, shards=4)
def nested(case: Any, ctx: Ctx) -> None:
    """A use from inside the k-th callback call of another use."""
    n, outer, a, k, inner, b, fails = case
    inner = inner or outer
    want_outer, want_inner = by_itself(n, outer, a), by_itself(n, inner, b)
    e = Env(n)
    count = [0]
    got: list[Any] = []

    def hooked() -> None:
        count[0] += 1
        if count[0] == k + 1:
            got.append(use(e, inner, b))
            if fails:
                raise KeyError("from the callback")
        else:
            e.reenter = hooked

    e.reenter = hooked
    try:
        out = use(e, outer, a)
        expect(not (fails and got), "the callback's exception reaches the caller")
        expect(out == want_outer, f"{outer} with {inner} inside", out, want_outer)
    except KeyError as x:
        expect(fails and got and x.args == ("from the callback",), "only the callback's exception", x)
    expect(all(g == want_inner for g in got), f"{inner} inside {outer}", got, want_inner)
    e.reenter = None
    expect(use(e, outer, a) == want_outer, f"{outer} afterwards")
    expect(use(e, inner, b) == want_inner, f"{inner} afterwards")
    ctx.nontrivial(bool(got))


