"""Stages of lazy sequence programs: each code has a reference meaning (plain generators) and two real spellings.

A program is (source code, [stage codes]).  `Env` counts what a run does: elements read from each instrumented
source and calls of each stage's callback.
"""

from __future__ import annotations

import itertools
import zlib
from collections import Counter
from typing import Any, Callable, Iterator

from hypothesis import strategies as st

from expression import Nothing, Some, pipe
from expression.collections import Block, Seq, seq

from .util import Boom, state_of, step_of
from .values import Later


def h(salt: int, x: Any) -> int:
    return zlib.crc32(f"{salt}:{x!r}".encode())


class Cap(BaseException):
    """The run did more work than its bound."""


class Source:
    """A repeatable iterable that counts how many elements were taken from it."""

    def __init__(self, env: "Env", key: Any, item: Callable[[int], Any], n: int | None) -> None:
        self.env, self.key, self.item, self.n = env, key, item, n

    def __iter__(self) -> Iterator[Any]:
        def gen() -> Iterator[Any]:
            i = 0
            while self.n is None or i < self.n:
                self.env.tick()
                self.env.reads[self.key] += 1
                yield self.item(i)
                i += 1

        return gen()


class Env:
    def __init__(self, fail: tuple[int, int] | None = None) -> None:
        self.reads: Counter[Any] = Counter()
        self.calls: Counter[Any] = Counter()
        self.fail = fail
        self.ticks = 0
        self.cap: int | None = None

    def tick(self) -> None:
        """Bounds runs over infinite sources."""
        self.ticks += 1
        if self.cap is not None and self.ticks > self.cap:
            raise Cap

    def source(self, key: Any, items: tuple[Any, ...] | int | None) -> Source:
        """items: a tuple of elements, an int n for 0..n-1, or None for 0, 1, 2, ... forever"""
        self.tick()
        if items is None or isinstance(items, int):
            return Source(self, key, lambda i: i, items)
        return Source(self, key, lambda i: items[i], len(items))

    def cb(self, stage: int, fn: Callable[..., Any]) -> Callable[..., Any]:
        def wrapped(*a: Any) -> Any:
            self.tick()
            self.calls[stage] += 1
            if self.fail == (stage, self.calls[stage]):
                raise Boom(("callback", stage))
            return fn(*a)

        return wrapped


# ------------------------------------------------------------------ codes
elems = st.one_of(st.integers(-5, 9), st.sampled_from([None, 0, False, "", (), 1, True, 1.0, "ab", (1, 2)]))
salt = st.integers(0, 7)
count = st.one_of(st.integers(-2, 9), st.integers(0, 3))


def stage_codes(infinite_inner: bool = False) -> Any:
    j = st.just
    tup = st.lists(elems, max_size=5).map(tuple)
    other = st.one_of(tup, st.none()) if infinite_inner else tup
    return st.one_of(
        st.tuples(j("map"), salt),
        st.tuples(j("starmap"), salt, st.integers(0, 4)),
        st.tuples(j("mapi"), salt),
        st.tuples(j("filter"), salt),
        st.tuples(j("choose"), salt),
        st.tuples(j("collect"), salt),
        st.tuples(j("concat"), salt),
        st.tuples(j("append"), st.lists(other, max_size=3).map(tuple)),
        st.tuples(j("skip"), count),
        st.tuples(j("take"), count),
        st.tuples(j("tail")),
        st.tuples(j("scan"), salt),
        st.tuples(j("pairwise")),
        st.tuples(j("zip"), other, st.booleans()),
        st.tuples(j("delay"), st.booleans()),
        st.tuples(j("wrap"), st.sampled_from(["Seq", "of_iterable", "of_list"])),
    )


def m_choose(s: int, x: Any) -> list[Any]:
    return [[], [None], [(x,)], [0], [x], [False]][h(s, x) % 6]


def m_collect(s: int, x: Any) -> list[Any]:
    return [[], [x], [x, None], [0, x, (x,)]][h(s, x) % 4]


LATER = Later()


def m_map(s: int, *xs: Any) -> Any:
    """What a mapping function returns: anything at all."""
    pool = [(s, *xs), (s, *xs), xs[-1] if xs else None, None, 0, "", "ab", [*xs], Nothing, Some(xs), LATER, {1: s}]
    return pool[h(s, xs) % len(pool)]


def truthy(s: int, x: Any) -> Any:
    return [0, 1, "", "t", None, True, (), (0,)][h(s, x) % 8]


# ------------------------------------------------------------------ reference meaning
def ref_stage(env: Env, i: int, code: tuple[Any, ...], src: Callable[[], Iterator[Any]]) -> Callable[[], Iterator[Any]]:
    name = code[0]

    def gen() -> Iterator[Any]:  # noqa: C901
        if name == "map":
            f = env.cb(i, lambda x: m_map(code[1], x))
            for x in src():
                yield f(x)
        elif name == "starmap":
            f = env.cb(i, lambda *a: m_map(code[1], len(a), *a))
            for x in src():
                yield f(*(x,) * code[2])
        elif name == "mapi":
            f = env.cb(i, lambda k, x: m_map(code[1], k, x))
            for k, x in enumerate(src()):
                yield f(k, x)
        elif name == "filter":
            f = env.cb(i, lambda x: truthy(code[1], x))
            for x in src():
                if f(x):
                    yield x
        elif name == "choose":
            f = env.cb(i, lambda x: m_choose(code[1], x))
            for x in src():
                yield from f(x)
        elif name == "collect":
            f = env.cb(i, lambda x: env.source((i, "inner"), tuple(m_collect(code[1], x))))
            for x in src():
                yield from f(x)
        elif name == "concat":
            for x in src():
                yield from env.source((i, "inner"), tuple(m_collect(code[1], x)))
        elif name == "append":
            yield from src()
            for k, o in enumerate(code[1]):
                yield from env.source((i, k), o)
        elif name == "skip":
            it = src()
            for _ in range(code[1]):
                if next(it, env) is env:
                    return
            yield from it
        elif name == "tail":
            it = src()
            if next(it, env) is not env:
                yield from it
        elif name == "take":
            if code[1] > 0:
                it = src()
                for k, x in enumerate(it):
                    yield x
                    if k + 1 >= code[1]:
                        return
        elif name == "scan":
            f = env.cb(i, lambda s, x: m_map(code[1], h(code[1], s), x))
            s: Any = [None, 0, (), "s"][code[1] % 4]
            yield s
            for x in src():
                s = f(s, x)
                yield s
        elif name == "pairwise":
            prev: Any = env
            for x in src():
                if prev is not env:
                    yield (prev, x)
                prev = x
        elif name == "zip":
            o = iter(env.source((i, 0), code[1]))
            a, b = (o, src()) if code[2] else (src(), o)
            for x in a:
                for y in b:
                    yield (x, y)
                    break
                else:
                    return
        elif name == "delay":
            env.cb(i, lambda: None)()
            yield from src()
        else:
            yield from src()

    return gen


# ------------------------------------------------------------------ the real thing
def real_stage(env: Env, i: int, code: tuple[Any, ...], xs: Any, method: bool) -> Any:  # noqa: C901
    """xs is any iterable; method style wraps it in a Seq and uses the fluent API."""
    name = code[0]
    s = Seq(xs) if method and not isinstance(xs, Seq) else xs
    if name == "map":
        f = env.cb(i, lambda x: m_map(code[1], x))
        return s.map(f) if method else pipe(xs, seq.map(f))
    if name == "starmap":
        f = env.cb(i, lambda *a: m_map(code[1], len(a), *a))
        if method:
            return Seq(seq.map(lambda x: (x,) * code[2])(xs)).starmap(f)
        fn = {2: seq.map2, 3: seq.map3}.get(code[2], seq.starmap) if code[1] % 2 else seq.starmap
        return pipe(xs, seq.map(lambda x: (x,) * code[2]), fn(f))
    if name == "mapi":
        f = env.cb(i, lambda k, x: m_map(code[1], k, x))
        return s.mapi(f) if method else pipe(xs, seq.mapi(f))
    if name == "filter":
        f = env.cb(i, lambda x: truthy(code[1], x))
        return s.filter(f) if method else pipe(xs, seq.filter(f))
    if name == "choose":
        f = env.cb(i, lambda x: (lambda r: Some(r[0]) if r else Nothing)(m_choose(code[1], x)))
        return s.choose(f) if method else pipe(xs, seq.choose(f))
    if name == "collect":
        f = env.cb(i, lambda x: env.source((i, "inner"), tuple(m_collect(code[1], x))))
        if method:
            return s.collect(lambda x: Seq(f(x)))
        return pipe(xs, seq.collect((lambda x: iter(f(x))) if code[1] % 2 else f))
    if name == "concat":
        inner = lambda x: Seq(env.source((i, "inner"), tuple(m_collect(code[1], x))))  # noqa: E731
        if method:
            return s.map(inner).concat()
        return pipe(xs, seq.map(inner), seq.collect(lambda x: x))
    if name == "append":
        others = [env.source((i, k), o) for k, o in enumerate(code[1])]
        if method:
            return s.append(*others)
        return seq.concat(xs, *others) if len(others) % 2 else pipe(xs, seq.append(*others))
    if name == "skip":
        return s.skip(code[1]) if method else pipe(xs, seq.skip(code[1]))
    if name == "tail":
        return s.tail() if method else seq.tail(xs)
    if name == "take":
        return s.take(code[1]) if method else pipe(xs, seq.take(code[1]))
    if name == "scan":
        f = env.cb(i, lambda st_, x: m_map(code[1], h(code[1], st_), x))
        st0 = [None, 0, (), "s"][code[1] % 4]
        return s.scan(f, st0) if method else pipe(xs, seq.scan(f, st0))
    if name == "pairwise":
        return s.pairwise() if method else seq.pairwise(xs)
    if name == "zip":
        o = env.source((i, 0), code[1])
        if code[2]:
            return Seq(o).zip(xs) if method else seq.zip(o)(xs)
        return s.zip(o) if method else seq.zip(xs)(o)
    if name == "delay":
        f0 = env.cb(i, lambda: None)

        def once() -> Iterator[Any]:
            yield from xs

        def gen() -> Any:
            f0()
            return once() if code[1] else xs

        return Seq.delay(gen) if method else seq.delay(gen)
    if name == "wrap":
        return {"Seq": Seq, "of_iterable": seq.of_iterable if not method else Seq.of_iterable, "of_list": seq.of_list}[code[1]](xs)
    raise AssertionError(name)


# ------------------------------------------------------------------ sources the library itself provides
def source_codes(infinite: bool) -> Any:
    j = st.just
    fin = [
        st.tuples(st.sampled_from(["src", "list", "tuple", "block", "seq", "of", "map"]), st.lists(elems, max_size=9).map(tuple)),
        st.tuples(st.sampled_from(["src", "src", "list", "tuple", "block", "seq", "of"]), st.lists(elems, min_size=4, max_size=12).map(tuple)),
        st.tuples(j("range"), st.integers(-5, 9), st.integers(-5, 9), st.sampled_from([1, 2, -1, -3, 3])),
        st.tuples(j("unfold"), st.integers(0, 9), salt),
        st.tuples(j("singleton"), elems),
        st.tuples(j("empty"), st.integers(0, 3)),
    ]
    inf = [
        st.tuples(j("count")),
        st.tuples(j("infinite")),
        st.tuples(j("init_infinite"), salt),
        st.tuples(j("unfold_forever"), salt),
    ]
    return st.one_of(*fin, *(inf if infinite else []))


def ref_source(env: Env, code: tuple[Any, ...]) -> Callable[[], Iterator[Any]]:
    name = code[0]

    def gen() -> Iterator[Any]:
        if name == "src":
            yield from env.source("src", code[1])
        elif name == "range":
            yield from range(*code[1:])
        elif name == "unfold":
            f = env.cb("src", lambda x: x)
            for k in range(code[1]):
                f(k)
                yield [None, 0, k, (k,)][(k + code[2]) % 4]
            f(code[1])
        elif name == "singleton":
            yield code[1]
        elif name == "empty":
            pass
        elif name == "count":
            yield from env.source("src", None)
        elif name == "infinite":
            yield from itertools.count()
        elif name == "forever":
            while True:
                env.tick()
                yield code[1]
        elif name == "init_infinite":
            f = env.cb("src", lambda k: (k, code[1]))
            for k in itertools.count():
                yield f(k)
        elif name == "unfold_forever":
            f = env.cb("src", lambda k: k)
            for k in itertools.count():
                yield f(k)
        else:
            yield from code[1]

    return gen


def real_source(env: Env, code: tuple[Any, ...], method: bool) -> Any:  # noqa: C901
    name = code[0]
    if name == "src":
        return env.source("src", code[1])
    if name == "list":
        return list(code[1])
    if name == "tuple":
        return code[1]
    if name == "block":
        return Block(code[1])
    if name == "seq":
        return Seq(list(code[1]))
    if name == "of":
        return Seq.of(*code[1]) if method else seq.of(*code[1])
    if name == "map":
        return seq.of_list(list(code[1]))
    if name == "range":
        return Seq.range(*code[1:]) if method else seq.range(*code[1:])
    if name == "unfold":
        f = env.cb("src", lambda x: x)

        def g(state: Any) -> Any:
            k = step_of(state, code[2])
            f(k)
            return Nothing if k >= code[1] else Some(([None, 0, k, (k,)][(k + code[2]) % 4], state_of(k + 1, code[2])))

        first = state_of(0, code[2])
        return Seq.unfold(g, first) if method else pipe(first, seq.unfold(g))
    if name == "singleton":
        return seq.singleton(code[1])
    if name == "empty":
        return [Seq.empty(), seq.empty, Seq(), seq.of()][code[1]]
    if name == "count":
        return env.source("src", None)
    if name == "infinite":
        return seq.infinite
    if name == "init_infinite":
        f = env.cb("src", lambda k: (k, code[1]))
        return seq.init_infinite(f)
    if name == "unfold_forever":
        f = env.cb("src", lambda k: k)
        return pipe(0, seq.unfold(lambda k: Some((f(k), k + 1))))
    raise AssertionError(name)


def ref_program(env: Env, src: Any, stages: Any) -> Callable[[], Iterator[Any]]:
    it = ref_source(env, src)
    for i, (_m, code) in enumerate(stages):
        it = ref_stage(env, i, code, it)
    return it


def real_program(env: Env, src: Any, stages: Any, method0: bool, one_shot: bool = False) -> Any:
    xs = real_source(env, src, method0)
    if one_shot:
        xs = (x for x in xs)
    for i, (m, code) in enumerate(stages):
        xs = real_stage(env, i, code, xs, m)
    return xs
