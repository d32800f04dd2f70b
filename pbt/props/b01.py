"""B01: a Block behaves as an immutable Python sequence under every operation."""

from __future__ import annotations

import zlib
from functools import reduce
from itertools import islice
from typing import Any

from hypothesis import strategies as st

from expression import Error, Nothing, Ok, Option, Some, pipe
from expression.collections import Block, block, seq

from ..core import Ctx, Property, Violation
from ..util import Boom, expect, outcome, same, state_of, step_of, twin
from ..seqstages import m_map
from ..values import Later

PROPERTY = Property(
    "B01",
    rule="chains of Block operations replayed on plain lists, every source re-observed afterwards; non-trivial when the "
    "chain has at least two operations (or the single operation has a boundary argument) and some block in it has at "
    "least two elements",
    assumptions=["callbacks are deterministic and do not mutate their arguments"],
)


class Num(int):
    """An integer with an identity of its own, so that copied or re-created elements are noticed."""

    __slots__ = ()


def elem(code: Any) -> Any:
    """('n', int) -> fresh Num; ('b', [codes]) -> nested Block; ('v', literal) -> the literal."""
    if code[0] == "n":
        return Num(code[1])
    if code[0] == "b":
        return Block([elem(c) for c in code[1]])
    if code[0] == "o":
        return OPTIONS[code[1]]()
    return code[1]


OPTIONS: list[Any] = [lambda: Nothing, lambda: Some(None), lambda: Some(0), lambda: Some(Nothing), lambda: Ok(()), lambda: Error(""), lambda: Some([1]), Later, lambda: iter(()), lambda: len, lambda: float("nan")]


def h(salt: int, x: Any) -> int:
    return zlib.crc32(f"{salt}:{x!r}".encode())


NUMERIC_ELEMS = st.tuples(st.just("n"), st.integers(-5, 9))
ANY_ELEMS = st.one_of(
    st.tuples(st.just("v"), st.sampled_from([None, 0, False, "", (), 0.0, [], {}, 1, True, "x", (1, 2), "ab"])),
    st.tuples(st.just("n"), st.integers(-2, 3)),
    st.tuples(st.just("o"), st.integers(0, len(OPTIONS) - 1)),
    st.tuples(st.just("b"), st.lists(st.tuples(st.just("n"), st.integers(0, 2)), max_size=3)),
)

SELF_EQUAL_ELEMS = ANY_ELEMS.filter(lambda c: c != ("o", len(OPTIONS) - 1))  # without the nan

idx = st.one_of(st.integers(-12, 12), st.integers(-12, 12), st.integers(-140, 140))
oidx = st.one_of(st.none(), idx)


def op_codes(elems: Any) -> Any:
    salt = st.integers(0, 7)
    fail = st.sampled_from([-1, -1, -1, -1, 0, 1, 2])
    j = st.just
    return st.one_of(
        st.tuples(j("cons"), elems),
        st.tuples(j("append"), st.lists(elems, max_size=5)),
        st.tuples(j("add"), st.lists(elems, max_size=5)),
        st.tuples(j("concat"), st.lists(st.lists(elems, max_size=3), max_size=4), st.integers(0, 4)),
        st.tuples(j("slice"), oidx, oidx, st.sampled_from([None, None, 1, 2, -1, -2, 3])),
        st.tuples(j("item"), idx),
        st.tuples(j("head")),
        st.tuples(j("tail")),
        st.tuples(j("take"), idx),
        st.tuples(j("skip"), idx),
        st.tuples(j("take_last"), st.integers(0, 12) | st.integers(0, 140)),
        st.tuples(j("skip_last"), st.integers(0, 12) | st.integers(0, 140)),
        st.tuples(j("map"), salt, fail),
        st.tuples(j("mapi"), salt, fail),
        st.tuples(j("starmap"), salt, fail, st.integers(0, 3)),
        st.tuples(j("filter"), salt, fail),
        st.tuples(j("choose"), salt, fail),
        st.tuples(j("collect"), salt, fail),
        st.tuples(j("partition"), salt, st.integers(0, 1), fail),
        st.tuples(j("fold"), salt, fail),
        st.tuples(j("reduce"), salt, fail),
        st.tuples(j("forall"), salt, fail),
        st.tuples(j("sort_with"), salt, st.booleans()),
        st.tuples(j("zip"), st.lists(elems, max_size=6)),
        st.tuples(j("indexed"), st.integers(-3, 5)),
        st.tuples(j("unfold"), st.integers(0, 6), salt, fail),
        st.tuples(j("rebuild"), st.sampled_from(["of", "of_seq", "ctor", "gen", "seq", "starof"])),
        st.tuples(j("contains"), elems),
        st.tuples(j("iter2"), st.integers(0, 3)),
        st.tuples(j("sum")),
        st.tuples(j("sum_by"), salt),
        st.tuples(j("sort"), st.booleans()),
    )


class Rec:
    """A callback that records its arguments and results and may raise at its k-th call."""

    def __init__(self, fn: Any, fail: int = -1) -> None:
        self.fn, self.fail = fn, fail
        self.args: list[Any] = []
        self.results: list[Any] = []
        self.boom = Boom("callback")

    def __call__(self, *a: Any) -> Any:
        self.args.append(a)
        if len(self.args) - 1 == self.fail:
            raise self.boom
        r = self.fn(*a)
        self.results.append(r)
        return r


def is_list(b: Any, want: list[Any], what: str) -> None:
    expect(isinstance(b, Block), f"{what}: result is a Block", type(b))
    got = list(b)
    if len(got) != len(want) or not all(x is y for x, y in zip(got, want)):
        raise Violation(f"{what}: got {got!r:.500}, expected (by identity) {want!r:.500}")


def pairs_list(b: Any, want: list[tuple[Any, ...]], what: str) -> None:
    expect(isinstance(b, Block), f"{what}: result is a Block", type(b))
    got = list(b)
    expect(
        len(got) == len(want)
        and all(type(x) is tuple and len(x) == len(y) and all(p is q or (type(p) is int and p == q) for p, q in zip(x, y)) for x, y in zip(got, want)),
        f"{what}: got/expected",
        got,
        want,
    )


def tuples_eq(got: list[Any], want: list[Any], what: str) -> None:
    """Argument lists, compared by identity (fresh ints such as indices by value)."""
    expect(
        len(got) == len(want)
        and all(len(x) == len(y) and all(p is q or (type(p) is int and p == q and type(q) is int) for p, q in zip(x, y)) for x, y in zip(got, want)),
        f"{what}: callback calls",
        got,
        want,
    )


def both(f: bool, m: Any, g: Any) -> Any:
    return g() if f else m()


def guarded(what: str, rec: Rec, n_calls: int, run: Any) -> tuple[bool, Any]:
    """Run; a callback scheduled to fail must surface its own exception object. (failed?, value)"""
    try:
        v = run()
    except Boom as e:
        expect(e is rec.boom and 0 <= rec.fail < n_calls, f"{what}: unexpected callback exception", rec.fail, n_calls)
        return True, None
    expect(not (0 <= rec.fail < n_calls), f"{what}: the callback's exception was lost", rec.fail)
    return False, v


def step(f: bool, b: Any, xs: list[Any], op: tuple[Any, ...]) -> tuple[Any, list[Any]]:  # noqa: C901
    """Apply op to the block and to the list; returns the pair to continue with."""
    name = op[0]
    n = len(xs)
    if name == "cons":
        e = elem(op[1])
        r, w = both(f, lambda: b.cons(e), lambda: block.cons(e, b)), [e, *xs]
    elif name in ("append", "add"):
        ys = [elem(c) for c in op[1]]
        if n > 12 and len(ys) % 2:  # about as long as the block
            ys = (ys * n)[: n + len(ys) - 3]
        o = Block(ys)
        r = b + o if name == "add" else both(f, lambda: b.append(o), lambda: pipe(b, block.append(o)))
        is_list(o, ys, f"{name}: other")
        w = xs + ys
    elif name == "concat":
        parts = [[elem(c) for c in p] for p in op[1]]
        parts.insert(min(op[2], len(parts)), xs)
        blocks = [b if p is xs else Block(p) if p or op[2] % 2 else block.empty for p in parts]
        r = block.concat(blocks if f else iter(blocks))
        w = [x for p in parts for x in p]
    elif name == "slice":
        s = slice(*op[1:])
        r, w = b[s], xs[s]
    elif name == "item":
        i = op[1]
        runs = [lambda: b[i], lambda: b.item(i), lambda: pipe(b, block.item(i))]
        for run in runs:
            got = outcome(run)
            want = outcome(lambda: xs[i])
            expect(got[0] == want[0] and (got[1] is want[1]), "item", got, want)
        return b, xs
    elif name == "head":
        for run in (b.head, lambda: block.head(b)):
            got = outcome(run)
            expect(got == ("exc", ValueError) if not xs else got[1] is xs[0], "head", got)
        for opt in (b.try_head(), block.try_head(b)):
            expect(isinstance(opt, Option), "try_head type")
            expect(opt.is_none() if not xs else (opt.is_some() and opt.value is xs[0]), "try_head", opt)
        same(b.is_empty(), not xs, "is_empty")
        same(block.is_empty(b), not xs, "block.is_empty")
        same(len(b), n, "len")
        same(bool(b), bool(xs), "bool")
        return b, xs
    elif name == "tail":
        run = (lambda: block.tail(b)) if f else b.tail
        if not xs:
            same(outcome(run), ("exc", ValueError), "tail of the empty block")
            return b, xs
        r, w = run(), xs[1:]
    elif name == "take":
        r, w = both(f, lambda: b.take(op[1]), lambda: pipe(b, block.take(op[1]))), xs[: op[1]]
    elif name == "skip":
        r, w = both(f, lambda: b.skip(op[1]), lambda: pipe(b, block.skip(op[1]))), xs[op[1] :]
    elif name in ("take_last", "skip_last"):
        k = op[1]
        r = both(f, lambda: getattr(b, name)(k), lambda: pipe(b, getattr(block, name)(k)))
        w = xs[max(0, n - k) :] if name == "take_last" else xs[: max(0, n - k)]
        if k == 0 and n:
            known = xs if name == "take_last" else []
            if len(list(r)) == len(known):
                step.ctx.finding(f"{name}-zero", f"Block.{name}(0)")  # type: ignore[attr-defined]
                w = known
    elif name == "map":
        rec = Rec(twin if op[1] == 7 else lambda x: m_map(op[1], h(op[1], x)), op[2])
        failed, r = guarded(name, rec, n, lambda: both(f, lambda: b.map(rec), lambda: pipe(b, block.map(rec))))
        if failed:
            return b, xs
        tuples_eq(rec.args, [(x,) for x in xs], name)
        w = rec.results
    elif name == "mapi":
        rec = Rec((lambda i, x: twin(x)) if op[1] == 7 else (lambda i, x: m_map(op[1], i, h(op[1], x))), op[2])
        failed, r = guarded(name, rec, n, lambda: both(f, lambda: b.mapi(rec), lambda: pipe(b, block.mapi(rec))))
        if failed:
            return b, xs
        tuples_eq(rec.args, list(enumerate(xs)), name)
        w = rec.results
    elif name == "starmap":
        arity = op[3]
        ts = [tuple([x] * arity) for x in xs] if arity != 2 else [(x, i) for i, x in enumerate(xs)]
        src = Block(ts)
        rec = Rec(lambda *a: m_map(op[1], len(a), h(op[1], a)), op[2])
        fns = {2: block.map2, 3: block.map3}
        fn = fns.get(arity, block.starmap) if op[1] % 2 else block.starmap
        failed, r = guarded(name, rec, n, lambda: both(f, lambda: src.starmap(rec), lambda: pipe(src, fn(rec))))
        if failed:
            return b, xs
        tuples_eq(rec.args, ts, name)
        w = rec.results
    elif name == "filter":
        rec = Rec(lambda x: [0, 1, "", "t", None, True][h(op[1], x) % 6] if op[1] else h(0, x) % 2 == 0, op[2])
        failed, r = guarded(name, rec, n, lambda: both(f, lambda: b.filter(rec), lambda: pipe(b, block.filter(rec))))
        if failed:
            return b, xs
        tuples_eq(rec.args, [(x,) for x in xs], name)
        w = [x for x, k in zip(xs, rec.results) if k]
    elif name == "choose":
        rec = Rec(lambda x: [Nothing, Some(None), Some((x,)), Some(0), Some(Nothing)][h(op[1], x) % 5], op[2])
        failed, r = guarded(name, rec, n, lambda: both(f, lambda: b.choose(rec), lambda: pipe(b, block.choose(rec))))
        if failed:
            return b, xs
        tuples_eq(rec.args, [(x,) for x in xs], name)
        w = [o.value for o in rec.results if o.is_some()]
    elif name == "collect":
        rec = Rec(lambda x: Block([[], [x], [x, x], [None, 0, x]][h(op[1], x) % 4]), op[2])
        failed, r = guarded(name, rec, n, lambda: both(f, lambda: b.collect(rec), lambda: pipe(b, block.collect(rec))))
        if failed:
            return b, xs
        tuples_eq(rec.args, [(x,) for x in xs], name)
        w = [y for ys in rec.results for y in ys]
    elif name == "partition":
        rec = Rec(lambda x: [0, 1, "", "t", None, True][h(op[1], x) % 6], op[3])
        failed, r = guarded(name, rec, n, lambda: both(f, lambda: b.partition(rec), lambda: pipe(b, block.partition(rec))))
        if failed:
            return b, xs
        tuples_eq(rec.args, [(x,) for x in xs], name)
        yes = [x for x, k in zip(xs, rec.results) if k]
        no = [x for x, k in zip(xs, rec.results) if not k]
        expect(type(r) is tuple and len(r) == 2, "partition gives a pair", r)
        is_list(r[0], yes, "partition (true)")
        is_list(r[1], no, "partition (false)")
        r, w = r[op[2]], (yes, no)[op[2]]
    elif name == "fold":
        rec = Rec(lambda s, x: (s, x), op[2])
        seed_state = ([], None, 0, "s")[op[1] % 4]
        failed, r = guarded(
            name, rec, n, lambda: both(f, lambda: b.fold(rec, seed_state), lambda: pipe(b, block.fold(rec, seed_state)))
        )
        if not failed:
            states = [seed_state, *rec.results]
            tuples_eq(rec.args, list(zip(states, xs)), name)
            expect(r is states[-1], "fold result", r, states[-1])
        return b, xs
    elif name == "reduce":
        rec = Rec(lambda s, x: (s, x), op[2])
        run = lambda: both(f, lambda: b.reduce(rec), lambda: pipe(b, block.reduce(rec)))  # noqa: E731
        if not xs:
            same(outcome(run), ("exc", ValueError), "reduce of the empty block")
            return b, xs
        failed, r = guarded(name, rec, n - 1, run)
        if not failed:
            states = [xs[0], *rec.results]
            tuples_eq(rec.args, list(zip(states, xs[1:])), name)
            expect(r is states[-1], "reduce result", r, states[-1])
        return b, xs
    elif name == "forall":
        if op[1] % 4 == 0:  # holds everywhere, or everywhere but for the last element
            want = [True] * n
            if op[1] and n:
                want[-1] = False
            answers = iter(want)
            rec = Rec(lambda x: (next(answers) and "yes") or None, op[2])
        else:
            want = [h(op[1], x) % 4 != 0 for x in xs]
            rec = Rec(lambda x: h(op[1], x) % 4, op[2])
        calls = n if all(want) else want.index(False) + 1
        failed, r = guarded(name, rec, calls, lambda: both(f, lambda: b.forall(rec), lambda: pipe(b, block.forall(rec))))
        if not failed:
            same(bool(r), all(want), "forall")
        return b, xs
    elif name == "sort_with":
        key = lambda x: h(op[1], x) % 3  # noqa: E731  (few keys: stability matters)
        r = both(f, lambda: b.sort_with(key, op[2]), lambda: pipe(b, block.sort_with(key, op[2])))
        w = sorted(xs, key=key, reverse=op[2])
    elif name == "zip":
        ys = [elem(c) for c in op[1]]
        if n > 12 and len(ys) % 2:  # about as long as the block
            ys = (ys * n)[: n + len(ys) - 3]
        o = Block(ys)
        r = both(f, lambda: b.zip(o), lambda: pipe(b, block.zip(o)))
        pairs_list(r, list(zip(xs, ys)), "zip")
        return r, list(r)
    elif name == "indexed":
        s0 = op[1]
        r = both(f, lambda: b.indexed(s0) if s0 else b.indexed(), lambda: block.indexed(b))
        pairs_list(r, list(enumerate(xs, 0 if f else s0)), "indexed")
        return r, list(r)
    elif name == "unfold":
        k = op[1]
        made: list[Any] = []

        def gen(state: Any) -> Any:
            s = step_of(state, op[2])
            if s >= k:
                return Nothing
            made.append([None, 0, (s,), ""][(s + op[2]) % 4])
            return Some((made[-1], state_of(s + 1, op[2])))

        rec = Rec(gen, op[3])
        failed, r = guarded(name, rec, k + 1, lambda: both(f, lambda: Block.unfold(rec, state_of(0, op[2])), lambda: pipe(state_of(0, op[2]), block.unfold(rec))))
        if failed:
            return b, xs
        same([a[0] for a in rec.args], [state_of(i, op[2]) for i in range(k + 1)], "unfold: states passed to the generator")
        w = made
    elif name == "rebuild":
        how = op[1]
        r = {
            "of": lambda: both(f, lambda: Block.of(*xs), lambda: block.of(*xs)),
            "of_seq": lambda: both(f, lambda: Block.of_seq(xs), lambda: block.of_seq(tuple(xs))),
            "ctor": lambda: Block(b),
            "gen": lambda: both(f, lambda: Block(x for x in xs), lambda: block.of_seq(iter(b))),
            "seq": lambda: Block(seq.of_iterable(b)),
            "starof": lambda: both(f, lambda: Block.of(*b), lambda: Block(list(b))),
        }[how]()
        w = xs
        for k in range(min(n, 3) + 1):  # of one element, which may itself be iterable
            for of in (Block.of, block.of):
                is_list(of(*xs[:k]), xs[:k], f"of {k} elements")
            for of_seq in (Block.of_seq, block.of_seq, Block):
                is_list(of_seq(xs[:k]), xs[:k], f"from a list of {k} elements")
                is_list(of_seq(tuple(xs[:k])), xs[:k], f"from a tuple of {k} elements")
                is_list(of_seq(x for x in xs[:k]), xs[:k], f"from a generator of {k} elements")
                is_list(of_seq(dict(enumerate(xs[:k])).values()), xs[:k], f"from a view of {k} elements")
                is_list(of_seq(Block(xs[:k])), xs[:k], f"from a block of {k} elements")
        for source in ("", "abc", range(3), {2: "a", 1: "b"}, b"xy", {5}):
            for of_seq in (Block.of_seq, block.of_seq, Block):
                same(list(of_seq(source)), list(source), f"from {source!r}")
    elif name == "contains":
        e = elem(op[1])
        same(e in b, e in xs, "membership")
        for x in xs:
            same(x in b, True, "membership of an own element")
        return b, xs
    elif name == "iter2":
        it1, it2 = iter(b), iter(b)
        got1 = list(islice(it1, op[1]))
        got2 = list(it2)
        is_list(Block(got2), xs, "second iterator")
        is_list(Block(got1 + list(it1)), xs, "first iterator, resumed")
        is_list(Block(list(reversed(b))), xs[::-1], "reversed")
        match b:
            case Block([]):
                same(len(xs), 0, "matching the empty block")
            case Block([only]):
                expect(len(xs) == 1 and only is xs[0], "matching one element", only, xs)
            case Block([first, second]):
                expect(len(xs) == 2 and first is xs[0] and second is xs[1], "matching two elements", first, second, xs)
            case Block([head, *tail]):
                expect(len(xs) > 2 and head is xs[0], "matching head and tail", head, xs)
                is_list(Block(tail), xs[1:], "matching the tail")
            case _:
                expect(False, "a block matches some pattern of elements", b)
        return b, xs
    elif name in ("sum", "sum_by", "sort"):
        nums = [x for x in xs if isinstance(x, Num)]
        src = Block(nums)
        if name == "sum":
            same(int(both(f, src.sum, lambda: block.sum(src))), sum(nums), "sum")
            return b, xs
        if name == "sum_by":
            rec = Rec(lambda x: x * op[1] + 1)
            same(int(both(f, lambda: src.sum_by(rec), lambda: pipe(src, block.sum_by(rec)))), sum(x * op[1] + 1 for x in nums), "sum_by")
            tuples_eq(rec.args, [(x,) for x in nums], name)
            return b, xs
        rev = op[1]
        r = both(f, lambda: src.sort(rev) if rev else src.sort(), lambda: pipe(src, block.sort(rev)) if rev else pipe(src, block.sort()))
        is_list(src, nums, "sort: source")
        w = sorted(nums, reverse=rev)
    else:
        raise AssertionError(name)
    is_list(r, w, name)
    return r, w


def chains() -> Any:
    def build(elems: Any) -> Any:
        return st.tuples(
            st.lists(elems, max_size=10),
            st.lists(st.tuples(st.booleans(), op_codes(elems)), min_size=1, max_size=8),
            st.sampled_from([1, 1, 1, 1, 1, 1, 4, 9, 20]),  # the initial list is repeated this often
        )

    return st.one_of(build(NUMERIC_ELEMS), build(ANY_ELEMS))


@PROPERTY.obligation(chains, quick=12000, shards=6)
def operation_chains(case: Any, ctx: Ctx) -> None:
    init, ops, times = case
    step.ctx = ctx  # type: ignore[attr-defined]
    xs = [elem(c) for c in init * times]
    if times > 1:
        ops = ops[:4]
    b = Block(xs)
    versions: list[tuple[Any, list[Any]]] = [(b, list(xs))]
    for f, op in ops:
        b, xs = step(f, b, list(xs), op)
        versions.append((b, list(xs)))
        for vb, vx in versions:  # no operation may change a block that already exists
            is_list(vb, vx, f"after {op[0]}: an existing block")
    ctx.nontrivial(any(len(v) > 1 for _, v in versions) and (len(ops) > 1 or (ops[0][1][0] in ("slice", "take", "skip", "item", "take_last", "skip_last"))))


@PROPERTY.obligation(
    lambda: st.tuples(st.sampled_from([1, 2, 3]), st.integers(900, 6000), st.integers(0, 7)), quick=25, thorough=600, fixed=[(1, 5000, 1)]
)
def thousands_of_elements(case: Any, ctx: Ctx) -> None:
    """Every operation also works on long blocks (no recursion over the elements)."""
    _, n, salt = case
    step.ctx = ctx  # type: ignore[attr-defined]
    xs: list[Any] = [Num(i * 7919 % n) for i in range(n)]
    b = Block(xs)
    for f in (False, True):
        for op in [
            ("map", salt, -1), ("mapi", salt, -1), ("filter", 0, -1), ("choose", salt, -1), ("collect", salt, -1), ("partition", salt, 0, -1),
            ("reduce", salt, -1), ("forall", salt, -1), ("forall", 4, -1), ("zip", (("n", 1), ("n", 2), ("n", 3))), ("sort_with", salt, True), ("sort", False), ("sum",), ("sum_by", salt), ("indexed", 3),
            ("tail",), ("head",), ("take", n - 3), ("skip", n - 3), ("take_last", n - 2), ("skip_last", n - 2), ("item", -n), ("item", n), ("slice", None, None, -1),
            ("cons", ("n", 1)), ("rebuild", "seq"), ("rebuild", "starof"), ("starmap", 0, -1, 2),
        ]:  # fmt: skip
            step(f, b, list(xs), op)
    states: list[int] = []
    got = Block.unfold(lambda s: Nothing if s >= n else Some((s, s + 1)), 0)
    same(list(got), list(range(n)), "unfold")
    same(list(Block.range(n)), list(range(n)), "range")
    b.fold(lambda s, x: states.append(x), None)
    same([int(x) for x in states], [int(x) for x in xs], "fold")
    parts = [b.skip(i).take(10) for i in range(0, n, 10)]
    is_list(block.concat(parts), xs, "concat of many blocks")
    ctx.nontrivial(True)


@PROPERTY.obligation(
    lambda: st.tuples(
        st.lists(ANY_ELEMS, max_size=5),
        st.sampled_from(["same", "copy", "prefix", "extend", "tweak", "swap", "other"]),
        st.lists(ANY_ELEMS, max_size=5),
        st.integers(0, 9) | st.integers(-9, 99),
        st.sampled_from([1, 1, 1, 1, 5, 20]),  # the first list is repeated this often
    ),
    quick=5000,
)
def equality(case: Any, ctx: Ctx) -> None:
    """== holds exactly when the elements are pairwise equal, != is its negation."""
    init, how, other, i, times = case
    init = init * times
    xs = [elem(c) for c in init]
    if how == "same":
        ys = list(xs)
    elif how == "copy":
        ys = [elem(c) for c in init]
    elif how == "prefix":
        ys = xs[: i % (len(xs) + 1)] if i >= 0 else xs[:i]
    elif how == "extend":
        ys = xs + [elem(c) for c in other]
    elif how == "tweak":
        ys = list(xs)
        if xs and other:
            ys[i % len(xs)] = elem(other[0])
    elif how == "swap":
        ys = xs[::-1]
    else:
        ys = [elem(c) for c in other]
    want = len(xs) == len(ys) and all(p is q or p == q for p, q in zip(xs, ys))
    a, b = Block(xs), block.of_seq(ys)
    same(a == b, want, "==")
    same(b == a, want, "== (swapped)")
    same(a != b, not want, "!=")
    same(a == a, True, "reflexive")
    via = block.empty
    for y in reversed(ys):
        via = via.cons(y)
    same(a == via, want, "== whatever the history")
    same(Block([a]) == Block([b]), want, "nested ==")
    ctx.nontrivial(len(xs) > 1 and len(ys) > 1)


@PROPERTY.obligation(
    lambda: st.one_of(
        st.tuples(st.integers(-9, 9)),
        st.tuples(st.integers(-9, 9), st.integers(-9, 9)),
        st.tuples(st.integers(-9, 9), st.integers(-9, 9), st.integers(-3, 3)),
    ),
    quick=800,
)
def constructors(case: Any, ctx: Ctx) -> None:
    want = outcome(lambda: list(range(*case)))
    for fn in (Block.range, block.range):
        got = outcome(lambda: list(fn(*case)))  # noqa: B023
        same(got, want, "range")
    for v in (None, 0, (), [], Nothing, Some(None), case):
        for fn in (Block.singleton, block.singleton):
            is_list(fn(v), [v], "singleton")
        for fn in (Block.of_option, block.of_option):
            is_list(fn(Some(v)), [v], "of_option(Some)")
    for fn in (Block.of_option, block.of_option):
        is_list(fn(Nothing), [], "of_option(Nothing)")
    for e in (Block.empty(), block.empty, block.nil, Block(), block.of(), Block.of_seq([])):
        is_list(e, [], "empty")
    same(reduce(lambda s, x: s + x, Block.range(5), 0), 10, "reduce")
    ctx.nontrivial(want[0] == "ok" and len(want[1]) > 1)
