"""A01: a TypedArray behaves as a mutable Python list under every history."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from expression import Nothing, Option, Some, pipe
from expression.collections import TypedArray, array

from ..core import Ctx, Property, Violation
from ..util import expect, outcome, same, state_of, step_of, twin
from ..seqstages import m_map
from .b01 import SELF_EQUAL_ELEMS as ANY_ELEMS
from .b01 import Rec, elem, guarded, h, tuples_eq

TypeCode = array.TypeCode

PROPERTY = Property(
    "A01",
    rule="histories of up to 14 mutations/transformations over a growing set of arrays (each derived array stays alive and is "
    "re-observed after every step), replayed on plain lists; non-trivial when at least one mutation took effect while "
    "another array derived from the same one was alive",
    assumptions=["slice assignment into machine-typed storage is exercised with slices of arrays of the same type (the storage rejects plain lists)"],
)

# machine-typed storage: element range used by the generator (limits themselves are A02's business)
CODES = {
    "Byte": (0, 255), "Int8": (-128, 127), "Int16": (-300, 300), "Int32": (-300, 300), "Int64": (-300, 300),
    "Uint8": (0, 255), "Uint16": (0, 300), "Uint32": (0, 300), "Uint64": (0, 300), "Float": (-9, 9), "Double": (-9, 9),
}  # fmt: skip


class Kind:
    """How elements of one array kind are made and compared."""

    def __init__(self, name: str) -> None:
        self.name = name

    def make(self, code: Any) -> Any:
        if self.name == "any":
            return elem(code)
        lo, hi = CODES[self.name]
        v = lo + (h(3, code) % (hi - lo + 1))
        return float(v) / 2 if self.name in ("Float", "Double") else v

    def eq(self, x: Any, y: Any) -> bool:
        if self.name == "any":
            return x is y
        return type(x) is type(y) and x == y


ANY = Kind("any")


def check(a: Any, want: list[Any], kind: Kind, what: str) -> None:
    expect(isinstance(a, TypedArray), f"{what}: is a TypedArray", type(a))
    got = list(a)
    if len(got) != len(want) or not all(kind.eq(x, y) for x, y in zip(got, want)):
        raise Violation(f"{what}: got {got!r:.500}, expected {want!r:.500}")
    same(len(a), len(want), f"{what}: len")


idx = st.one_of(st.integers(-9, 9), st.integers(-9, 9), st.integers(-140, 140))
oidx = st.one_of(st.none(), idx)
step_ = st.sampled_from([None, None, None, 1, 2, -1, -2])


def ops() -> Any:
    j = st.just
    e = ANY_ELEMS
    salt = st.integers(0, 7)
    fail = st.sampled_from([-1, -1, -1, 0, 1])
    mut = st.one_of(
        st.tuples(j("set"), idx, e),
        st.tuples(j("del"), idx),
        st.tuples(j("delslice"), oidx, oidx, step_),
        st.tuples(j("setslice"), oidx, oidx, step_, st.lists(e, max_size=4)),
        st.tuples(j("insert"), idx, e),
        st.tuples(j("append"), e),
        st.tuples(j("extend"), st.lists(e, max_size=4), st.sampled_from(["list", "self", "gen", "array", "iadd"])),
        st.tuples(j("pop"), st.one_of(st.none(), idx)),
        st.tuples(j("remove"), idx, e),
        st.tuples(j("reverse")),
        st.tuples(j("clear")),
        st.tuples(j("while"), e, st.sampled_from(["append", "insert", "set", "pop"])),
    )
    tr = st.one_of(
        st.tuples(j("map"), salt, fail),
        st.tuples(j("filter"), salt, fail),
        st.tuples(j("choose"), salt, fail),
        st.tuples(j("collect"), salt, fail),
        st.tuples(j("take"), idx),
        st.tuples(j("skip"), idx),
        st.tuples(j("take_last"), st.integers(0, 9) | st.integers(0, 140)),
        st.tuples(j("skip_last"), st.integers(0, 9) | st.integers(0, 140)),
        st.tuples(j("sort_with"), salt, st.booleans()),
        st.tuples(j("sort"), st.booleans()),
        st.tuples(j("indexed"), st.integers(-2, 5)),
        st.tuples(j("tail")),
        st.tuples(j("unfold"), st.integers(0, 6), salt),
        st.tuples(j("copy"), st.sampled_from(["ctor", "of", "of_seq", "of_seq_fn", "slice", "gen", "small"])),
    )
    obs = st.one_of(
        st.tuples(j("fold"), salt, fail),
        st.tuples(j("sum"), salt),
        st.tuples(j("forall"), salt),
        st.tuples(j("look"), idx, e),
        st.tuples(j("getslice"), oidx, oidx, step_),
        st.tuples(j("eq"), idx),
    )
    return st.one_of(mut, mut, tr, obs)


def new_typed(kind: Kind, xs: Any) -> Any:
    return TypedArray(xs) if kind.name == "any" else TypedArray(xs, TypeCode[kind.name])


def mutate(a: Any, m: list[Any], kind: Kind, op: tuple[Any, ...]) -> bool:  # noqa: C901
    """Apply a mutation to the array and the list; True if it took effect."""
    name = op[0]

    def both(fa: Any, fm: Any, result: bool = False) -> bool:
        before = list(m)
        want = outcome(fm)
        got = outcome(fa)
        same(got[0], want[0], f"{name}: outcome {got!r:.200} / {want!r:.200}")
        if want[0] == "exc":
            expect(got[1] is want[1], f"{name}: exception", got, want)
        elif result:
            expect(kind.eq(got[1], want[1]), f"{name}: result", got, want)
        return len(before) != len(m) or any(x is not y for x, y in zip(before, m))

    if name == "set":
        v = kind.make(op[2])
        return both(lambda: a.__setitem__(op[1], v), lambda: m.__setitem__(op[1], v))
    if name == "del":
        return both(lambda: a.__delitem__(op[1]), lambda: m.__delitem__(op[1]))
    if name == "delslice":
        s = slice(*op[1:4])
        return both(lambda: a.__delitem__(s), lambda: m.__delitem__(s))
    if name == "setslice":
        s = slice(*op[1:4])
        vs = [kind.make(c) for c in op[4]]
        if op[3] not in (None, 1):
            vs = (vs * 10)[: len(range(*s.indices(len(m))))] if vs else []
            if len(vs) != len(range(*s.indices(len(m)))):
                return False
        src: Any = vs
        if kind.name != "any":
            src = new_typed(kind, vs)[:]
        return both(lambda: a.__setitem__(s, src), lambda: m.__setitem__(s, vs))
    if name == "insert":
        v = kind.make(op[2])
        return both(lambda: a.insert(op[1], v), lambda: m.insert(op[1], v))
    if name == "append":
        v = kind.make(op[1])
        return both(lambda: a.append(v), lambda: m.append(v))
    if name == "extend":
        vs = [kind.make(c) for c in op[1]]
        how = op[2]
        if how == "self":
            return both(lambda: a.extend(a), lambda: m.extend(list(m)))
        if how == "iadd":
            return both(lambda: a.__iadd__(vs) and None, lambda: m.__iadd__(vs) and None)
        src = {"list": vs, "gen": (v for v in vs), "array": new_typed(kind, vs)}[how]
        return both(lambda: a.extend(src), lambda: m.extend(vs))
    if name == "pop":
        if op[1] is None:
            return both(lambda: a.pop(), lambda: m.pop(), True)
        return both(lambda: a.pop(op[1]), lambda: m.pop(op[1]), True)
    if name == "remove":
        v = m[op[1]] if -len(m) <= op[1] < len(m) else kind.make(op[2])
        return both(lambda: a.remove(v), lambda: m.remove(v))
    if name == "reverse":
        return both(a.reverse, m.reverse)
    if name == "clear":
        return both(a.clear, m.clear)
    if name == "while":  # changed from inside the loop over it
        v = kind.make(op[1])

        def looping(xs: Any) -> Any:
            seen = []
            for x in xs:
                seen.append(x)
                if len(seen) > 12:
                    break
                if op[2] == "append" and len(seen) <= 3:
                    xs.append(v)
                elif op[2] == "insert" and len(seen) <= 2:
                    xs.insert(0, v)
                elif op[2] == "set":
                    xs[-1] = v
                elif op[2] == "pop" and len(xs) > 1:
                    xs.pop()
            return seen

        before = list(m)
        got, want = looping(a), looping(m)
        expect(len(got) == len(want) and all(kind.eq(x, y) for x, y in zip(got, want)), f"loop with {op[2]}", got, want)
        return len(before) != len(m)
    raise AssertionError(name)


MUTATIONS = {"set", "del", "delslice", "setslice", "insert", "append", "extend", "pop", "remove", "reverse", "clear", "while"}


def transform(ctx: Ctx, f: bool, a: Any, m: list[Any], kind: Kind, op: tuple[Any, ...]) -> tuple[Any, list[Any], Kind] | None:  # noqa: C901
    """A derived array with its model, or None for pure observations (and failed callbacks)."""
    name = op[0]
    n = len(m)
    args1 = [(x,) for x in m]

    def args_ok(rec: Rec) -> None:
        if kind.name == "any":
            tuples_eq(rec.args, args1, name)
        else:
            same(rec.args, args1, f"{name}: callback calls")

    def pick(meth: Any, fn: Any = None) -> Any:
        return fn() if f and fn is not None else meth()

    if name == "map":
        rec = Rec(twin if op[1] == 7 else lambda x: m_map(op[1], h(op[1], x)), op[2])
        failed, r = guarded(name, rec, n, lambda: pick(lambda: a.map(rec), lambda: pipe(a, array.map(rec))))
        if failed:
            return None
        args_ok(rec)
        return r, rec.results, ANY
    if name == "filter":
        rec = Rec(lambda x: [0, 1, "", "t", None, True][h(op[1], x) % 6], op[2])
        failed, r = guarded(name, rec, n, lambda: pick(lambda: a.filter(rec), lambda: pipe(a, array.filter(rec))))
        if failed:
            return None
        args_ok(rec)
        return r, [x for x, k in zip(m, rec.results) if k], kind
    if name == "choose":
        rec = Rec(lambda x: [Nothing, Some(None), Some((x,)), Some(0)][h(op[1], x) % 4], op[2])
        failed, r = guarded(name, rec, n, lambda: a.choose(rec))
        if failed:
            return None
        args_ok(rec)
        return r, [o.value for o in rec.results if o.is_some()], ANY
    if name == "collect":
        rec = Rec(lambda x: TypedArray([[], [None], ["a", 0], [(x,)]][h(op[1], x) % 4]), op[2])
        failed, r = guarded(name, rec, n, lambda: a.collect(rec))
        if failed:
            return None
        args_ok(rec)
        return r, [y for ys in rec.results for y in ys], ANY
    if name == "take":
        return pick(lambda: a.take(op[1]), lambda: pipe(a, array.take(op[1]))), m[: op[1]], kind
    if name == "skip":
        return a.skip(op[1]), m[op[1] :], kind
    if name in ("take_last", "skip_last"):
        k = op[1]
        if name == "take_last":
            r = pick(lambda: a.take_last(k), lambda: pipe(a, array.take_last(k)))
            w = m[max(0, n - k) :]
        else:
            r, w = a.skip_last(k), m[: max(0, n - k)]
        if k == 0 and n:
            known = list(m) if name == "take_last" else []
            if len(r) == len(known):
                ctx.finding(f"{name}-zero", f"TypedArray.{name}(0)")
                w = known
        return r, w, kind
    if name == "sort_with":
        key = lambda x: h(op[1], x) % 3  # noqa: E731
        return a.sort_with(key, op[2]), sorted(m, key=key, reverse=op[2]), kind
    if name == "sort":
        try:
            w = sorted(m, reverse=op[1])
        except TypeError:
            return None
        return (a.sort(op[1]) if op[1] else a.sort()), w, kind
    if name == "indexed":
        r = pick(lambda: a.indexed(op[1]) if op[1] else a.indexed(), lambda: pipe(a, array.indexed(op[1])) if op[1] else pipe(a, array.indexed()))
        w = list(enumerate(m, op[1]))
        got = list(r)
        expect(
            len(got) == len(w) and all(type(x) is tuple and len(x) == 2 and x[0] == y[0] and kind.eq(x[1], y[1]) for x, y in zip(got, w)),
            "indexed", got, w,
        )  # fmt: skip
        return r, got, ANY
    if name == "tail":
        if not m:
            same(outcome(a.tail), ("exc", ValueError), "tail of the empty array")
            return None
        return a.tail(), m[1:], kind
    if name == "unfold":
        k = op[1]
        made: list[Any] = []

        def gen(state: Any) -> Any:
            s = step_of(state, op[2])
            if s >= k:
                return Nothing
            made.append([None, 0, (s,), ""][(s + op[2]) % 4])
            return Some((made[-1], state_of(s + 1, op[2])))

        first = state_of(0, op[2])
        r = pick(lambda: TypedArray.unfold(gen, first), lambda: pipe(first, array.unfold(gen)))
        return r, made, ANY
    if name == "copy" and op[1] == "small":  # empty, singleton, of_option
        if n % 3 == 0:
            return (array.empty() if f else TypedArray.empty()), [], ANY
        if n % 3 == 1:
            return array.singleton(m[0]), [m[0]], kind
        if f:
            return array.of_option(Some(m[0])), [m[0]], kind
        return array.of_option(Nothing), [], ANY
    if name == "copy":
        r = {
            "ctor": lambda: new_typed(kind, a),
            "of": lambda: array.of(*m) if f else TypedArray.of(*m),
            "of_seq": lambda: TypedArray.of_seq(m),
            "of_seq_fn": lambda: array.of_seq(iter(a)),
            "slice": lambda: TypedArray(a[:]),
            "gen": lambda: new_typed(kind, (x for x in m)),
        }[op[1]]()
        return r, list(m), kind
    # ------------------------------------------------ observations
    if name == "fold":
        rec = Rec(lambda s, x: (s, x), op[2])
        zero = [0, None, "", (), 1, False, (2,), "s"][op[1] % 8]
        failed, r = guarded(name, rec, n, lambda: pick(lambda: a.fold(rec, zero), lambda: pipe(a, array.fold(rec, zero))))
        if not failed:
            w: Any = zero
            for x in m:
                w = (w, x)
            same(r, w, "fold")
    elif name == "sum":
        nums = [x for x in m if isinstance(x, (int, float))]
        src = TypedArray(nums)
        same(pick(src.sum, lambda: array.sum(src)) + 0, sum(nums) + 0, "sum")
        rec = Rec(lambda x: h(op[1], x) % 7)
        same(pick(lambda: a.sum_by(rec), lambda: pipe(a, array.sum_by(rec))), sum(h(op[1], x) % 7 for x in m), "sum_by")
    elif name == "forall":
        p = lambda x: h(op[1], x) % 3  # noqa: E731
        same(bool(a.forall(p)), all(map(p, m)), "forall")
        same(bool(a.forall(lambda x: True)), True, "forall that holds everywhere")
        if m:
            for i in {0, len(m) // 2, len(m) - 1}:
                at = iter(range(len(m)))
                same(bool(a.forall(lambda x: next(at) != i)), False, "forall that fails at one element")  # noqa: B023
    elif name == "look":
        i = op[1]
        for run in (lambda: a[i], lambda: a.item(i), lambda: pipe(a, array.item(i))):
            got, want = outcome(run), outcome(lambda: m[i])
            expect(got[0] == want[0] and (got[1] is want[1] or (got[0] == "ok" and kind.eq(got[1], want[1]))), "item", got, want)
        got = outcome(a.head)
        expect(got == ("exc", ValueError) if not m else kind.eq(got[1], m[0]), "head", got)
        for o in (a.try_head(), array.try_head(a)):
            expect(isinstance(o, Option) and (o.is_none() if not m else o.is_some() and kind.eq(o.value, m[0])), "try_head", o)
        same(a.is_empty(), not m, "is_empty")
        same(array.is_empty(a), not m, "array.is_empty")
        v = kind.make(op[2])
        same(v in a, v in m, "membership")
        same(a.count(v), m.count(v), "count")
        same(outcome(lambda: a.index(v)), outcome(lambda: m.index(v)), "index")
        expect(all(kind.eq(x, y) for x, y in zip(reversed(a), m[::-1])), "reversed")
        match a:
            case []:
                same(len(m), 0, "matching the empty array")
            case [head, *tail]:
                expect(len(m) >= 1 and kind.eq(head, m[0]), "matching the head", head, m)
                expect(len(tail) == len(m) - 1 and all(kind.eq(x, y) for x, y in zip(tail, m[1:])), "matching the tail", tail, m)
            case _:
                expect(False, "an array matches a sequence pattern", a)
    elif name == "getslice":
        s = slice(*op[1:])
        got_l, want_l = list(a[s]), m[s]
        expect(len(got_l) == len(want_l) and all(kind.eq(x, y) for x, y in zip(got_l, want_l)), "slice", got_l, want_l)
    elif name == "eq":
        same(a == TypedArray(list(m)), True, "== an array of the same elements")
        same(a == TypedArray([*m, 1]), False, "== a longer array")
        same(TypedArray([*m, 1]) == a, False, "== a shorter array")
        if m:
            other = list(m)
            i = op[1] % n
            other[i] = object()
            same(a == TypedArray(other), False, "== an array differing in one element")
            same(a != TypedArray(other), True, "!= an array differing in one element")
    else:
        raise AssertionError(name)
    return None


@PROPERTY.obligation(
    lambda: st.tuples(
        st.sampled_from(["any", "any", "any", *CODES]),
        st.lists(ANY_ELEMS, max_size=7),
        st.lists(st.tuples(st.integers(0, 20), st.booleans(), ops()), min_size=1, max_size=14),
        st.sampled_from([1, 1, 1, 1, 1, 1, 4, 9, 20]),  # the initial list is repeated this often
    ),
    quick=10000,
    shards=6,
)
def histories(case: Any, ctx: Ctx) -> None:
    kname, init, steps, times = case
    kind = Kind(kname)
    xs = [kind.make(c) for c in init * times]
    if times > 1:
        steps = steps[:6]
    versions: list[tuple[Any, list[Any], Kind]] = [(new_typed(kind, xs), list(xs), kind)]
    hit = False
    for which, f, op in steps:
        a, m, k = versions[which % len(versions)]
        if op[0] in MUTATIONS:
            hit |= mutate(a, m, k, op) and len(versions) > 1
        else:
            r = transform(ctx, f, a, list(m), k, op)
            if r is not None:
                check(r[0], r[1], r[2], op[0])
                versions.append((r[0], list(r[1]), r[2]))
        for i, (va, vm, vk) in enumerate(versions):
            check(va, vm, vk, f"after {op[0]}: array {i}")
    ctx.label(kname)
    ctx.nontrivial(hit)


OTHERS: list[Any] = [None, 0, 1, 2.5, object(), True, (lambda: 0), {0: 1}, {1}, iter([1]), Some(1), Nothing, "", "ab", b"", int]


@PROPERTY.obligation(
    lambda: st.tuples(
        st.sampled_from(["any", *CODES]),
        st.lists(st.integers(0, 2), max_size=6),
        st.lists(st.integers(0, 2), max_size=6) | st.none(),
        st.sampled_from(["any", *CODES]),
        st.integers(0, len(OTHERS) - 1),
        st.sampled_from([0, 0, 0, 15, 120]),  # so many common elements in front
    ),
    quick=3000,
    thorough=40000,
)
def equality(case: Any, ctx: Ctx) -> None:
    """Equality is by elements, whatever the storage, as for lists; anything else is different."""
    k1, xs, ys_, k2, other, front = case
    xs = [i % 3 for i in range(front)] + xs
    ys = xs if ys_ is None else [i % 3 for i in range(front)] + ys_
    a = TypedArray(xs) if k1 == "any" else TypedArray(xs, typecode=TypeCode[k1])
    b = TypedArray(ys) if k2 == "any" else TypedArray(ys, typecode=TypeCode[k2])
    same(a == b, xs == ys, "a == b")
    same(b == a, xs == ys, "b == a")
    same(a != b, xs != ys, "a != b")
    same(a == a, True, "a == a")  # noqa: PLR0124
    same(a == ys, xs == ys, "array == list")
    same(ys == a, xs == ys, "list == array")
    o = OTHERS[other]
    if not (isinstance(o, str | bytes) and len(o) == len(xs)):
        same(a == o, False, "array == something else")
        same(o == a, False, "something else == array")
        same(a != o, True, "array != something else")
        same([o, a].index(a), 1, "finding the array among others")
    same([i for i, v in enumerate([b, None, a]) if v == a], [0, 2] if xs == ys else [2], "comparing in a mixed list")
    same(outcome(lambda: hash(a)), ("exc", TypeError), "mutable, so not hashable")
    ctx.nontrivial(len(xs) >= 2 and len(ys) >= 2)
