"""P01: parsers implement ordered-choice grammar semantics with exact positions."""

from __future__ import annotations

import random
import re
import string
from typing import Any

from hypothesis import strategies as st

from expression import Error, Nothing, Ok, Option, Result, Some
from expression.collections import Block
from expression.extra import parser as P

from ..core import Ctx, Property
from ..util import Boom, expect, same
from ..values import Later

PROPERTY = Property(
    "P01",
    rule="grammars over all combinators (nested up to four deep, shared subparsers included) with inputs sampled from the grammar, mutated "
    "or random, parsed from every start position; non-trivial when the grammar has at least three combinators and consumes something",
    assumptions=["literals of up to 40 characters, alternatives of up to 30, numbers of up to 4000 digits"],
)

ALPHABET = "ab1-.,( )\u00e90"
VALUES: list[Any] = [None, 0, "", (), 1, "v", Nothing, Some(None), Ok(1), Error("e"), Later(), len]
FAIL = object()


# ---------------------------------------------------------------- grammars
def grammars(depth: int) -> Any:
    char = st.sampled_from("ab1-.,(")
    leaf = st.one_of(
        st.tuples(st.just("char"), char),
        st.tuples(st.just("char"), char),
        st.tuples(st.just("any"), st.text("ab1-.,", min_size=1, max_size=4)),
        st.tuples(st.just("str"), st.text("ab1", max_size=4)),
        st.tuples(st.just("ret"), st.integers(0, len(VALUES) - 1)),
        st.sampled_from([("digit",), ("lower",), ("letters",), ("digits",), ("ws",), ("pint",), ("pfloat",), ("fail", "no"), ("fail", "")]),
    )
    if depth == 0:
        return leaf
    g = st.deferred(lambda: grammars(depth - 1))
    return st.one_of(
        leaf.map(lambda x: x),  # one alternative among the others, not six
        st.tuples(st.sampled_from(["and", "or", "sep_by", "sep_by1", "then_ignore", "ignore_then", "lift2", "apply"]), g, g),
        st.tuples(st.sampled_from(["and", "or", "or"]), g, g),
        st.tuples(st.sampled_from(["many", "many1", "opt", "ignore", "map", "many", "opt"]), g),
        st.tuples(st.sampled_from(["choice", "seq"]), st.lists(g, min_size=1, max_size=4).map(tuple)),
        st.tuples(st.just("seq"), st.just(())),
        st.tuples(st.sampled_from(["between", "bind"]), g, g, g),
        st.tuples(st.just("starmap"), st.integers(2, 3), st.tuples(g, g, g)),
        st.tuples(st.just("starts"), st.text("ab", max_size=3), st.text("ab", max_size=2)),
        st.tuples(st.just("boom"), g),
    )


def pick(v: Any) -> bool:
    return len(repr(norm(v))) % 2 == 0


def norm(v: Any) -> Any:
    """Values as plain data that tells types apart."""
    if isinstance(v, Block):
        return ("block", [norm(x) for x in v])
    if isinstance(v, Option):
        return ("some", norm(v.value)) if v.is_some() else ("nothing",)
    if isinstance(v, Result):
        return ("ok", norm(v.ok)) if v.is_ok() else ("error", norm(v.error))
    if isinstance(v, tuple):
        return tuple(norm(x) for x in v)
    if isinstance(v, list):
        return [norm(x) for x in v]
    return v


# ---------------------------------------------------------------- reference: a recogniser working on plain data
def ref(g: Any, s: str, i: int) -> Any:  # noqa: C901
    """(value, next position) or FAIL."""
    op = g[0]
    if op == "char":
        return (g[1], i + 1) if s[i : i + 1] == g[1] else FAIL
    if op in ("any", "digit", "lower", "letters"):
        chars = {"any": lambda: g[1], "digit": lambda: "0123456789", "lower": lambda: string.ascii_lowercase, "letters": lambda: string.ascii_letters}[op]()
        return (s[i], i + 1) if i < len(s) and s[i] in chars else FAIL
    if op == "str":
        return (g[1], i + len(g[1])) if s.startswith(g[1], i) else FAIL
    if op in ("digits", "ws"):
        j = i
        while j < len(s) and s[j] in ("0123456789" if op == "digits" else string.whitespace):
            j += 1
        return (("block", list(s[i:j])), j) if j > i else FAIL
    if op in ("pint", "pfloat"):
        m = re.compile(r"-?[0-9]+" if op == "pint" else r"-?[0-9]+(\.[0-9]+)?").match(s, i)
        return ((int if op == "pint" else float)(m.group()), m.end()) if m else FAIL
    if op == "ret":
        return norm(VALUES[g[1]]), i
    if op == "fail":
        return FAIL
    if op in ("and", "then_ignore", "ignore_then", "lift2", "apply"):
        a = ref(g[1], s, i)
        if a is FAIL:
            return FAIL
        b = ref(g[2], s, a[1])
        if b is FAIL:
            return FAIL
        v = {"and": (a[0], b[0]), "then_ignore": a[0], "ignore_then": b[0], "lift2": ("l", a[0], b[0]), "apply": ("ap", a[0], b[0])}[op]
        return v, b[1]
    if op in ("or", "choice"):
        for x in g[1:] if op == "or" else g[1]:
            a = ref(x, s, i)
            if a is not FAIL:
                return a
        return FAIL
    if op == "seq":
        out = []
        for x in g[1]:
            a = ref(x, s, i)
            if a is FAIL:
                return FAIL
            out.append(a[0])
            i = a[1]
        return ("block", out), i
    if op in ("many", "many1"):
        out = []
        if op == "many1":
            a = ref(g[1], s, i)
            if a is FAIL:
                return FAIL
            out.append(a[0])
            i = a[1]
        while True:
            a = ref(g[1], s, i)
            if a is FAIL or a[1] == i:
                return ("block", out), i
            out.append(a[0])
            i = a[1]
    if op in ("sep_by", "sep_by1"):
        a = ref(g[1], s, i)
        if a is FAIL:
            return (("block", []), i) if op == "sep_by" else FAIL
        rest = ref(("many", ("ignore_then", g[2], g[1])), s, a[1])
        return ("block", [a[0], *rest[0][1]]), rest[1]
    if op == "opt":
        a = ref(g[1], s, i)
        return (("nothing",), i) if a is FAIL else (("some", a[0]), a[1])
    if op == "ignore":
        a = ref(g[1], s, i)
        return FAIL if a is FAIL else (None, a[1])
    if op == "map":
        a = ref(g[1], s, i)
        return FAIL if a is FAIL else (("m", a[0]), a[1])
    if op == "boom":
        a = ref(g[1], s, i)
        if a is FAIL:
            return FAIL
        if len(repr(a[0])) % 4 == 3:
            raise Boom("mapper")
        return a
    if op == "between":
        return ref(("then_ignore", ("ignore_then", g[1], g[3]), g[2]), s, i)
    if op == "bind":
        a = ref(g[1], s, i)
        if a is FAIL:
            return FAIL
        b = ref(g[2] if len(repr(a[0])) % 2 == 0 else g[3], s, a[1])
        return FAIL if b is FAIL else (b[0], b[1])
    if op == "starmap":
        vs = []
        for x in g[2][: g[1]]:
            a = ref(x, s, i)
            if a is FAIL:
                return FAIL
            vs.append(a[0])
            i = a[1]
        return ("s", *vs), i
    if op == "starts":
        a = ref(("and", ("str", g[1]), ("str", g[2])), s, i)
        return FAIL if a is FAIL else (g[1].startswith(g[2]), a[1])
    raise AssertionError(op)


def raising(v: Any) -> Any:
    if len(repr(norm(v))) % 4 == 3:
        raise Boom("mapper")
    return v


def build(g: Any, fn: bool, memo: dict[Any, Any] | None) -> Any:  # noqa: C901
    """The library parser; fn chooses function over method forms, memo shares equal subparsers."""
    if memo is not None and repr(g) in memo:
        return memo[repr(g)]

    def b(x: Any) -> Any:
        return build(x, fn, memo)

    op = g[0]
    if op == "char":
        p = P.pchar(g[1]) if fn else P.Parser.pchar(g[1])
    elif op == "any":
        p = P.any_of(g[1]) if fn else P.Parser.any_of(g[1])
    elif op in ("digit", "lower", "letters", "digits", "ws", "pint", "pfloat"):
        p = {"digit": P.parse_digit, "lower": P.parse_lowercase, "letters": P.parse_letters, "digits": P.digits, "ws": P.whitespace, "pint": P.pint, "pfloat": P.pfloat}[op]
    elif op == "str":
        p = P.pstring(g[1])
    elif op == "ret":
        p = P.preturn(VALUES[g[1]])
    elif op == "fail":
        p = P.fail(g[1]) if fn else P.Parser.fail(g[1])
    elif op == "and":
        p = P.and_then(b(g[2]))(b(g[1])) if fn else b(g[1]).and_then(b(g[2]))
    elif op == "or":
        p = P.or_else(b(g[1]))(b(g[2])) if fn else b(g[1]).or_else(b(g[2]))
    elif op == "then_ignore":
        p = P.then_ignore(b(g[2]))(b(g[1])) if fn else b(g[1]).then_ignore(b(g[2]))
    elif op == "ignore_then":
        p = P.ignore_then(b(g[2]))(b(g[1])) if fn else b(g[1]).ignore_then(b(g[2]))
    elif op == "lift2":
        p = P.lift2(lambda x: lambda y: ("l", x, y))(b(g[1]))(b(g[2]))
    elif op == "apply":
        f = P.map(lambda x: lambda y: ("ap", x, y))(b(g[1])) if fn else b(g[1]).map(lambda x: lambda y: ("ap", x, y))
        p = P.apply(f, b(g[2]))
    elif op == "choice":
        p = P.choice(Block([b(x) for x in g[1]]))
    elif op == "seq":
        p = P.sequence(Block([b(x) for x in g[1]]))
    elif op == "many":
        p = P.many(b(g[1]))
    elif op == "many1":
        p = P.many1(b(g[1]))
    elif op == "sep_by":
        p = P.sep_by(b(g[1]), b(g[2]))
    elif op == "sep_by1":
        p = P.sep_by1(b(g[1]), b(g[2]))
    elif op == "opt":
        p = P.opt(b(g[1])) if fn else b(g[1]).opt()
    elif op == "ignore":
        p = P.ignore(b(g[1])) if fn else b(g[1]).ignore()
    elif op == "map":
        p = P.map(lambda v: ("m", v))(b(g[1])) if fn else b(g[1]).map(lambda v: ("m", v))
    elif op == "boom":
        p = P.map(raising)(b(g[1])) if fn else b(g[1]).map(raising)
    elif op == "between":
        p = P.between(b(g[1]))(b(g[2]))(b(g[3])) if fn else b(g[3]).between(b(g[1]), b(g[2]))
    elif op == "bind":
        yes, no = b(g[2]), b(g[3])
        choose = lambda v: yes if pick(v) else no  # noqa: E731
        p = P.bind(choose)(b(g[1])) if fn else b(g[1]).bind(choose)
    elif op == "starmap":
        xs = [b(x) for x in g[2][: g[1]]]
        tup = xs[0].and_then(xs[1])
        if g[1] == 3:
            tup = tup.and_then(xs[2]).map(lambda t: (*t[0], t[1]))
        m = lambda *a: ("s", *a)  # noqa: E731
        p = P.starmap(m)(tup) if fn else tup.starmap(m)
    elif op == "starts":
        p = P.starts_with(P.pstring(g[1]))(P.pstring(g[2]))
    else:
        raise AssertionError(op)
    if memo is not None:
        memo[repr(g)] = p
    return p


# ---------------------------------------------------------------- inputs
def sample(g: Any, r: random.Random) -> str:
    op = g[0]
    if op in ("char", "str"):
        return g[1]
    if op == "any":
        return r.choice(g[1])
    if op in ("digit", "lower", "letters"):
        return r.choice({"digit": "019", "lower": "abz", "letters": "abZ"}[op])
    if op == "digits":
        return "".join(r.choice("0123456789") for _ in range(r.randint(1, 3)))
    if op == "ws":
        return r.choice([" ", "\t ", "\n"])
    if op == "pint":
        return r.choice(["", "-"]) + str(r.randint(0, 120))
    if op == "pfloat":
        return r.choice(["1.5", "-0", "12", "3.", "-.5", "07.10", "1.5.2"])
    if op in ("ret", "fail"):
        return ""
    if op == "or":
        return sample(r.choice(g[1:]), r)
    if op == "choice":
        return sample(r.choice(g[1]), r)
    if op == "seq":
        return "".join(sample(x, r) for x in g[1])
    if op in ("many", "many1"):
        return "".join(sample(g[1], r) for _ in range(r.randint(op == "many1", 3)))
    if op in ("sep_by", "sep_by1"):
        n = r.randint(op == "sep_by1", 3)
        return "".join((sample(g[2], r) if k else "") + sample(g[1], r) for k in range(n)) + (sample(g[2], r) if r.random() < 0.3 else "")
    if op == "opt":
        return sample(g[1], r) if r.random() < 0.6 else ""
    if op in ("ignore", "map", "boom"):
        return sample(g[1], r)
    if op == "between":
        return sample(g[1], r) + sample(g[3], r) + sample(g[2], r)
    if op == "bind":
        return sample(g[1], r) + sample(r.choice(g[2:]), r)
    if op == "starmap":
        return "".join(sample(x, r) for x in g[2][: g[1]])
    if op == "starts":
        return g[1] + g[2]
    return sample(g[1], r) + sample(g[2], r)


@st.composite
def cases(draw: Any) -> Any:
    g = draw(grammars(draw(st.integers(1, 4))))
    texts = []
    for _ in range(draw(st.integers(1, 3))):
        how = draw(st.integers(0, 3))
        if how == 0:
            texts.append(draw(st.text(ALPHABET, max_size=8)))
            continue
        r = random.Random(draw(st.integers(0, 10**6)))
        t = sample(g, r)[:40]
        if how == 1 and t:
            k = r.randrange(len(t) + 1)
            t = r.choice([t[:k] + t[k + 1 :], t[:k] + r.choice(ALPHABET) + t[k:], t[:k], t + t])[:40]
        texts.append(t + (draw(st.text(ALPHABET, max_size=3)) if how == 2 else ""))
    return (g, tuple(texts), draw(st.sampled_from([0, 0, 0, 0, 0, 90, 400])))


def size(g: Any) -> int:
    return 1 + sum(size(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else sum(size(y) for y in x) for x in g[1:] if isinstance(x, tuple))


def ref_outcome(g: Any, s: str, i: int) -> Any:
    try:
        out = ref(g, s, i)
    except Boom:
        return ("boom",)
    return ("fail",) if out is FAIL else ("ok", out[0], out[1])


def real_outcome(p: Any, s: str, i: int) -> Any:
    try:
        r = p.run((s, i))
    except Boom:
        return ("boom",)
    expect(isinstance(r, Result), "a result", r)
    if r.is_error():
        expect(isinstance(r.error, str), "an error text", r.error)
        return ("fail",)
    value, (rest, pos) = r.ok
    expect(rest == s, "the input itself is handed on", rest, s)
    return ("ok", norm(value), pos)


LEAVES = ["char", "char", "char", "any", "str", "ret", "digit", "lower", "letters", "digits", "ws", "pint", "pfloat", "fail"]
NODES = ["and", "or", "or", "sep_by", "sep_by1", "then_ignore", "ignore_then", "lift2", "apply", "many", "many1", "opt", "ignore", "map", "choice", "seq", "between", "bind", "starmap", "starts"]


def random_grammar(n: int, r: random.Random) -> Any:
    """A grammar of about n nodes."""
    if n <= 1:
        op = r.choice(LEAVES)
        if op == "char":
            return (op, r.choice("ab1-.,("))
        if op == "any":
            return (op, "".join(r.sample("ab1-.,", r.randint(1, 4))))
        if op == "str":
            return (op, "".join(r.choice("ab1") for _ in range(r.randint(0, 4))))
        if op == "ret":
            return (op, r.randrange(len(VALUES)))
        return (op, "no") if op == "fail" else (op,)
    op = r.choice(NODES)
    arity = {"many": 1, "many1": 1, "opt": 1, "ignore": 1, "map": 1, "between": 3, "bind": 3, "starmap": 3}.get(op, 2)
    if op in ("choice", "seq"):
        arity = r.randint(1, 4)
    if op == "starts":
        return (op, r.choice(["", "a", "ab"]), r.choice(["", "b"]))
    left, parts = n - 1, []
    for k in range(arity, 0, -1):
        m = left if k == 1 else r.randint(1, max(1, left - k + 1))
        parts.append(random_grammar(m, r))
        left = max(1, left - m)
    if op in ("choice", "seq"):
        return (op, tuple(parts))
    if op == "starmap":
        return (op, r.randint(2, 3), tuple(parts))
    return (op, *parts)


@PROPERTY.obligation(lambda: st.tuples(st.integers(2, 30), st.integers(0, 2**32)), quick=4000, thorough=150000, shards=5)
def larger_grammars(case: Any, ctx: Ctx) -> None:
    """Grammars of up to thirty nodes with inputs derived from them, whole, mutated and cut."""
    n, seed = case
    r = random.Random(seed)
    g = random_grammar(n, r)
    variants = [("methods", build(g, False, None)), ("functions", build(g, True, {}))]
    texts = []
    for how in range(4):
        t = sample(g, r)[:60]
        if how and t:
            k = r.randrange(len(t) + 1)
            t = r.choice([t[:k] + t[k + 1 :], t[:k] + r.choice(ALPHABET) + t[k:], t[:k], t + t])[:60]
        texts.append(t)
    for s in texts:
        for i in {0, len(s) // 2, r.randrange(len(s) + 1), len(s)}:
            want = ref_outcome(g, s, i)
            for what, p in variants:
                same(real_outcome(p, s, i), want, f"{what}: {g!r} on {s!r} at {i}")
            ctx.nontrivial(want[0] == "ok" and want[2] > i and n >= 4)
            ctx.label(want[0])


@PROPERTY.obligation(cases, quick=5000, shards=4)
def grammar_semantics(case: Any, ctx: Ctx) -> None:
    g, texts, pad = case
    variants = [("methods", build(g, False, None)), ("functions", build(g, True, None)), ("shared", build(g, True, {}))]
    for s in texts:
        if pad:  # far into a long input
            t, k = "#a1" * (pad // 3) + s, pad // 3 * 3
            for i in range(k, len(t) + 1):
                want = ref_outcome(g, t, i)
                for what, p in variants:
                    same(real_outcome(p, t, i), want, f"{what}: {g!r} on {t!r} at {i}")
            continue
        for i in range(len(s) + 1):
            want = ref_outcome(g, s, i)
            for what, p in variants:
                same(real_outcome(p, s, i), want, f"{what}: {g!r} on {s!r} at {i}")
            ctx.nontrivial(want[0] == "ok" and want[2] > i and size(g) >= 4)
            ctx.label(want[0])
        want = ref_outcome(g, s, 0)
        for what, p in variants:  # the calling form, and once more: parsing leaves no trace
            try:
                r = p(s)
                got = ("fail",) if r.is_error() else ("ok", norm(r.ok))
            except Boom:
                got = ("boom",)
            same(got, want[:2], f"{what}: call of {g!r} on {s!r}")
            same(real_outcome(p, s, 0), want, f"{what}: {g!r} on {s!r} again")
    if g[0] == "fail":
        same(variants[0][1](""), Error(g[1]), "the given failure")


def numbers() -> Any:
    return st.tuples(
        st.sampled_from(["", "-", "--", "+", " "]),
        st.text("0123456789", max_size=25),
        st.sampled_from(["", ".", "..", ".-", "e"]),
        st.text("0123456789", max_size=20),
        st.sampled_from(["", "x", ".", "-1", " ", "\u0663", "_1", "e5"]),
        st.integers(0, 2),
    )


@PROPERTY.obligation(numbers, quick=4000, shards=2)
def number_parsers(case: Any, ctx: Ctx) -> None:
    sign, whole, dot, frac, tail, pad = case
    s = "#" * pad + sign + whole + dot + frac + tail
    for g, p in ((("pint",), P.pint), (("pfloat",), P.pfloat), (("digits",), P.digits)):
        want = ref_outcome(g, s, pad)
        same(real_outcome(p, s, pad), want, f"{g[0]} on {s!r} at {pad}")
        ctx.nontrivial(want[0] == "ok" and len(s) > 3)
    got = P.pint(s[pad:])
    m = re.match(r"-?[0-9]+", s[pad:])
    same(got.is_ok(), m is not None, "pint succeeds")
    if m:
        same(got, Ok(int(m.group())), "pint value")


CONFUSABLE = "09azAZ-._+, \t\n\r\x0b\x0c\x1c\x1f\x85\xa0\u2003\u3000\u200b\ufeff\u0660\u0669\uff10\u00b2\u00bd\u2460\u00e9e\u0301\u00df\u017f\u212a\u0130i\u0131\u2212\u2010\u00ad\U0001d7d8\U0001f600\x00\x7f"


@PROPERTY.obligation(
    lambda: st.tuples(
        st.lists(st.sampled_from(CONFUSABLE) | st.characters(), min_size=1, max_size=12).map("".join),
        st.lists(st.sampled_from(CONFUSABLE) | st.characters(), min_size=1, max_size=3).map("".join),
        st.sampled_from([0, 1, 130]),
    ),
    quick=1600,
    thorough=80000,
    shards=2,
)
def characters(case: Any, ctx: Ctx) -> None:
    """Which characters a primitive accepts, over all of Unicode: nothing is folded, normalised or guessed."""
    s, lit, pad = case
    gs: list[Any] = [("digit",), ("lower",), ("letters",), ("digits",), ("ws",), ("pint",), ("pfloat",), ("any", lit)]
    gs += [("char", c) for c in lit] + [("str", lit), ("str", lit.swapcase()), ("char", lit[0].swapcase()[:1])]
    for t in (s, lit + s):
        t = "#" * pad + t
        for g in gs:
            p = build(g, False, None)
            for i in range(pad, len(t)):
                same(real_outcome(p, t, i), ref_outcome(g, t, i), f"{g!r} on {t!r} at {i}")
    ctx.nontrivial(any(ord(c) > 127 for c in s + lit))


def arith() -> Any:
    num = st.integers(0, 99).map(lambda n: ("n", n))
    return st.recursive(num, lambda e: st.one_of(st.tuples(st.sampled_from("+-*"), e, e), st.tuples(st.just("p"), e)), max_leaves=12)


def text_of(t: Any) -> str:
    if t[0] == "n":
        return str(t[1])
    if t[0] == "p":
        return f"({text_of(t[1])})"
    left, right = text_of(t[1]), text_of(t[2])
    if t[0] == "*":
        left = f"({left})" if t[1][0] in "+-" else left
        right = f"({right})" if t[2][0] in "+-*" else right
    elif t[2][0] in "+-":
        right = f"({right})"
    return f"{left}{t[0]}{right}"


def arith_parser() -> Any:
    """A recursive grammar, tied through bind."""
    import functools
    import operator

    def chain(item: Any, ops: dict[str, Any]) -> Any:
        op = P.any_of("".join(ops)).map(lambda c: ops[c])
        return item.and_then(P.many(op.and_then(item))).starmap(lambda first, rest: functools.reduce(lambda acc, p: p[0](acc, p[1]), rest, first))

    number = P.digits.map(lambda ds: int("".join(ds)))
    lazy: list[Any] = []
    paren = P.pchar("(").bind(lambda _: lazy[0].then_ignore(P.pchar(")")))
    expr = chain(chain(paren.or_else(number), {"*": operator.mul}), {"+": operator.add, "-": operator.sub})
    lazy.append(expr)
    return expr


@PROPERTY.obligation(lambda: st.tuples(arith(), st.sampled_from(["", ")", "+", "*(", "(", "-)", "1)"]), st.integers(0, 3)), quick=1500, shards=2)
def recursive_grammar(case: Any, ctx: Ctx) -> None:
    t, tail, cut = case
    s = text_of(t)
    expr = arith_parser()
    # ambiguous tails that extend the expression are left to the reference of the longest evaluable prefix
    full = s + tail
    if tail in ("", ")", "+", "*(", "(", "-)"):
        got = expr.run((full, 0))
        expect(got.is_ok(), "parses", got)
        v, (_, pos) = got.ok
        same((v, pos), (eval(s), len(s)), f"value and position for {full!r}")  # noqa: S307
    if cut and s:
        part = s[:-cut]
        best = None
        for k in range(len(part), 0, -1):
            if re.fullmatch(r"[0-9+*()-]*", part[:k]):
                try:
                    v = eval(part[:k])  # noqa: S307
                except SyntaxError:
                    continue
                if isinstance(v, int) and not re.search(r"(^|[+*(-])[+-]", part[:k]):
                    best = (v, k)
                    break
        got = expr.run((part, 0))
        if best is None:
            expect(got.is_error(), "no prefix is an expression", part, got)
        else:
            expect(got.is_ok() and (got.ok[0], got.ok[1][1]) == best, "longest prefix", part, got, best)
    ctx.nontrivial(len(s) > 4)


@PROPERTY.obligation(lambda: st.tuples(st.integers(12, 300) | st.integers(300, 6000), st.sampled_from(["many", "many1", "sep_by", "pint", "pfloat", "digits", "ws", "deepsep"]), st.booleans()), quick=96, thorough=1600, shards=4)
def long_input(case: Any, ctx: Ctx) -> None:
    n, what, tail = case
    end = "!" if tail else ""
    ab = P.any_of("ab")
    if what in ("many", "many1"):
        s = "ab" * (n // 2) + end
        p = P.many(ab) if what == "many" else P.many1(ab)
        want: Any = (("block", list("ab" * (n // 2))), n // 2 * 2)
    elif what == "sep_by":
        s = ",".join("a" * (n // 2)) + end
        p = P.sep_by(ab, P.pchar(","))
        want = (("block", list("a" * (n // 2))), 2 * (n // 2) - 1)
    elif what == "deepsep":
        s = ";".join(["a,b"] * (n // 4)) + end
        p = P.sep_by1(P.sep_by(ab, P.pchar(",")), P.pchar(";"))
        want = (("block", [("block", ["a", "b"])] * (n // 4)), 4 * (n // 4) - 1)
    elif what == "pint":
        k = min(n, 4000)
        s = "7" * k + end
        p, want = P.pint, (int("7" * k), k)
    elif what == "pfloat":
        s = "-" + "7" * 250 + "." + "3" * n + end
        p, want = P.pfloat, (float("-" + "7" * 250 + "." + "3" * n), n + 252)
    else:
        c = "4" if what == "digits" else " "
        s = c * n + end
        p, want = (P.digits if what == "digits" else P.whitespace), (("block", [c] * n), n)
    r = p.run((s, 0))
    expect(r.is_ok(), "parses", r)
    same((norm(r.ok[0]), r.ok[1][1]), want, "value and position")
    ctx.nontrivial(True)


@PROPERTY.obligation(
    lambda: st.tuples(
        st.sampled_from(["pstring", "any_of", "sequence", "choice", "starts_with"]),
        st.integers(12, 250) | st.integers(250, 3000),
        st.integers(0, 6) | st.integers(0, 3000),
        st.sampled_from(["whole", "other", "short"]),
        st.sampled_from([0, 3]),
    ),
    quick=300,
    thorough=6000,
    shards=3,
)
def long_grammars(case: Any, ctx: Ctx) -> None:
    """Literals, character sets, sequences and choices of thousands of parts, matching, failing or ending at any part."""
    what, n, k, how, pad = case
    k = max(0, n - 1 - k) if k <= 6 else k % n
    abc = [chr(0x4E00 + 7 * i % 20000) for i in range(n)]
    text = "".join(abc)
    if what in ("any_of", "choice"):
        if what == "any_of":
            p, value = P.any_of(text), abc[k]
        else:
            p, value = P.choice(Block([P.pchar(c).map(lambda x, i=i: (i, x)) for i, c in enumerate(abc)])), (k, abc[k])  # type: ignore[misc]
        s = "#" * pad + {"whole": abc[k] + "x", "other": "!" + abc[k], "short": ""}[how]
        want: Any = (value, pad + 1)
    else:
        rest = {"whole": text + "x", "other": text[:k] + "!" + text[k + 1 :], "short": text[:k]}[how]
        s = "#" * pad + rest
        if what == "starts_with":
            p, value = P.starts_with(P.pstring(text))(P.preturn(text[:k])), True
        else:
            p, value = (P.pstring(text), text) if what == "pstring" else (P.sequence(Block([P.pchar(c) for c in abc])), ("block", abc))
        want = (value, pad + n)
    for _ in range(2):
        r = p.run((s, pad))
        expect(r.is_ok() == (how == "whole"), f"{what} of {n} parts, input {how} at {k}: outcome", r.is_ok())
        if how == "whole":
            same((norm(r.ok[0]), r.ok[1][1]), want, "value and position")
    ctx.nontrivial(n > 20)
