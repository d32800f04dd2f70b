"""Shared machinery: obligations, the per-process search driver, evidence records.

A *property* is decided by one or more *obligations*.  An obligation is a
Hypothesis strategy producing a plain-data case (something ``ast.literal_eval``
can read back from its ``repr``) plus a body that runs the case against the real
code in /repo and compares it with an explicit oracle.  Keeping cases as data is
what makes a shrunk counterexample a self-contained replay file.
"""

from __future__ import annotations

import ast
import hashlib
import mmap
import os
import random
import resource
import signal
import struct
import sys
import time
import traceback
import zlib
from dataclasses import dataclass, field
from typing import Any, Callable


class Violation(AssertionError):
    """The code under test disagreed with the oracle."""


class Hang(BaseException):
    """A single case did not finish within the (very generous) limit."""


CASE_LIMIT_S = 60


@dataclass
class Obligation:
    prop: str
    name: str
    strategy: Callable[[], Any]
    body: Callable[[Any, "Ctx"], None]
    quick: int
    thorough: int
    fixed: tuple[Any, ...] = ()
    shards: int = 1


@dataclass
class Property:
    id: str
    rule: str
    level: str = "exploration"
    assumptions: list[str] = field(default_factory=list)
    obligations: list[Obligation] = field(default_factory=list)

    def obligation(self, strategy: Callable[[], Any], *, quick: int, thorough: int | None = None, fixed: Any = (), shards: int = 1, name: str | None = None):
        def deco(fn: Callable[[Any, Ctx], None]):
            self.obligations.append(
                Obligation(
                    self.id,
                    name or fn.__name__,
                    strategy,
                    fn,
                    quick,
                    thorough if thorough is not None else quick * 20,
                    tuple(fixed),
                    shards,
                )
            )
            return fn

        return deco


class Ctx:
    """Handed to an obligation's body: bookkeeping only, never part of the verdict."""

    def __init__(self) -> None:
        self.evaluations = 0
        self.nontrivial_hashes: set[int] = set()
        self.samples: list[str] = []
        self.known: dict[str, str] = {}
        self._nt = False
        self.labels: dict[str, int] = {}

    def nontrivial(self, flag: bool = True) -> None:
        if flag:
            self._nt = True

    def label(self, name: str) -> None:
        self.labels[name] = self.labels.get(name, 0) + 1

    def finding(self, key: str, what: str) -> None:
        """A failure listed in known_findings.json was observed again."""
        self.known[key] = what


class Heart:
    """Shared memory cell holding the case being executed (survives a killed worker)."""

    SIZE = 1 << 16

    def __init__(self, path: str | None) -> None:
        self.mm = None
        self.n = 0
        if path:
            with open(path, "r+b") as f:
                self.mm = mmap.mmap(f.fileno(), self.SIZE)

    def beat(self, text: str) -> None:
        self.n += 1
        if self.mm is not None:
            data = text.encode("utf-8", "backslashreplace")[: self.SIZE - 16]
            self.mm[12 : 12 + len(data)] = data
            self.mm[0:12] = struct.pack("<QI", self.n, len(data))

    @staticmethod
    def read(path: str) -> tuple[int, str]:
        with open(path, "rb") as f:
            raw = f.read()
        n, ln = struct.unpack("<QI", raw[:12])
        return n, raw[12 : 12 + ln].decode("utf-8", "replace")


def describe(exc: BaseException) -> str:
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-6000:]


def run_body(ob: Obligation, case: Any, ctx: Ctx) -> None:
    def on_alarm(_s: int, _f: Any) -> None:
        raise Hang(f"case did not finish within {CASE_LIMIT_S} s")

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        ob.body(case, ctx)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def search(ob: Obligation, *, examples: int, seed: int, heart: Heart, budget_s: float) -> dict[str, Any]:
    """Run one obligation; returns a JSON-able record of what was explored."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    from hypothesis.internal.conjecture import engine

    if hasattr(engine, "MAX_SHRINKING_SECONDS"):
        engine.MAX_SHRINKING_SECONDS = 30

    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    ctx = Ctx()
    failure: dict[str, Any] = {}
    start = time.monotonic()
    rng = random.Random(seed)

    def one(case: Any) -> None:
        text = repr(case)
        heart.beat(text)
        ctx.evaluations += 1
        ctx._nt = False
        try:
            run_body(ob, case, ctx)
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            failure["case"] = text
            failure["error"] = describe(e)
            if isinstance(e, Hang):
                failure["hang"] = True
                raise KeyboardInterrupt from e
            if isinstance(e, Exception):
                raise
            raise Violation(f"{type(e).__name__}: {e}") from e
        if ctx._nt:
            h = int.from_bytes(hashlib.blake2b(text.encode("utf-8", "backslashreplace"), digest_size=8).digest(), "big")
            if h not in ctx.nontrivial_hashes:
                ctx.nontrivial_hashes.add(h)
                if len(ctx.samples) < 6:
                    ctx.samples.append(text[:400])
                elif rng.random() < 0.002:
                    ctx.samples[rng.randrange(6)] = text[:400]

    stopped = False
    try:
        for case in ob.fixed:
            one(case)

        st = settings(
            max_examples=examples,
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            verbosity=Verbosity.quiet,
        )

        def test(case: Any) -> None:
            nonlocal stopped
            if not failure and time.monotonic() - start > budget_s:
                stopped = True
                return
            one(case)

        if examples > 0:
            wrapped = hypothesis.seed(seed)(st(given(ob.strategy())(test)))
            wrapped()
    except KeyboardInterrupt:
        if not failure:
            raise
    except BaseException as e:
        if not failure:
            # nothing the code under test did: the generator or the harness itself failed
            return {"harness_error": describe(e), "obligation": ob.name}

    return {
        "obligation": ob.name,
        "evaluations": ctx.evaluations,
        "nontrivial": list(ctx.nontrivial_hashes),
        "samples": ctx.samples,
        "known": ctx.known,
        "labels": ctx.labels,
        "failure": failure or None,
        "budget_stopped": stopped,
        "wall_s": time.monotonic() - start,
    }


def derive_seed(base: int, *parts: Any) -> int:
    return zlib.crc32(repr((base, *parts)).encode()) + base * 1000003


def parse_case(text: str) -> Any:
    # inf/nan are the only non-literal reprs our cases may contain
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError):
        return eval(text, {"__builtins__": {}}, {"inf": float("inf"), "nan": float("nan")})


def setup_import() -> None:
    """Make `import expression` load the current working tree of /repo, nothing else."""
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path[:] = [p for p in sys.path if p not in ("", repo)]
    sys.path.insert(0, repo)
    import expression

    where = os.path.realpath(expression.__file__)
    if not where.startswith(os.path.realpath(repo) + os.sep):
        raise RuntimeError(f"expression was imported from {where}, not from {repo}")
