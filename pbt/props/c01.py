"""C01: mailboxes deliver every message once, in order; replies reach their posters."""

from __future__ import annotations

import asyncio
import logging
from typing import Any

from hypothesis import strategies as st

from expression import Nothing, Some
from expression.core import AsyncReplyChannel, MailboxProcessor
from expression.system import CancellationToken, CancellationTokenSource, ObjectDisposedException

from ..core import Ctx, Property
from ..sched import Interrupter, Scheduler, Stuck, block_until, pause, plans, positions, run_loop
from ..util import Box, expect
from ..values import Later

logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)

PROPERTY = Property(
    "C01",
    rule="generated scripts of posts, requests with replies (at once, later, out of order, twice, None), pauses, forwarding and cancellation over "
    "several tasks on one loop, and of posting, asking and replying threads against a receiving loop under generated schedules; non-trivial when two tasks or "
    "threads post, when a receiver waits before or messages queue up, or when a cancellation happens while messages are outstanding",
    assumptions=[
        "thread switches are explored at the library's lines and bytecodes, at lock operations, and where the event loop would sleep",
        "at most one task receives from a mailbox at a time",
    ],
)

VALUES: list[Any] = [None, 0, False, "", (), [], {}, 1, "x", Exception("m"), Box(1), float("nan"), NotImplemented, Later(), Later, Some(1), Nothing, len, iter(())]


async def spin(n: int) -> None:
    for _ in range(n):
        await asyncio.sleep(0)


def drive(coro: Any) -> Any:
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(coro)
    finally:
        for t in asyncio.all_tasks(loop):
            t.cancel()
        loop.run_until_complete(asyncio.sleep(0))
        loop.run_until_complete(asyncio.sleep(0))
        asyncio.set_event_loop(None)
        loop.close()


async def settle(done: Any, turns: int = 3000) -> bool:
    for _ in range(turns):
        if done():
            await spin(3)
            return True
        await asyncio.sleep(0)
    return bool(done())


# ------------------------------------------------------------------ one loop
def scripts() -> Any:
    v = st.integers(0, len(VALUES) - 1)
    # how a request is answered: how many further messages / loop turns later, and what
    reply = st.tuples(
        st.sampled_from(["now", "now", "messages", "turns", "build", "build-twice", "twice", "twice-late"]),
        st.integers(0, 3),
        v,
    )
    op = st.one_of(
        st.tuples(st.just("post"), v),
        st.tuples(st.just("post"), v),
        st.tuples(st.just("ask"), v, reply),
        st.tuples(st.just("ask-later"), v, reply, st.integers(0, 4)),  # the reply is awaited some turns after asking
        st.tuples(st.just("ask-drop"), v, reply, st.integers(0, 2)),  # the asking task gives up waiting
        st.tuples(st.just("yield"), st.integers(1, 3)),
        st.tuples(st.just("burst"), st.integers(2, 6)),
        st.tuples(st.just("forward"), v),  # asks the body to post one more message to itself
        st.tuples(st.just("relay"), v),  # asks the body to ask the second mailbox
    )
    return st.tuples(
        st.lists(st.lists(op, max_size=5), min_size=1, max_size=4),
        st.lists(st.integers(0, 3), min_size=1, max_size=6),  # how long the body works on each message
        st.integers(0, 3),  # turns before the body first receives
        st.booleans(),  # some posts before the posters run
        st.sampled_from([None, "none", "source"]),
    )


@PROPERTY.obligation(scripts, quick=5000, thorough=80000, shards=6)
def one_loop(case: Any, ctx: Ctx) -> None:
    posters, pauses, lazy, early, tok = case
    posted: list[int] = []  # serial numbers in posting order
    got: list[Any] = []
    serial = [0]
    what: dict[int, Any] = {}
    waiting: dict[int, Any] = {}  # serial -> reply expected, filled in when it comes back
    answered: dict[int, Any] = {}
    problems: list[str] = []

    def number(value: Any) -> int:
        serial[0] += 1
        what[serial[0]] = value
        return serial[0]

    async def main() -> None:
        loop = asyncio.get_running_loop()
        state = {"mbox": None, "mbox2": None}
        backlog: list[Any] = []  # (messages to wait for, channel, value)

        async def answer_later(ch: Any, turns: int, value: Any, twice: bool) -> None:
            await spin(turns)
            ch.reply(value)
            if twice:
                ch.reply(Box(99))

        helpers = []

        async def body(m: Any) -> None:
            await spin(lazy)
            k = 0
            while True:
                msg = await m.receive()
                got.append(msg)
                _, _, kind, ch, rep = msg
                if kind == "ask" and rep is not None:
                    mode, n, vi = rep
                    value = VALUES[vi]
                    if mode in ("now", "twice"):
                        ch.reply(value)
                        if mode == "twice":
                            ch.reply(Box(99))
                    elif mode == "messages":
                        backlog.append([n, ch, value])
                    elif mode in ("turns", "twice-late"):
                        helpers.append(asyncio.ensure_future(answer_later(ch, n, value, mode == "twice-late")))
                elif kind == "forward":
                    post_message(number("forwarded"), "forwarded")
                elif kind == "relay":
                    r = await state["mbox2"].post_and_async_reply(lambda c: (msg, c))
                    if r is not msg:
                        problems.append("the relayed reply is not the one sent")
                for b in list(backlog):
                    if b[0] == 0:
                        backlog.remove(b)
                        b[1].reply(b[2])
                    else:
                        b[0] -= 1
                await spin(pauses[k % len(pauses)])
                k += 1

        async def echo(m: Any) -> None:
            while True:
                msg, ch = await m.receive()
                await spin(1)
                ch.reply(msg)

        token = None if tok is None else CancellationToken.none() if tok == "none" else CancellationTokenSource().token
        if token is None:
            mbox = MailboxProcessor.start(body)
        else:
            mbox = MailboxProcessor.start(body, token)
        state["mbox2"] = MailboxProcessor.start(echo)

        def post_message(n: int, kind: str) -> None:
            posted.append(n)
            r = mbox.post((n, what[n], kind, None, None))
            expect(r is None, "posting returns nothing")

        def build(n: int, rep: Any) -> Any:
            def make(ch: Any) -> Any:
                expect(isinstance(ch, AsyncReplyChannel), "a reply channel")
                posted.append(n)
                if rep[0] in ("build", "build-twice"):
                    ch.reply(VALUES[rep[2]])
                    if rep[0] == "build-twice":
                        ch.reply(Box(98))
                return (n, what[n], "ask", ch, None if rep[0] in ("build", "build-twice") else rep)

            return make

        async def poster(script: Any) -> None:
            for op in script:
                if op[0] == "post":
                    post_message(number(VALUES[op[1]]), "post")
                elif op[0] in ("forward", "relay"):
                    post_message(number(VALUES[op[1]]), op[0])
                elif op[0] == "burst":
                    for _ in range(op[1]):
                        post_message(number("burst"), "post")
                elif op[0] == "yield":
                    await spin(op[1])
                else:
                    n = number(VALUES[op[1]])
                    rep = op[2]
                    waiting[n] = VALUES[rep[2]]
                    aw = mbox.post_and_async_reply(build(n, rep))
                    if op[0] == "ask-later":
                        await spin(op[3])
                    if op[0] == "ask-drop":
                        t = asyncio.ensure_future(aw)
                        await spin(op[3])
                        if not t.done():
                            t.cancel()
                            del waiting[n]
                            continue
                        answered[n] = t.result()
                    else:
                        answered[n] = await aw

        if early:
            post_message(number("early"), "post")
            post_message(number("early"), "post")
        tasks = [asyncio.ensure_future(poster(s)) for s in posters]

        def all_done() -> bool:
            # answers that wait for further messages get them
            if len(got) == len(posted) and backlog and all(t.done() or True for t in tasks):
                post_message(number("fill"), "post")
            return all(t.done() for t in tasks) and len(got) >= len(posted) and not backlog

        finished = await settle(all_done)
        for t in tasks:
            if t.done() and not t.cancelled() and t.exception() is not None:
                raise t.exception()  # type: ignore[misc]
        expect(finished, "a message or a reply was lost", [g[0] for g in got], posted, {n: answered.get(n) for n in waiting})
        del loop

    drive(main())
    expect([g[0] for g in got] == posted, "the messages received are those posted, in order", [g[0] for g in got], posted)
    for g in got:
        expect(g[1] is what[g[0]], "the very message", g)
    for n, want in waiting.items():
        expect(n in answered and answered[n] is want, "every request gets its own (first) reply", n, answered.get(n), want)
    expect(not problems, "relayed", problems)
    ctx.nontrivial(len(posted) >= 2)
    if len([s for s in posters if s]) > 1:
        ctx.label("several posters")


def bare() -> Any:
    """Arbitrary message objects, no envelope."""
    v = st.integers(0, len(VALUES) - 1)
    return st.tuples(st.lists(v, max_size=10), st.integers(0, 10), st.integers(0, 2), st.lists(st.tuples(v, st.integers(0, 2)), max_size=3), st.sampled_from([1, 1, 1, 1, 1, 1, 1, 30, 120]))


@PROPERTY.obligation(bare, quick=1500, thorough=20000, shards=2, fixed=((tuple(range(13)) * 20, 200, 0, (), 1), ((1, 2), 0, 0, (), 1500)))
def bare_messages(case: Any, ctx: Ctx) -> None:
    msgs, split, turns, asks, times = case
    msgs, asks, split = list(msgs) * times, list(asks) * min(times, 40), split * times
    got: list[Any] = []
    replies: list[Any] = []

    async def main() -> None:
        async def body(m: Any) -> None:
            while True:
                x = await m.receive()
                got.append(x)
                await spin(turns)

        mbox = MailboxProcessor.start(body)
        for i, v in enumerate(msgs):
            if i == split:
                await spin(2)
            mbox.post(VALUES[v])
        ok = await settle(lambda: len(got) >= len(msgs))
        expect(ok, "a message was lost", got, msgs)
        chans: list[Any] = []
        waits = [mbox.post_and_async_reply(lambda ch, v=v: (chans.append(ch), VALUES[v])[1]) for v, _ in asks]
        await settle(lambda: len(got) >= len(msgs) + len(asks))
        for ch, (v, d) in reversed(list(zip(chans, asks))):
            await spin(d)
            ch.reply(VALUES[v])
        for w in waits:
            expect(await settle(w.done, 200), "a reply was lost")
            replies.append(await w)

    drive(main())
    want = [VALUES[v] for v in msgs] + [VALUES[v] for v, _ in asks]
    expect(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "the very messages, in order", got, want)
    expect(all(a is VALUES[v] for a, (v, _) in zip(replies, asks)) and len(replies) == len(asks), "replies", replies, asks)
    ctx.nontrivial(len(msgs) >= 2)


# ------------------------------------------------------------------ cancellation on the loop
def cancel_scripts() -> Any:
    return st.tuples(
        st.lists(st.integers(0, 3), max_size=8),  # turns before each post
        st.integers(0, 14),  # turns before the cancellation
        st.integers(0, 3),  # turns the body works on each message
        st.sampled_from(["ends", "receives again", "works on"]),
        st.sampled_from(["cancel", "dispose", "body"]),
        st.integers(1, 3),
    )


@PROPERTY.obligation(cancel_scripts, quick=2500, thorough=40000, shards=2)
def cancelled(case: Any, ctx: Ctx) -> None:
    gaps, when, work, reaction, how, inbody = case
    src = CancellationTokenSource()
    log: list[Any] = []

    async def main() -> None:
        stopped = asyncio.get_running_loop().create_future()

        async def body(m: Any) -> None:
            log.append("begin")
            try:
                while True:
                    log.append(("got", await m.receive()))
                    if how == "body" and sum(1 for x in log if x[0] == "got") == inbody:
                        src.cancel()
                        log.append("CANCEL")
                    await spin(work)
            except asyncio.CancelledError:
                log.append("cancelled")
                if reaction == "works on":
                    await spin(2)
                if reaction == "receives again":
                    for _ in range(2):
                        try:
                            log.append(("got", await m.receive()))
                        except (Exception, asyncio.CancelledError):
                            log.append("again")
                raise
            finally:
                if not stopped.done():
                    stopped.set_result(None)

        mbox = MailboxProcessor.start(body, src.token)

        async def poster() -> None:
            for i, g in enumerate(gaps):
                await spin(g)
                log.append(("post", i))
                mbox.post(i)

        async def canceller() -> None:
            await spin(when)
            if how != "body":
                getattr(src, how)()
                log.append("CANCEL")

        p = asyncio.ensure_future(poster())
        c = asyncio.ensure_future(canceller())
        await asyncio.gather(p, c)
        if how == "body":
            for i in range(len(gaps), inbody):
                mbox.post(i)
        ok = await settle(lambda: stopped.done() or ("begin" not in log and "CANCEL" in log), 300)
        expect(ok, "the pending receive ends and the body stops", log)
        mbox.post("after")
        await spin(20)
        mbox.post("after")
        unanswered = [mbox.post_and_async_reply(lambda ch: ("after", ch)) for _ in range(2)]
        await spin(5)
        del unanswered

    drive(main())
    at = log.index("CANCEL")
    got = [x[1] for x in log if x[0] == "got"]
    expect(got == list(range(len(got))), "in order, each once", log)
    expect(not any(x[0] == "got" for x in log[at:]), "no message is received after cancellation", log)
    if "begin" in log:
        expect("cancelled" in log, "the body is cancelled", log)
    ctx.nontrivial(len(got) < len(gaps))


# ------------------------------------------------------------------ receivers that give up
def impatient_scripts() -> Any:
    post = st.tuples(st.integers(0, 4), st.sampled_from(["post", "post", "ask", "burst"]))
    return st.tuples(
        st.lists(post, max_size=8),
        st.lists(st.integers(0, 5) | st.none(), min_size=1, max_size=6),  # turns each receive is waited for (None: for ever)
        st.sampled_from(["cancel", "wait", "timeout"]),
        st.integers(0, 2),  # turns between two receives
    )


@PROPERTY.obligation(impatient_scripts, quick=2500, thorough=40000, shards=2)
def receivers_that_give_up(case: Any, ctx: Ctx) -> None:
    """A receive that is cancelled or timed out loses nothing: the next receive continues where it stood."""
    posts, patience, how, gap = case
    got: list[Any] = []
    posted: list[int] = []
    gave_up = [0]

    async def main() -> None:
        async def once(m: Any, turns: int | None) -> None:
            if turns is None:
                got.append(await m.receive())
                return
            t = asyncio.ensure_future(m.receive())
            if how == "wait":
                for _ in range(turns):
                    if t.done():
                        break
                    await asyncio.sleep(0)
            else:
                await spin(turns)
            if not t.done() or how == "cancel":
                t.cancel()
            try:
                got.append(await t)
            except asyncio.CancelledError:
                gave_up[0] += 1

        async def body(m: Any) -> None:
            k = 0
            while True:
                if how == "timeout" and patience[k % len(patience)] == 0:
                    try:  # the deadline is past already
                        async with asyncio.timeout(-1):
                            got.append(await m.receive())
                    except TimeoutError:
                        gave_up[0] += 1
                else:
                    await once(m, patience[k % len(patience)])
                k += 1
                await spin(gap)
                if k % 7 == 6:
                    await asyncio.sleep(0)

        box = MailboxProcessor.start(body)

        def post() -> None:
            posted.append(len(posted))
            box.post(posted[-1])

        async def poster() -> None:
            for turns, kind in posts:
                await spin(turns)
                if kind == "ask":
                    posted.append(len(posted))
                    box.post_and_async_reply(lambda ch: posted[-1])
                else:
                    for _ in range(1 if kind == "post" else 4):
                        post()

        task = asyncio.ensure_future(poster())
        if any(p is None or p > 1 for p in patience):
            expect(await settle(lambda: task.done() and len(got) >= len(posted)), "a message was lost", got, posted)
        else:
            await settle(lambda: task.done() and len(got) >= len(posted), 200)

    drive(main())
    expect(got == posted[: len(got)], "in order, each once", got, posted)
    ctx.nontrivial(gave_up[0] > 0 and len(posted) >= 2)


@PROPERTY.obligation(lambda: st.tuples(st.integers(0, 4), st.integers(1, 3), st.integers(1, 4)), quick=100, thorough=600)
def one_receiver_at_a_time(case: Any, ctx: Ctx) -> None:
    """A receive while another one is pending is refused and does not disturb the pending one."""
    before, extra, after = case
    got: list[Any] = []

    async def main() -> None:
        async def body(m: Any) -> None:
            while True:
                got.append(await m.receive())

        box = MailboxProcessor.start(body)
        for i in range(before):
            box.post(i)
        expect(await settle(lambda: len(got) == before, 100), "all received", got)
        await spin(3)
        for _ in range(extra):
            t = asyncio.ensure_future(box.receive())
            await spin(3)
            expect(t.done() and not t.cancelled() and isinstance(t.exception(), Exception), "a second receive is refused", t)
        for i in range(after):
            box.post(before + i)
        expect(await settle(lambda: len(got) == before + after, 100), "the pending receive goes on", got)

    drive(main())
    expect(got == list(range(before + after)), "in order, each once", got)
    ctx.nontrivial()


@PROPERTY.obligation(lambda: st.tuples(st.integers(0, 4), st.integers(0, 4)), quick=50, thorough=300)
def dead_token(case: Any, ctx: Ctx) -> None:
    """A mailbox started with a cancelled token never runs its body, whether or not starting raises."""
    posts, turns = case
    ran: list[str] = []

    async def main() -> None:
        async def body(m: Any) -> None:
            ran.append("begin")
            ran.append(await m.receive())

        src = CancellationTokenSource.cancelled_source()
        try:
            mbox = MailboxProcessor.start(body, src.token)
        except ObjectDisposedException:
            mbox = None
        for _ in range(posts):
            if mbox is not None:
                mbox.post("x")
            await spin(turns)
        await spin(5)

    drive(main())
    expect("x" not in ran, "no message is received", ran)
    ctx.nontrivial()


# ------------------------------------------------------------------ threads
def threaded() -> Any:
    return st.integers(1, 3).flatmap(
        lambda n: st.tuples(
            st.lists(st.lists(st.integers(0, 2), min_size=1, max_size=4), min_size=n, max_size=n),
            st.integers(0, 3),  # messages posted from the loop itself
            st.integers(0, 2),  # turns the body works on each message
            st.none() | st.tuples(st.integers(0, 12), st.integers(0, 2)),  # cancellation by a further thread
            plans(n + 2, 12, 40),
            st.booleans(),
        )
    )


@PROPERTY.obligation(threaded, quick=1600, thorough=30000, shards=6)
def threads(case: Any, ctx: Ctx) -> None:
    scripts, local, work, cancel, plan, opcodes = case
    total = sum(map(len, scripts)) + local
    box: list[Any] = []
    got: list[Any] = []
    events: list[Any] = []
    src = CancellationTokenSource()

    async def main() -> None:
        stopped = asyncio.get_running_loop().create_future()

        async def body(m: Any) -> None:
            try:
                while len(got) < total:
                    msg = await m.receive()
                    got.append(msg)
                    events.append(("got", msg))
                    await spin(work)
            except asyncio.CancelledError:
                events.append("cancelled")
                try:
                    events.append(("again", await m.receive()))
                except (Exception, asyncio.CancelledError):
                    pass
                raise
            finally:
                if not stopped.done():
                    stopped.set_result(None)

        box.append(MailboxProcessor.start(body, src.token))
        for i in range(local):
            box[0].post(("loop", i))
            await spin(i % 2)
        await spin(1)
        await stopped  # nothing but the library can wake this loop up
        block_until(lambda: len(over) == len(fns) - 1)  # the loop outlives the other threads
        await spin(2)

    def poster(n: int, script: Any) -> Any:
        def go() -> None:
            block_until(lambda: bool(box))
            for i, p in enumerate(script):
                for _ in range(p):
                    pause()
                box[0].post((n, i))

        return go

    over: list[int] = []

    def ends(fn: Any) -> Any:
        def go() -> None:
            try:
                fn()
            finally:
                over.append(1)

        return go

    def canceller() -> None:
        block_until(lambda: bool(box))
        for _ in range(cancel[0]):
            pause()
        events.append("CANCELLING")
        src.cancel()
        events.append("CANCEL")

    s = Scheduler(plan, opcodes)
    fns: list[Any] = [lambda: run_loop(main), *[ends(poster(i, sc)) for i, sc in enumerate(scripts)]]
    if cancel is not None:
        fns.append(ends(canceller))
    ts = s.run(fns)
    expect(s.stuck is None and not any(isinstance(t.error, Stuck) for t in ts), "a waiting receiver is never woken up", got, events)
    for t in ts:
        if t.error is not None:
            raise t.error
    names = ["loop", *range(len(scripts))]
    for n in names:
        mine = [m[1] for m in got if m[0] == n]
        expect(mine == list(range(len(mine))), "per poster in order, each once", n, got)
        if "cancelled" not in events:
            expect(len(mine) == (local if n == "loop" else len(scripts[n])), "every message is received", n, got)
    expect(not any(isinstance(e, tuple) and e[0] == "again" for e in events), "no message after cancellation", events)
    if "CANCEL" in events:
        later = [e for e in events[events.index("CANCEL") :] if isinstance(e, tuple) and e[0] == "got"]
        expect(len(later) <= 1, "at most the message already on its way is received after cancellation", events)
    if cancel is None:
        expect("cancelled" not in events, "not cancelled")
    ctx.nontrivial(s.switches > 0 and total >= 2)
    if s.switches:
        ctx.label("switched")


# ------------------------------------------------------------------ replies across threads
def crossing() -> Any:
    ask = st.tuples(
        st.integers(0, 2),  # pauses before asking
        st.sampled_from(["now", "later", "thread", "thread"]),  # who replies: the body at once, after some turns, another thread
        st.integers(0, 2),  # turns or pauses before the reply
        st.booleans(),  # a second reply follows, which changes nothing
    )
    return st.integers(1, 2).flatmap(
        lambda n: st.tuples(
            st.lists(st.lists(ask, min_size=1, max_size=3), min_size=n, max_size=n),  # askers in threads (and loops) of their own
            st.lists(ask, max_size=2),  # asked in the mailbox's own loop
            plans(n + 2, 12, 40),
            st.booleans(),
        )
    )


@PROPERTY.obligation(crossing, quick=900, thorough=15000, shards=4)
def replies_across_threads(case: Any, ctx: Ctx) -> None:
    scripts, own, plan, opcodes = case
    box: list[Any] = []
    answers: dict[Any, Any] = {}
    orders: list[Any] = []  # for the replying thread
    over: list[int] = []
    received: list[Any] = []

    def value(key: Any) -> Any:
        return [None, 0, "", key][hash(key) % 4]

    def answer(ch: Any, key: Any, twice: bool) -> None:
        ch.reply(value(key))
        if twice:
            ch.reply("second")

    async def ask(who: Any, script: Any) -> None:
        for i, (_, how, wait, twice) in enumerate(script):
            for _ in range(script[i][0]):
                pause()
            key = (who, i)
            got = await box[0].post_and_async_reply(lambda ch, key=key, how=how, wait=wait, twice=twice: (key, how, wait, twice, ch))
            answers[key] = got

    async def main() -> None:
        stopped = asyncio.get_running_loop().create_future()

        async def slow(ch: Any, key: Any, wait: int, twice: bool) -> None:
            await spin(wait)
            answer(ch, key, twice)

        async def body(m: Any) -> None:
            tasks = []
            try:
                stops = 0
                while stops < len(scripts) + 1:
                    msg = await m.receive()
                    if msg is None:
                        stops += 1
                        continue
                    key, how, wait, twice, ch = msg
                    received.append(key)
                    if how == "now":
                        answer(ch, key, twice)
                    elif how == "later":
                        tasks.append(asyncio.ensure_future(slow(ch, key, wait, twice)))
                    else:
                        orders.append((ch, key, wait, twice))
            finally:
                stopped.set_result(None)

        box.append(MailboxProcessor.start(body))
        await ask("own", own)
        box[0].post(None)
        await stopped  # nothing but the library can wake this loop up
        orders.append(None)
        block_until(lambda: len(over) == len(scripts) + 1)  # the loop outlives the other threads
        await spin(3)

    def asker(n: int, script: Any) -> Any:
        def go() -> None:
            try:
                block_until(lambda: bool(box))
                run_loop(lambda: ask(n, script))
                box[0].post(None)
            finally:
                over.append(1)

        return go

    def replier() -> None:
        try:
            while True:
                block_until(lambda: bool(orders))
                order = orders.pop(0)
                if order is None:
                    return
                ch, key, wait, twice = order
                for _ in range(wait):
                    pause()
                answer(ch, key, twice)
        finally:
            over.append(1)

    s = Scheduler(plan, opcodes)
    ts = s.run([lambda: run_loop(main), *[asker(i, sc) for i, sc in enumerate(scripts)], replier])
    expect(s.stuck is None and not any(isinstance(t.error, Stuck) for t in ts), "a poster waiting for its reply is never woken up", received, answers)
    for t in ts:
        if t.error is not None:
            raise t.error
    keys = [("own", i) for i in range(len(own))] + [(n, i) for n, sc in enumerate(scripts) for i in range(len(sc))]
    expect(sorted(map(repr, received)) == sorted(map(repr, keys)), "every message is received once", received, keys)
    for k in keys:
        expect(answers[k] is value(k) or answers[k] == value(k), "every poster gets its own reply", k, answers[k])
    ctx.nontrivial(s.switches > 0 or len(keys) > 1)


# ------------------------------------------------------------------ a thread acting at each single step of the loop's thread
def interrupted_cases() -> Any:
    op = st.sampled_from(["post", "post", "spin", "ask", "spin"])
    return st.tuples(
        st.lists(op, max_size=4),
        st.integers(0, 2),  # turns the body works on each message
        st.integers(0, 2),  # turns before the body first receives
        st.sampled_from(["post", "post", "posts", "cancel", "reply"]),
        st.integers(0, 999),
        st.booleans(),
    )


@PROPERTY.obligation(interrupted_cases, quick=130, thorough=4000, shards=8)
def interrupted(case: Any, ctx: Ctx) -> None:
    """The mailbox's own thread is interrupted at one step of the library's code, and another thread posts, cancels or replies there;
    nothing else happens afterwards that would wake a forgotten receiver or poster."""
    ops, work, lazy, action, offset, opcodes = case

    def run(at: Any) -> int:
        got: list[Any] = []
        tasks: dict[int, Any] = {}
        channels: list[Any] = []
        box: list[Any] = []
        body_state: list[str] = []
        cancelled_at: list[int] = []
        want = [("own", i) for i, op in enumerate(ops) if op == "post"] + [("ask", i) for i, op in enumerate(ops) if op == "ask"]
        src = CancellationTokenSource()

        def act() -> None:
            if action == "cancel":
                src.cancel()
                cancelled_at.append(len(got))
            elif action == "reply":
                for i, ch in list(channels):
                    ch.reply(("reply", i))
            elif box:
                for i in range(2 if action == "posts" else 1):
                    want.append(("thread", i))
                    box[0].post(("thread", i))

        inter = Interrupter(act, at, opcodes)

        async def body(m: Any) -> None:
            body_state.append("started")
            try:
                await spin(lazy)
                while True:
                    msg = await m.receive()
                    if isinstance(msg, list):
                        if action == "reply":
                            channels.append(msg)
                        else:
                            msg[1].reply(("reply", msg[0]))
                        msg = ("ask", msg[0])
                    got.append(msg)
                    await spin(work)
            finally:
                body_state.append("ended")

        async def after_cancel() -> None:
            expect(await settle(lambda: len(body_state) != 1, 80), "the body stops after cancellation", got)
            n = len(got)
            expect(n <= cancelled_at[0] + 1, "at most the message already on its way is received after cancellation", got, cancelled_at)
            if box:
                box[0].post(("late", 0))
            await spin(6)
            expect(len(got) == n, "nothing is received after cancellation", got)
            for t in tasks.values():
                t.cancel()

        async def main() -> None:
            with inter:
                try:
                    box.append(MailboxProcessor.start(body, src.token))
                except ObjectDisposedException:
                    expect(action == "cancel" and bool(inter.threads), "starting fails only when cancelled")
                for i, op in enumerate(ops if box else ()):
                    if op == "post":
                        box[0].post(("own", i))
                    elif op == "ask":
                        tasks[i] = asyncio.ensure_future(box[0].post_and_async_reply(lambda ch, i=i: [i, ch]))
                    else:
                        await spin(2)
                await spin(6)
            expect(inter.join(), "the other thread is not held up for ever", case)
            if inter.errors:
                raise inter.errors[0]
            if cancelled_at:
                await after_cancel()
                return
            expect(await settle(lambda: len(got) >= len(want), 80), "every message is received though nothing more is posted", got, want)
            await spin(3)
            expect(sorted(got) == sorted(want), "exactly the posted messages, each once", got, want)
            for who in ("own", "thread"):
                mine = [i for w, i in got if w == who]
                expect(mine == sorted(mine), "in posting order", got)
            for i, ch in channels:  # answered for the first or the second time
                ch.reply(("reply", i))
            for i, t in tasks.items():
                expect(await settle(t.done, 80), "the poster gets its reply", i)
                expect(t.result() == ("reply", i), "its own reply", t.result(), i)

        drive(main())
        return inter.steps

    total = run(())
    for k in positions(total, offset, 80):
        run((k,))
    ctx.nontrivial(total > 0 and bool(ops))
