"""
C11: blocking drivers never stall the event loop nor outlive their call.

Workload: one to four clients at once, mostly of dialects whose driver blocks, each on its own server and connection, run scripts, statements
with records, row and object writes, queries, discovery, opening and closing, with answers that take arbitrarily long, fail or are lost; calls
are cancelled or timed out at arbitrary moments (before, during and after the driver call; also twice) and the next call follows at once on the same
connection. Functions dispatched directly (pysqlsync.util.dispatch) that return, raise or take long run beside them. A heartbeat task ticks all the while.
Oracle: the heartbeat never misses its time; a call takes no longer than its own driver calls and record source; each call yields the very value or
error its driver call produced and leaves the database in the state of a reference model; at the return of a call, even a cancelled one, no driver call is
under way; no driver call runs on the thread of the event loop; no connection is used by two driver calls at once.
"""

import asyncio
import random
import typing

from .. import bulk, common, rows, schema
from ..env import Ctx, Violation, root_cause

QUICK = 2500
THOROUGH = 60000
RULE = "at least one call of a blocking driver took place while other tasks were running"
REAL = common.REAL
STUB = common.STUB
ASSUMPTIONS = common.ASSUMPTIONS + ["processor time is not simulated: code between driver calls takes no time", "a blocking driver call cannot be interrupted by its caller"]

DIALECTS = ["mssql", "mssql", "oracle", "oracle", "redshift", "postgresql", "mysql"]
BEAT = 0.05
SLACK = 1e-3
OPS = ["query", "query", "one", "exec", "exec", "bad", "insert_rows", "upsert_rows", "insert_data", "upsert_data", "delete_rows", "delete_data", "execute_all", "discover", "tables"]


def generate(rng: random.Random, tier: str) -> dict:
    clients = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        d = rng.choice(DIALECTS)
        ops = []
        for _ in range(rng.randrange(1, 6)):
            o: dict = {"op": rng.choice(OPS), "n": rng.randrange(0, 7), "src": rng.choice(bulk.ANY), "pace": rng.choice([[0.0], [0.0, 0.01, 0.3]])}
            faults = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                faults.append({"k": rng.choice([0, 0, 0, 1, 2, 5]), "kind": rng.choice(["stall", "stall", "stall", "error", "lost_before", "lost_after", "cancel", "cancel"]), "d": rng.choice([0.2, 3, 3, 60]), "sub": 0, "rec": rng.randrange(4), "err": "injected", "late": rng.random() < 0.4})
            o["faults"] = faults
            o["cancel"] = sorted(rng.choice([0.0, 0.0005, 0.002, 0.1, 1.0, 2.5, 10.0, 65.0]) for _ in range(rng.choice([0, 0, 0, 1, 1, 2])))
            o["timeout"] = rng.choice([None, None, None, 0.001, 0.5, 2.0, 30.0])
            o["gap"] = rng.choice([0.0, 0.0, 0.01, 1.0])
            ops.append(o)
        clients.append({"_dialect": d, "ops": ops, "open": rng.choice([None, None, {"kind": "stall", "d": 3}]), "close": rng.choice([None, None, {"kind": "stall", "d": 3}])})
    direct = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        direct.append([{"t": rng.choice([0.0, 0.001, 0.2, 5.0]), "what": rng.choice(["value", "none", "error", "base", "args"]), "cancel": rng.choice([None, None, 0.0, 0.0005, 0.1, 3.0]), "gap": rng.choice([0.0, 0.3])} for _ in range(rng.randrange(1, 4))])
    if rng.random() < 0.006:  # more calls at once than any pool of threads would serve
        clients = clients[:1]
        direct = [[{"t": 5.0, "what": "value", "cancel": None, "gap": 0.0}] for _ in range(rng.choice([14, 36, 40, 70]))]
    return {"clients": clients, "direct": direct, "lat": rng.randrange(4), "batch": rng.choice([1, 2, 100]), "seed": rng.randrange(1 << 30)}


class Mine(Exception):
    pass


class MineBase(BaseException):
    pass


SPEC = {"enums": {}, "structs": {}, "tables": [{"name": "Rec", "doc": None, "pk": {"n": "id", "t": "int", "identity": False}, "fields": [
    {"n": "amount", "t": "i32", "opt": False, "def": None, "uniq": False, "doc": None}, {"n": "note", "t": "s80", "opt": True, "def": None, "uniq": False, "doc": None}]}]}


async def direct(ctx: Ctx, i: int, calls: list) -> None:
    "Functions dispatched directly."
    from pysqlsync.util.dispatch import thread_dispatch

    sim = ctx.sim
    for k, c in enumerate(calls):
        who = f"dispatched function {i}.{k}"
        log: list = []
        exc: BaseException = MineBase(who) if c["what"] == "base" else Mine(who)
        value = object()

        def fn(a, *, b):
            log.append("start")
            if sim.on_loop_thread():
                raise Violation("on-loop-thread", f"{who} runs on the thread of the event loop")
            if c["t"]:
                sim.thread_sleep(float(c["t"]))
            log.append("end")
            if c["what"] in ("error", "base"):
                raise exc
            return {"value": value, "none": None, "args": (a, b)}.get(c["what"])

        loop = asyncio.get_running_loop()
        task = loop.create_task(thread_dispatch(fn)(i, b=k))
        if c["cancel"] is not None:
            loop.call_later(float(c["cancel"]), task.cancel)
        t0 = sim.now
        try:
            r = await task
            out = None
        except GeneratorExit:
            raise
        except BaseException as e:
            out = e
        if log == ["start"]:
            raise Violation("outlives-call", f"{who}: returned while the function is still running")
        ctx.counts["direct"] += 1
        if isinstance(out, asyncio.CancelledError):
            if c["cancel"] is None:
                raise Violation("spurious-cancel", f"{who}: cancelled out of nowhere")
            ctx.counts["direct-cancelled"] += 1
            continue
        if isinstance(out, Violation):
            raise out
        if log != ["start", "end"]:
            raise Violation("wrong-call", f"{who}: the function was called {log}")
        if c["cancel"] is not None and sim.now - t0 > float(c["cancel"]) + SLACK and float(c["t"]) > float(c["cancel"]) + SLACK:
            raise Violation("cancellation-swallowed", f"{who}: cancelled after {c['cancel']} s but ended with {out!r}")
        if c["what"] in ("error", "base"):
            if out is not exc:
                raise Violation("wrong-error", f"{who}: raised {exc!r} but the caller got {out!r}")
        elif out is not None:
            raise Violation("wrong-error", f"{who}: the caller got {root_cause(out)}")
        elif c["what"] == "value" and r is not value or c["what"] == "none" and r is not None or c["what"] == "args" and r != (i, k):
            raise Violation("wrong-value", f"{who}: the caller got {r!r}")
        if sim.now - t0 > float(c["t"]) + SLACK:
            raise Violation("delayed", f"{who}: took {sim.now - t0:.3f} s instead of {c['t']} s")
        if c["gap"]:
            await asyncio.sleep(float(c["gap"]))


async def client_main(ctx: Ctx, plan: dict, i: int, spec: dict) -> None:
    sim, w = ctx.sim, ctx.world
    d = spec["_dialect"]
    rng = random.Random(plan["seed"] * 31 + i)
    name = f"c{i}"
    srv = ctx.server(d, host=f"h{i}")
    client = w.client(name)
    mod = ctx.module(f"vmod{i}", schema.source(SPEC))
    opts: dict = {}
    cm = ctx.connection(d, common.options(opts, {mod: "ns"}), user=name, host=f"h{i}")
    m = rows.Model(SPEC, d, "ns", srv.db)
    t = SPEC["tables"][0]
    loop = asyncio.get_running_loop()
    st: dict = {"task": None}

    def on_cancel() -> None:
        task = st["task"]
        if task is None:
            return
        st["cancelled"] = st["cancelled"] or sim.now
        if sim.on_loop_thread():
            loop.call_soon(task.cancel)
        else:
            loop.call_soon_threadsafe(task.cancel)

    client.on_cancel = on_cancel

    async def timed(what: str, aw: typing.Awaitable, *, cancel=(), timeout=None, slept=lambda: 0.0):
        "Runs one call; returns (value, error) after the checks that do not depend on the kind of call."
        st["cancelled"] = None
        n0 = len(w.calls)

        async def run():
            if timeout:
                return await asyncio.wait_for(aw, float(timeout))
            return await aw

        t0 = sim.now
        task = st["task"] = loop.create_task(run())
        handles = []
        for x in cancel:
            handles.append(loop.call_later(float(x), on_cancel))
        value, out = None, None
        try:
            value = await task
        except GeneratorExit:
            raise
        except BaseException as e:
            out = e
        st["task"] = None
        for h in handles:
            h.cancel()
        if client.active:
            raise Violation("outlives-call", f"{name} ({d}): {what} has returned ({root_cause(out) if out else 'normally'}) while a driver call is under way")
        mine = [c for c in w.calls[n0:] if c["client"] == name]
        if any(c["end"] is None for c in mine):
            raise Violation("outlives-call", f"{name} ({d}): {what} has returned while a driver call is under way")
        own = sum(c["end"] - c["start"] for c in mine)
        total = sim.now - t0
        if total > own + slept() + SLACK:
            raise Violation("delayed", f"{name} ({d}): {what} took {total:.3f} s but its driver calls took {own:.3f} s only")
        spans.append((t0, sim.now))
        if any(c["t"] == "sync" for c in mine) and len(alive) > 1:
            ctx.nontrivial = True
        ctx.counts["calls"] += 1
        if isinstance(out, asyncio.CancelledError):
            ctx.counts["cancelled"] += 1
            if st["cancelled"] is None:
                raise Violation("spurious-cancel", f"{name} ({d}): {what}: cancelled out of nowhere")
        if isinstance(out, asyncio.TimeoutError):
            ctx.counts["timed-out"] += 1
        # ended by itself at a time after the cancellation, although a blocking driver call was in progress when it came
        if out is None and st["cancelled"] is not None and mine and st["cancelled"] < mine[-1]["end"] - SLACK:
            raise Violation("cancellation-swallowed", f"{name} ({d}): {what}: cancelled at {st['cancelled']:.3f}, yet it ended normally at {sim.now:.3f}")
        return value, out

    spans: list = []
    conn = None

    async def connect():
        nonlocal cm
        cm = ctx.connection(d, common.options(opts, {mod: "ns"}), user=name, host=f"h{i}")
        if spec["open"] and spec["open"].get("kind") and d != "mysql":
            client.arm([{"k": 0, **spec["open"]}])
        value, out = await timed("open", cm.open())
        client.disarm()
        if out is not None:
            raise Violation("unexpected-error", f"{name} ({d}): open failed: {root_cause(out)}")
        return value

    conn = await connect()
    await conn.create_objects([mod.Rec])
    setup_end[name] = sim.now

    for k, op in enumerate(spec["ops"]):
        if conn is None:
            conn = await connect()
            cm.generator.create(modules=[mod])
        kind = op["op"]
        table = conn.get_table(mod.Rec)
        T = str(table.name)
        C = {n: str(c.name) for n, c in table.columns.items()}
        if kind == "discover" and d == "redshift" or kind in ("insert_rows", "upsert_rows", "upsert_data", "delete_rows", "delete_data", "execute_all", "tables", "insert_data") and d == "redshift":
            kind = "exec"
        if kind == "tables" and d == "oracle":
            kind = "discover"
        m.rows["Rec"] = dict(m.stored("Rec"))
        before = {x: dict(v) for x, v in m.rows["Rec"].items()}
        feed = None
        expect: typing.Any = None
        tag = 10000 + i * 1000 + k
        if kind == "query":
            # the column order differs from the definition
            aw = conn.query_all(tuple[int, int], f"SELECT {C['amount']}, {C['id']} FROM {T} ORDER BY {C['id']}" + ("" if d == "oracle" else ";"))
            expect = [(v["amount"], x) for x, v in sorted(before.items())]
        elif kind == "one":
            aw = conn.query_one(int, f"SELECT {tag}" + (" FROM dual" if d == "oracle" else ";"))
            expect = tag
        elif kind == "exec":
            key = m.new_key(rng, t)
            aw = conn.execute(f"INSERT INTO {T} ({C['id']}, {C['amount']}) VALUES ({key}, {tag});")
            m.insert("Rec", key, {"amount": tag, "note": None})
        elif kind == "bad":
            aw = conn.execute(f"INSERT INTO missing{tag} ({C['id']}) VALUES (1);")
        elif kind == "discover":
            ex = ctx.explorer(d, conn)
            aw = ex.get_namespace(namespace_id())
            expect = "namespace"
        elif kind == "tables":
            ex = ctx.explorer(d, conn)
            aw = ex.get_table_names()
            expect = "tables"
        else:
            n = op["n"]
            keys = list(before)
            rng.shuffle(keys)
            pairs = []
            for j in range(n):
                use = kind in ("upsert_rows", "upsert_data", "delete_rows", "delete_data") and keys and rng.random() < 0.5
                key = keys.pop() if use else m.new_key(rng, t)
                pairs.append((key, {"amount": tag * 10 + j, "note": f"n{j}"}))
            cols = bulk.layout(kind, SPEC, rng)
            feed = bulk.Feed(sim, bulk.items_for(kind, mod, SPEC, cols, pairs), pace=tuple(float(x) for x in op["pace"]) or (0.0,))
            src = feed.open(op["src"] if kind in ("insert_rows", "upsert_rows", "execute_all") or op["src"] in bulk.SYNC else "gen")
            aw = bulk.call(conn, kind, mod, m, cols, src, bulk.update_stmt(conn, d, mod))
            for key, r in pairs:
                if kind in ("delete_rows", "delete_data"):
                    m.delete("Rec", key)
                elif kind == "execute_all":
                    m.insert("Rec", key, {"amount": r["amount"], "note": None})
                elif kind.startswith("insert"):
                    m.insert("Rec", key, r)
                else:
                    m.upsert("Rec", key, r)
        if not isinstance(aw, typing.Awaitable):
            raise Violation("not-async", f"{name} ({d}): {kind} is not asynchronous")
        client.arm([f for f in op["faults"] if f["kind"]])
        n_err = len(w.driver_errors)
        value, out = await timed(kind, aw, cancel=op["cancel"], timeout=op["timeout"], slept=lambda: feed.slept if feed is not None else 0.0)
        client.disarm()
        fired = [f for _, f in client.fired]
        broken = any(f["kind"] in ("error", "lost_before", "lost_after") for f in fired)
        cut = isinstance(out, (asyncio.CancelledError, asyncio.TimeoutError))
        ctx.check_hygiene()
        what = f"{name} ({d}): {kind} #{k}"
        if out is not None and not cut:
            if not broken and kind != "bad" and st["cancelled"] is None:
                raise Violation("unexpected-error", f"{what}: {root_cause(out)}")
            chain: list = []
            x: typing.Optional[BaseException] = out
            while x is not None and x not in chain:
                chain.append(x)
                x = x.__cause__
            mine = w.driver_errors[n_err:]
            if not any(c is e for c in chain for e in mine):
                raise Violation("wrong-error", f"{what}: the error is not the one of the driver: {root_cause(out)}")
            if not broken and kind == "bad" and f"missing{tag}" not in root_cause(out):
                raise Violation("wrong-error", f"{what}: the error does not belong to the call: {root_cause(out)}")
        elif out is None:
            if kind == "bad":
                raise Violation("error-lost", f"{what}: ended normally although the statement is wrong")
            if kind in ("query", "one") and value != expect:
                raise Violation("wrong-value", f"{what}: expected {expect!r}, got {value!r}")
            if kind == "discover" and (value is None or sorted(tb.name.local_id.split("__")[-1] for tb in value.tables.values()) != ["Rec"]):
                raise Violation("wrong-value", f"{what}: got {value!r}")
            if kind not in ("query", "one", "discover", "tables") and not broken:
                bad = m.difference("Rec")
                if bad:
                    raise Violation("wrong-effect", f"{what}: {bad}")
        # go on at once on the same connection if it is usable
        unclear = any(client.labels[n - client.base].startswith("ROLLBACK") for n, f in client.fired if f["kind"] == "error" and n - client.base < len(client.labels))
        if unclear or not client.conns[-1].is_open:
            await timed("close", cm.close())
            conn = None
        if op["gap"]:
            await asyncio.sleep(float(op["gap"]))
    if conn is not None:
        if spec["close"] and spec["close"].get("kind"):
            client.arm([{"k": 0, **spec["close"]}])
        _, out = await timed("close", cm.close())
        client.disarm()
        if out is not None:
            raise Violation("unexpected-error", f"{name} ({d}): close failed: {root_cause(out)}")
    for c in w.calls:
        if c["client"] == name and c["t"] == "sync" and not any(a - 1e-9 <= c["start"] and c["end"] <= b + 1e-9 for a, b in spans) and setup_end[name] < c["start"]:
            raise Violation("outlives-call", f"{name} ({d}): a driver call from {c['start']:.3f} to {c['end']:.3f} took place outside of all calls")


setup_end: dict[str, float] = {}
alive: set = set()


def namespace_id():
    from pysqlsync.model.id_types import LocalId

    return LocalId("ns")


def execute(ctx: Ctx, plan: dict) -> None:
    sim = ctx.sim
    common.setup_world(ctx, plan)
    ctx.batch_size(max(plan["batch"], 1))
    alive.clear()
    setup_end.clear()

    async def main() -> None:
        gaps: list = []

        async def heartbeat() -> None:
            last = sim.now
            while True:
                await asyncio.sleep(BEAT)
                gaps.append((sim.now - last, last))
                last = sim.now
                if gaps[-1][0] > BEAT + SLACK:
                    raise Violation("loop-stalled", f"the event loop was blocked for {gaps[-1][0] - BEAT:.3f} s from {gaps[-1][1]:.3f} on")

        loop = asyncio.get_running_loop()
        hb = loop.create_task(heartbeat())

        async def guarded(tag, co):
            alive.add(tag)
            try:
                await co
            finally:
                alive.discard(tag)

        tasks = []
        for i, c in enumerate(plan["clients"]):
            setup_end[f"c{i}"] = 1e9
            tasks.append(loop.create_task(guarded(f"c{i}", client_main(ctx, plan, i, c))))
        for i, c in enumerate(plan["direct"]):
            tasks.append(loop.create_task(guarded(f"d{i}", direct(ctx, i, c))))
        for t in tasks:
            await t
        await asyncio.sleep(BEAT)
        if hb.done():
            hb.result()
        hb.cancel()

    sim.run(main())
    if sim.notes["driver-call-on-loop-thread"]:
        raise Violation("driver-call-on-loop-thread", "a blocking driver call ran on the thread of the event loop")
