"""
C06: record sources are streamed once, in order and in bounded batches.

Workload: one bulk write (rows, objects or a plain statement with records) from an instrumented synchronous or asynchronous source at
any pace, with tiny batches, transformed and selected fields and enumeration look-ups; the source fails, a record cannot be converted, the
database rejects a batch, or nothing goes wrong.
Oracle: the source observes every request for a record (once, in order, none after a failure or the end, never two at a time, never more
than one batch ahead of the records the server has received); the simulated server observes every record it is given.
"""

import random
import typing

from .. import bulk, common, rows, schema
from ..env import Ctx, DIALECTS, Violation, root_cause

QUICK = 4000
THOROUGH = 100000
RULE = "the source was consumed in at least two batches, or a failure was injected after the first record"
REAL = common.REAL
STUB = common.STUB
ASSUMPTIONS = common.ASSUMPTIONS + ["PostgreSQL objects are handed to the driver's own streaming copy; read-ahead inside the driver is not judged"]


def generate(rng: random.Random, tier: str) -> dict:
    d = rng.choice(DIALECTS)
    opts = common.gen_options(rng, d)
    opts.pop("foreign_constraints", None)
    sp = bulk.spec(rng)
    op = rng.choice(bulk.OPS)
    if op == "execute_all":
        for f in sp["tables"][0]["fields"]:
            f["opt"] = f["opt"] or f["n"] != "amount"
        pk = sp["tables"][0]["pk"]
        pk["t"] = "int" if pk["t"] == "uuid" else pk["t"]  # records of a hand-written statement are passed on as they are
    if not bulk.supports(op, d, opts, sp):
        op = rng.choice(["insert_rows", "upsert_rows"])
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 21] + ([50] if tier != "quick" else []))
    sizes = [1, 2, 3, 4, 7, 50]
    if rng.random() < 0.005:
        n, sizes = rng.choice([270, 1100, 2500]), [100, 256, 1000, 100000]
    fail = rng.choice([None, None, "source", "source", "convert", "db"])
    src = rng.choice(bulk.ANY if op in ("insert_rows", "upsert_rows", "execute_all") else bulk.SYNC)
    return {"_dialect": d, "_ns": "ns", "opts": opts, "spec": sp, "_op": op, "n": n, "batch": rng.choice(sizes), "_src": src, "_fail": fail, "at": rng.randrange(max(n, 1)) if n else 0,
            "exc": rng.randrange(4), "k": rng.randrange(0, 8), "rec": rng.randrange(8), "seed": rng.randrange(1 << 30), "pace": rng.randrange(3), "lat": rng.randrange(4)}


PACE = [(0.0,), (0.0, 0.001, 0.1), (0.5, 3.0)]


def execute(ctx: Ctx, plan: dict) -> None:
    common.setup_world(ctx, plan)
    batch = max(plan["batch"], 1)
    ctx.batch_size(batch)
    d, ns, sp, op = plan["_dialect"], plan["_ns"], plan["spec"], plan["_op"]
    if not any(f["n"] == "amount" for f in (sp["tables"][0]["fields"] if sp["tables"] else [])) or not sp["enums"].get("Level"):
        return
    srv = ctx.server(d)
    rng = random.Random(plan["seed"])

    async def main() -> None:
        mod = ctx.module("vmod", schema.source(sp))
        m = rows.Model(sp, d, ns, srv.db)
        cm = ctx.connection(d, common.options(plan["opts"], {mod: ns}), user="c1")
        conn = await cm.open()
        await ctx.explorer(d, conn).synchronize(module=mod)
        t = sp["tables"][0]
        stmt = bulk.update_stmt(conn, d, mod)
        cols = bulk.layout(op, sp, rng)
        pairs: list = []
        for _ in range(plan["n"]):
            key = m.new_key(rng, t)
            pairs.append((key, bulk.record(rng, m, key)))
        if op.startswith("delete"):
            # the records to delete exist
            if pairs:
                await bulk.call(conn, "upsert_rows", mod, m, [c for c in cols], bulk.items_for("upsert_rows", mod, sp, cols, pairs))
                for k, r in pairs:
                    m.upsert("Rec", k, r)
        items = bulk.items_for(op, mod, sp, cols, pairs)
        fail = plan["_fail"]
        if fail == "source" and plan["_src"] == "sized" and not items:
            fail = None  # a source that reports to be empty need not be consumed
        at = plan["at"]
        expected_exc: typing.Optional[BaseException] = None
        feed_fail = None
        if fail == "source":
            feed_fail = min(at, len(items))
            expected_exc = [bulk.SourceError("source failed"), ValueError("bad"), KeyError("k"), ConnectionResetError("reset")][plan["exc"]]
        elif fail == "convert":
            # a value that the conversion of its field cannot handle
            bad = None
            if op in ("insert_rows", "upsert_rows"):
                for i, c in enumerate(cols):
                    f = next((x for x in t["fields"] if x["n"] == c), None)
                    ty = t["pk"]["t"] if c == "id" else m.base_type(f["t"]) if f else None
                    if ty == "uuid" and d != "postgresql":
                        bad = i
            if bad is None or not items:
                fail = None
            else:
                at = at % len(items)
                x = list(items[at])
                x[bad] = 12345  # has no `bytes`
                items[at] = tuple(x)
        log = srv.db.received = []
        db_error_at: list = []
        state = {"ahead": 0, "max": 0, "late": 0}
        whole = op == "insert_data" and d == "postgresql"

        def received() -> int:
            return sum(len(b[2]) for b in bulk.main_batches(log, d, ns, srv.db.database))

        def on_take(i: int) -> None:
            ahead = i + 1 - received()
            state["max"] = max(state["max"], ahead)
            if ahead > batch and not whole:
                raise Violation("read-ahead", f"record {i} was taken while only {received()} records had been given to the database (batch size {batch})")
            if db_error_at:
                state["late"] += 1

        feed = bulk.Feed(ctx.sim, items, fail_at=feed_fail, exc=expected_exc, on_take=on_take, pace=PACE[plan["pace"]])
        client = ctx.world.client("c1")
        n_err = len(ctx.world.driver_errors)
        if fail == "db":
            client.arm([{"k": plan["k"], "kind": "error", "rec": plan["rec"]}])
            orig = ctx.world.driver_errors

            class Watch(list):
                def append(self, e):
                    db_error_at.append(ctx.sim.now)
                    super().append(e)

            ctx.world.driver_errors = Watch(orig)
        raised: typing.Optional[BaseException] = None
        try:
            await bulk.call(conn, op, mod, m, cols, feed.open(plan["_src"]), stmt)
        except Violation:
            raise
        except Exception as e:
            raised = e
        fired = bool(client.fired)
        client.disarm()
        if feed.problems:
            raise Violation("source-protocol", feed.problems[0])
        taken_at_end = feed.taken
        # what the database was given
        given = [r for b in bulk.main_batches(log, d, ns, srv.db.database) for r in b[2]]
        chain = []
        x: typing.Optional[BaseException] = raised
        while x is not None and len(chain) < 10:
            chain.append(x)
            x = x.__cause__ or x.__context__
        limit = len(items)
        if fail == "source":
            limit = feed_fail
            if raised is None:
                raise Violation("source-error-lost", f"the source failed at record {feed_fail} but {op} reported success")
            if not any(y is expected_exc for y in chain):
                raise Violation("source-error-changed", f"the source raised {expected_exc!r} but the caller got {root_cause(raised)}")
        elif fail == "convert":
            limit = at
            if raised is None:
                raise Violation("conversion-error-lost", f"record {at} could not be converted but {op} reported success")
        elif fail == "db" and fired:
            if raised is None:
                raise Violation("db-error-lost", f"the database rejected a statement but {op} reported success")
            if state["late"]:
                raise Violation("taken-after-failure", f"{state['late']} records were taken after the database had rejected a batch")
        elif raised is not None:
            raise Violation(f"{op}-fails", f"{op} fails: {root_cause(raised)}")
        if raised is None and taken_at_end != len(items):
            raise Violation("incomplete", f"{op} reported success after taking {taken_at_end} of {len(items)} records")
        # exactly once and in order: each record given to the server is identified by its key
        width = {len(g) for g in given}
        if given:
            if len(width) != 1:
                raise Violation("record-width", f"records of different widths reached the server: {sorted(width)}")
            pos = 0
            if op in ("insert_rows", "upsert_rows"):
                pos = [c for c in cols if c is not None].index("id")
            keys = [rows.logical(t["pk"]["t"], g[pos]) for g in given]
            want = [k for k, _ in pairs][:limit]
            if keys != want[:len(keys)]:
                raise Violation("order", f"the server received keys {keys!r}, expected a prefix of {want!r}")
            if raised is None and keys != want:
                raise Violation("incomplete", f"the server received {len(keys)} of {len(want)} records")
        elif raised is None and items:
            raise Violation("incomplete", "the server received no records")
        if raised is None:
            for k, r in pairs:
                if op.startswith("delete"):
                    m.delete("Rec", k)
                else:
                    m.upsert("Rec", k, {"amount": r["amount"]} if op == "execute_all" else r)
            bad_ = m.difference("Rec")
            if bad_:
                raise Violation("wrong-content", bad_)
        # nothing happens once the call has returned
        n0 = client.rt
        import asyncio

        await asyncio.sleep(100)
        if feed.taken != taken_at_end:
            raise Violation("taken-after-return", "records were taken after the call had returned")
        if client.rt != n0:
            raise Violation("written-after-return", "the database was used after the call had returned")
        await cm.close()
        nb = len(bulk.main_batches(log, d, ns, srv.db.database))
        ctx.counts[op] += 1
        ctx.counts[f"source-{plan['_src']}"] += 1
        if fail and raised is not None:
            ctx.counts[f"failure-{fail}"] += 1
            ctx.sim.fault_counts[f"{fail}-failure"] += 1
        ctx.counts["batches"] += nb
        ctx.nontrivial = nb >= 2 or (raised is not None and taken_at_end > 0)

    ctx.sim.run(main())
    ctx.check_hygiene()
