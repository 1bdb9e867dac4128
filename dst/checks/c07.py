"""
C07: interrupted bulk writes leave a clean prefix and can be retried.

Workload: rows are written, merged or deleted in tiny batches from a source at any pace; every attempt but the last is cut short at an
arbitrary round trip or record - rejected record or statement, lost connection (before, while or after the server acts), cancelled task,
dying client process, failing source - then repeated on a fresh connection, with the failed connection closed or still lying around.
Oracle: the committed content after each attempt is the former content with a prefix of the records applied, at least as long as what had been
acknowledged; the caller sees every failure; the last attempt reaches the state of an uninterrupted run.
"""

import asyncio
import copy
import random
import typing

from .. import bulk, common, rows, schema
from ..env import ClientCrash, Ctx, DIALECTS, Violation, root_cause

QUICK = 4000
THOROUGH = 120000
RULE = "an attempt was cut short after it had started, and was retried"
REAL = common.REAL
STUB = common.STUB
ASSUMPTIONS = common.ASSUMPTIONS

KINDS = ["error", "error", "error", "lost_before", "lost_after", "crash_before", "crash_after", "cancel", "cancel", "source", "stall"]
ERRS = ["injected", "deadlock", "disk_full", "lock_timeout"]
PACE = [(0.0,), (0.0, 0.001, 0.1), (0.5, 3.0)]


def generate(rng: random.Random, tier: str) -> dict:
    d = rng.choice(DIALECTS)
    opts = common.gen_options(rng, d)
    opts.pop("foreign_constraints", None)
    sp = bulk.spec(rng)
    op = rng.choice(["insert_rows", "insert_rows", "upsert_rows", "upsert_rows", "delete_rows", "insert_data", "upsert_data", "delete_data"])
    if not bulk.supports(op, d, opts, sp):
        op = rng.choice(["insert_rows", "upsert_rows"])
    n = rng.choice([1, 2, 3, 5, 8, 13])
    attempts = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice(KINDS)
        attempts.append({"kind": k, "k": rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 8, 10]), "sub": rng.randrange(4), "rec": rng.randrange(8), "err": rng.choice(ERRS),
                         "at": rng.randrange(n + 1), "late": rng.random() < 0.5, "keep": rng.random() < 0.4, "src": rng.choice(bulk.ANY), "d": rng.choice([1, 30, 100])})
    return {"_dialect": d, "_ns": "ns", "opts": opts, "spec": sp, "_op": op, "n": n, "have": rng.randrange(5), "batch": rng.choice([1, 2, 3, 4, 50]), "attempts": attempts, "seed": rng.randrange(1 << 30),
            "pace": rng.randrange(3), "lat": rng.randrange(4)}


def execute(ctx: Ctx, plan: dict) -> None:
    common.setup_world(ctx, plan)
    batch = max(plan["batch"], 1)
    ctx.batch_size(batch)
    d, ns, sp, op = plan["_dialect"], plan["_ns"], plan["spec"], plan["_op"]
    if not any(f["n"] == "amount" for f in (sp["tables"][0]["fields"] if sp["tables"] else [])) or not sp["enums"].get("Level"):
        return
    srv = ctx.server(d)
    rng = random.Random(plan["seed"])
    deleting = op.startswith("delete")

    async def main() -> None:
        loop = asyncio.get_running_loop()
        mod = ctx.module("vmod", schema.source(sp))
        opts = common.options(plan["opts"], {mod: ns})
        m = rows.Model(sp, d, ns, srv.db)
        t = sp["tables"][0]
        cm = ctx.connection(d, opts, user="c0")
        conn = await cm.open()
        await ctx.explorer(d, conn).synchronize(module=mod)
        cols = bulk.layout("upsert_rows", sp, rng)
        pairs: list = []
        have: list = []
        for i in range(plan["n"]):
            key = m.new_key(rng, t)
            pairs.append((key, bulk.record(rng, m, key)))
            if deleting or (op.startswith("upsert") and rng.random() < 0.4):
                have.append((key, bulk.record(rng, m, key)))
        for i in range(plan["have"]):
            key = m.new_key(rng, t)
            have.append((key, bulk.record(rng, m, key)))
        if have:
            await bulk.call(conn, "upsert_rows", mod, m, cols, bulk.items_for("upsert_rows", mod, sp, cols, have))
            for k, r in have:
                m.upsert("Rec", k, r)
        bad = m.difference("Rec")
        if bad:
            raise Violation("wrong-content", bad)
        await cm.close()

        def after(base: dict, n: int) -> dict:
            mm = copy.copy(m)
            mm.rows = {"Rec": {k: dict(v) for k, v in base.items()}}
            for k, r in pairs[:n]:
                (mm.delete("Rec", k) if deleting else mm.upsert("Rec", k, r))
            return mm.rows["Rec"]

        async def attach(user: str):
            cm = ctx.connection(d, opts, user=user)
            conn = await cm.open()
            await ctx.explorer(d, conn).synchronize(module=mod)
            return cm, conn

        cut = 0
        lying: list = []
        for no, a in enumerate(plan["attempts"] + [None], start=1):
            kind = a["kind"] if a else None
            user = f"c{no}"
            this = op
            if no > 1 and op.startswith("insert"):
                this = op.replace("insert", "upsert")
            items = bulk.items_for(this, mod, sp, cols, pairs)
            cm, conn = await attach(user)
            log = srv.db.received = []
            progress = [0]

            def received() -> int:
                return sum(len(b[2]) for b in bulk.main_batches(log, d, ns, srv.db.database))

            def on_request(i: int) -> None:
                progress[0] = received()

            src = a["src"] if a else "gen"
            if not this.endswith("rows") or this.startswith("delete"):
                src = {"aiter": "iterator", "agen": "gen"}.get(src, src)
            fail_at = min(a["at"], len(items)) if kind == "source" else None
            if fail_at == 0 and src == "sized" and not items:
                fail_at = None
            feed = bulk.Feed(ctx.sim, items, fail_at=fail_at, on_request=on_request, pace=PACE[plan["pace"]])
            client = ctx.world.client(user)
            task = asyncio.ensure_future(bulk.call(conn, this, mod, m, cols, feed.open(src)))
            if kind == "cancel":
                def cancel() -> None:
                    if ctx.sim.on_loop_thread():
                        loop.call_soon(task.cancel)
                    else:
                        loop.call_soon_threadsafe(task.cancel)

                client.on_cancel = cancel
            if kind is not None and kind != "source":
                client.arm([{"k": a["k"], "kind": kind, "sub": a["sub"], "rec": a["rec"], "err": a["err"], "late": a["late"], "d": a["d"]}])
            await asyncio.wait([task])
            client.on_cancel = None
            fired = list(client.fired)
            client.disarm()
            raised: typing.Optional[BaseException] = asyncio.CancelledError() if task.cancelled() else task.exception()
            if isinstance(raised, Violation):
                raise raised
            batches = [len(b[2]) for b in bulk.main_batches(log, d, ns, srv.db.database)]
            what = f"attempt {no} ({this}, {kind if fired or kind == 'source' else 'no fault'}, batches {batches})"
            if raised is None:
                if kind == "source" and fail_at is not None:
                    raise Violation("failure-hidden", f"{what}: the source failed but success was reported")
                if fired and kind not in ("stall", "cancel"):
                    raise Violation("failure-hidden", f"{what}: the write was cut short but success was reported")
            elif not fired and kind != "source":
                raise Violation("retry-fails" if no > 1 else "write-fails", f"{what} fails: {root_cause(raised)}")
            elif kind == "stall" and not lying:
                raise Violation("write-fails", f"{what}: a slow server made the write fail: {root_cause(raised)}")
            keep = a is not None and a["keep"] and raised is not None and kind in ("error", "source", "cancel")
            if not keep:
                try:
                    await cm.close()
                except ClientCrash:
                    pass
                except Exception as e:
                    if raised is None:
                        raise Violation("close-fails", f"{what}: closing fails: {root_cause(e)}")
            else:
                lying.append(cm)
            # what is stored
            given = sum(batches)
            whole = this == "insert_data" and d == "postgresql"
            if raised is None:
                lo = hi = len(pairs)
            else:
                # every batch before the last one had been acknowledged; so had the last one if a further record was requested
                acked = given if progress[0] == given else given - batches[-1] if batches else 0
                lo, hi = (0 if whole else acked), min(given, len(pairs))
                if whole:
                    hi = len(pairs)
                if d == "mysql" and not batches:
                    hi = len(pairs)
            base = {k: dict(v) for k, v in m.rows["Rec"].items()}
            found = None
            first = None
            for n in range(hi, lo - 1, -1):
                m.rows["Rec"] = after(base, n)
                diff = m.difference("Rec")
                if diff is None:
                    found = n
                    break
                first = first or diff
            if found is None:
                raise Violation("not-a-prefix", f"{what}: content is not the former content with the first {lo}..{hi} records applied: {first}")
            if raised is not None:
                cut += 1 if feed.taken else 0
                ctx.counts[f"cut-{kind}"] += 1
                if kind == "source":
                    ctx.sim.fault_counts["source-failure"] += 1
                if 0 < found < len(pairs):
                    ctx.counts["partial"] += 1
            ctx.counts[this] += 1
        for cm in lying:
            await cm.close()
        bad = m.difference("Rec")
        if bad:
            raise Violation("late-effect", f"content changed when a failed connection was closed: {bad}")
        ctx.nontrivial = cut > 0

    ctx.sim.run(main())
    ctx.check_hygiene()
