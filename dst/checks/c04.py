"""
C04: an interrupted synchronization is reported, loses nothing and can be re-run.

Workload: a populated database and the next version of its schema (including migrations of enumerations into lookup tables). The synchronization is
rehearsed on a copy of the server to learn the exchange, then run with a fault at a chosen round trip or statement (rejected statement, lost
connection before or after the effect, client death, cancellation, stall, competing lock); further attempts from fresh connections may be disturbed, too, until one is not.
Oracle: a disturbed synchronization that claims success has reached the schema of the rehearsal; a failed one leaves either the old or the new schema
and data on databases with transactional schema changes; the undisturbed attempt succeeds, reaches the schema of the rehearsal and every value that both versions keep;
creating the objects on the connection whose synchronization failed does not succeed without effect (its model is not ahead of the database).
"""

import asyncio
import random
import typing

from .. import common, schema
from ..env import ClientCrash, Ctx, DIALECTS, Violation, root_cause
from .c02 import changed_member, compare, content, kept_fields

QUICK = 1500
THOROUGH = 45000
RULE = "a fault struck a synchronization that had something to change in a database with rows"
REAL = common.REAL
STUB = common.STUB
ASSUMPTIONS = common.ASSUMPTIONS + [
    "on MySQL and Oracle every schema statement is durable on its own; on PostgreSQL and SQL Server a script is one transaction",
    "the versions differ by changes that can be applied to populated tables",
]
KINDS = ["error", "error", "lost_before", "lost_after", "crash_before", "crash_after", "crash_after", "cancel", "cancel", "stall"]
ATOMIC = ("postgresql", "mssql")


def generate(rng: random.Random, tier: str) -> dict:
    d = rng.choice(DIALECTS)
    opts = common.gen_options(rng, d)
    migrate = d in ("postgresql", "mysql") and rng.random() < 0.45
    if migrate:
        opts["enum_mode"] = {"postgresql": "CHECK" if rng.random() < 0.25 else "TYPE", "mysql": "INLINE"}[d]
        opts.pop("foreign_constraints", None)
    g = schema.Gen(rng, d, max_tables=rng.choice([1, 2, 4]), docs=rng.random() < 0.4)
    g.alter = g.fill = True
    g.nested = not migrate
    g.rich = rng.choice([0, 0, 0.3])
    if not migrate:
        common.enum_lists(rng, g, opts)
    base = g.spec()
    ops = g.ops(base, rng.choice([1, 2, 3, 5]), safe=True) if not (migrate and rng.random() < 0.4) else []
    faults = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        faults.append({"at": rng.random(), "write": rng.random() < 0.75, "kind": rng.choice(KINDS), "sub": rng.randrange(24), "err": rng.choice(["injected", "lock_timeout", "permission"]), "late": rng.random() < 0.5,
                       "d": rng.choice([1, 20, 70]), "same": rng.random() < 0.15, "then": rng.random() < 0.4})
    return schema.gen_home(rng, {"_dialect": d, "_ns": rng.choice(["ns", "Sales", "ns", "Sales", ""]), "opts": opts, "base": base, "ops": ops, "migrate": migrate, "empty": rng.random() < 0.15, "rows": rng.choice([1, 2, 3]), "_rs": rng.randrange(1 << 30),
            "faults": faults, "lat": rng.randrange(4), "shuffle": rng.random() < 0.2})


def select_like(label: str) -> bool:
    t = label.strip().upper()
    return t.startswith(("SELECT", "WITH", "CONNECT", "VERSION", "CLOSE", "ALTER SESSION", "SET "))


def execute(ctx: Ctx, plan: dict) -> None:
    common.setup_world(ctx, plan)
    d = plan["_dialect"]
    v0, v1 = schema.versions(plan["base"], [plan["ops"]])
    if not v0["tables"] or not v1["tables"]:
        return
    ns = schema.home(plan, [v0, v1])
    opts0 = dict(plan["opts"])
    opts1 = dict(opts0)
    if plan["migrate"]:
        opts1["enum_mode"] = "RELATION"
    srv = ctx.server(d)
    own = common.own_key(d, ns)

    async def main() -> None:
        loop = asyncio.get_running_loop()
        if not plan["empty"]:
            ms, spaces = schema.modules(ctx, v0, ns)
            async with ctx.connection(d, common.options(opts0, spaces), user="c0") as conn:
                await ctx.explorer(d, conn).synchronize(modules=ms)
            schema.populate(srv.db, random.Random(plan["_rs"]), max(plan["rows"], 1), only=own, counter=[0])
            if not schema.fill_nulls(srv.db, v0, v1, d, ns, random.Random(plan["_rs"])):
                return
        ms, spaces = schema.modules(ctx, v1, ns)
        opts = common.options(opts1, spaces)
        old = schema.observe(srv.db)
        before = content(srv.db, v0, d, ns)
        rows0 = schema.snapshot(srv.db)
        # rehearsal
        twin = ctx.server(d, "twin")
        twin.db.state = srv.db.state.clone()
        async with ctx.connection(d, opts, user="twin", host="twin") as conn:
            cl = ctx.world.client("twin")
            cl.arm([])
            try:
                await ctx.explorer(d, conn).synchronize(modules=ms)
            except Exception as e:
                if changed_member(v0, v1) and "because a column uses it" in root_cause(e):
                    return
                raise Violation("sync-fails", f"the undisturbed synchronization fails: {root_cause(e)}")
            labels = list(cl.labels)
        want = schema.observe(twin.db)
        rows1 = schema.snapshot(twin.db)
        keep = kept_fields(v0, v1)
        struck = 0

        async def attempt(k: int, fault: typing.Optional[dict], reuse: typing.Any) -> tuple:
            user = f"u{k}"
            if reuse is not None:
                cm, conn, client = reuse
            else:
                cm = ctx.connection(d, opts, user=user)
                conn = await cm.open()
                client = ctx.world.client(user)
            raised: typing.Optional[BaseException] = None
            task = asyncio.ensure_future(ctx.explorer(d, conn).synchronize(modules=ms))
            if fault is not None:
                def cancel() -> None:
                    if ctx.sim.on_loop_thread():
                        loop.call_soon(task.cancel)
                    else:
                        loop.call_soon_threadsafe(task.cancel)

                client.on_cancel = cancel
                client.arm([fault])
            await asyncio.wait([task])
            client.on_cancel = None
            client.disarm()
            fired = [f["kind"] for _, f in client.fired]
            ddl = bool(client.fired) and any(not select_like(x) and x not in ("COMMIT", "ROLLBACK") for x in client.labels[: client.fired[0][0] + 1])
            client.fired = []
            raised = asyncio.CancelledError() if task.cancelled() else task.exception()
            if isinstance(raised, Violation):
                raise raised
            return raised, fired, ddl, (cm, conn, client)

        handle = None
        for k, f in enumerate(plan["faults"]):
            cand = [i for i, x in enumerate(labels) if not f["write"] or not select_like(x)] or list(range(len(labels)))
            if not cand:
                break
            at = cand[min(int(f["at"] * len(cand)), len(cand) - 1)]
            fault = {**f, "k": at, "d": max(f["d"], 1)}
            pre = (schema.observe(srv.db), schema.snapshot(srv.db))
            raised, fired, ddl, handle = await attempt(k, fault, handle)
            what = f"synchronization with {f['kind']} at round trip {at} ({labels[at][:60]!r}, statement {f['sub']})"
            if fired:
                struck += 1
                ctx.counts[f"struck-{fired[0]}"] += 1
                ctx.counts["in-write" if not select_like(labels[at]) else "in-read"] += 1
            elif raised is not None:
                raise Violation("sync-fails", f"attempt {k}: undisturbed synchronization fails: {root_cause(raised)}")
            now = (schema.observe(srv.db), schema.snapshot(srv.db))
            if raised is None:
                df = schema.diff(now[0], want)
                if df:
                    raise Violation("false-success", f"{what} claims success, but the catalog differs from the desired one: " + "; ".join(df[:3]))
            elif d in ATOMIC and now[0] != pre[0] and now[0] != want:
                raise Violation("partial", f"failed {what} left a schema that is neither the old nor the new one: " + "; ".join(schema.diff(now[0], pre[0])[:3]))
            elif d in ATOMIC and now[0] == pre[0] and now[0] != want and now[1] != pre[1]:
                raise Violation("trace", f"failed {what} changed data")
            if raised is not None:
                ctx.counts["failed"] += 1
                if pre[0] != now[0]:
                    ctx.counts["failed-with-effect"] += 1
            if f.get("then") and raised is not None and fired and fired[0] in ("error", "cancel", "stall") and ddl:
                # the model of the connection must not claim what the failed synchronization was about to create
                try:
                    await handle[1].create_objects(common.entity_types(ms))
                except Exception:
                    ctx.counts["create-after-failure-refused"] += 1
                else:
                    ctx.counts["create-after-failure"] += 1
                    df = schema.diff(schema.observe(srv.db), want)
                    if df:
                        raise Violation("model-ahead", f"after a failed {what}, creating the objects on the same connection claims success, but: " + "; ".join(df[:3]))
            reuse = f["same"] and raised is not None and fired and fired[0] == "error"
            if not reuse:
                try:
                    await handle[0].close()
                except (ClientCrash, Exception):
                    pass
                handle = None
        raised, fired, _, handle = await attempt(99, None, handle)
        if raised is not None:
            raise Violation("not-rerunnable", f"synchronization after {[(f['kind'], f['sub']) for f in plan['faults']]} fails: {root_cause(raised)}")
        await handle[0].close()
        df = schema.diff(schema.observe(srv.db), want)
        if df:
            raise Violation("not-reached", "synchronization after an interruption reaches a different schema: " + "; ".join(df[:3]))
        bad = compare(before, content(srv.db, v1, d, ns), keep)
        if bad:
            raise Violation("data-lost", f"after an interrupted synchronization: {bad}")
        ctx.counts[f"dialect-{d}"] += 1
        ctx.counts["migrations"] += bool(plan["migrate"])
        ctx.nontrivial = struck > 0 and want != old and (bool(rows0) or plan["empty"])

    ctx.sim.run(main())
    ctx.check_hygiene()
