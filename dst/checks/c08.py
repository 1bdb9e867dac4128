"""
C08: enumeration lookup tables stay one-to-one under concurrent writers.

Workload: several clients write rows with overlapping sets of enumeration values (declared and - for extensible enumerations - new ones,
missing values, awkward texts) into several tables that share lookup tables, at the same time, in tiny batches, at any pace; another
application adds values of its own; requests are rejected, connections are lost, clients die or tasks are cancelled, and failed writes are repeated.
Oracle: the lookup tables are inspected at every round trip of any client: a value occurs once, identifiers never change or vanish, missing values are never
stored; in the end every row refers to the identifier whose value was supplied.
"""

import asyncio
import random
import types
import typing

from .. import bulk, common, schema
from ..env import ClientCrash, Ctx, DIALECTS, Violation, root_cause

QUICK = 1600
THOROUGH = 50000
RULE = "at least two clients wrote overlapping values and a lookup table grew while they were writing"
REAL = common.REAL
STUB = common.STUB
ASSUMPTIONS = common.ASSUMPTIONS + ["in MySQL and SQL Server, enumeration values differ by more than letter case and trailing spaces (which usual collations ignore)",
                                    "the simulated database serializes writing transactions with a lock and lets readers see the latest committed state"]

TEXTS = ["low", "mid", "high", "it's", "new", "newer", "newest", "été", "日本語", "100%", "a b", "%s", "?", ":1", "x" * 64, '"q"', "NULL", "None", "0", "{x}", "A1", "B2", "C3"]
CASES = ["LOW", "Low", "low ", " low", "a1", "b2 ", "Newer", "NEW", "It's"]
FAULTS = ["error", "error", "lost_before", "lost_after", "crash_before", "crash_after", "cancel"]
PACE = [(0.0,), (0.0, 0.001, 0.1), (0.05, 0.3)]

SOURCE = """
import enum
from dataclasses import dataclass
from typing import Annotated, Optional, Union
from strong_typing.auxiliary import MaxLength
from pysqlsync.model.key_types import PrimaryKey

class Level(enum.Enum):
    LOW = "low"
    MID = "mid"
    HIGH = "high"
    ITS = "it's"

class Kind(enum.Enum):
    NEW = "new"

@dataclass
class Rec:
    id: PrimaryKey[int]
    kind: Union[Kind, Annotated[str, MaxLength(64)]]
    amount: int
    other: Union[Kind, Annotated[str, MaxLength(64)], None]

@dataclass
class Item:
    id: PrimaryKey[int]
    level: Level
    mood: Optional[Level]
    kind: Union[Kind, Annotated[str, MaxLength(64)], None]
"""
LOOKUPS = {"Rec": {"kind": "Kind", "other": "Kind"}, "Item": {"level": "Level", "mood": "Level", "kind": "Kind"}}
REQUIRED = {("Rec", "kind"), ("Item", "level")}


def generate(rng: random.Random, tier: str) -> dict:
    d = rng.choice(DIALECTS)
    clients = []
    pool = rng.sample(TEXTS, rng.choice([2, 3, 5, 10]))
    if d in ("postgresql", "oracle") and rng.random() < 0.4:
        pool += rng.sample(CASES, rng.choice([1, 3, 5]))
    for c in range(rng.choice([1, 2, 2, 3, 4])):
        ops = []
        for _ in range(rng.randrange(1, 4)):
            f = None
            if rng.random() < 0.35:
                f = {"k": rng.randrange(12), "kind": rng.choice(FAULTS), "sub": rng.randrange(3), "rec": rng.randrange(4), "err": rng.choice(["injected", "deadlock", "unique"]), "late": rng.random() < 0.5}
            ops.append({"table": rng.choice(["Rec", "Item"]), "how": rng.choice(["insert_rows", "upsert_rows"]), "n": rng.choice([1, 2, 3, 5, 8]), "src": rng.choice(bulk.ANY), "fault": f, "seed": rng.randrange(1 << 30),
                        "wait": rng.choice([0, 0, 0.01, 0.5]), "nulls": rng.choice([0, 0.2, 0.7, 1]), "again": rng.random() < 0.3})
        clients.append(ops)
    return {"_dialect": d, "_ns": "ns", "relation": rng.random() < 0.7, "init": rng.random() < 0.4, "clients": clients, "pool": pool, "batch": rng.choice([1, 2, 3, 100]), "lat": rng.choice([0, 1, 3]), "pace": rng.randrange(3),
            "stranger": rng.sample(TEXTS, rng.randrange(0, 4)), "shuffle": rng.random() < 0.3, "discover": rng.random() < 0.2}


def execute(ctx: Ctx, plan: dict) -> None:
    common.setup_world(ctx, plan)
    ctx.batch_size(max(plan["batch"], 1))
    d, ns = plan["_dialect"], plan["_ns"]
    if not plan["pool"]:
        return
    srv = ctx.server(d)
    o: dict = {"enum_mode": "RELATION"} if plan["relation"] else {}
    if plan["init"]:
        o["initialize_tables"] = True

    async def main() -> None:
        loop = asyncio.get_running_loop()
        mod = ctx.module("vmod", SOURCE)
        opts = common.options(o, {mod: ns})
        async with ctx.connection(d, opts, user="c0") as conn:
            await ctx.explorer(d, conn).synchronize(module=mod)
        seen: dict = {"Kind": {}, "Level": {}}
        names = {n: f'"{ns}"."{n}"' if d in ("postgresql", "mssql") else f'"{ns}__{n}"' for n in seen}
        grown = [0]
        written: dict = {"Rec": {}, "Item": {}}

        def table(n: str):
            return srv.db.state.tables.get(schema.table_key(d, ns, n, srv.db.database))

        def inspect(*_a) -> None:
            for n, known in seen.items():
                t = table(n)
                if t is None:
                    continue
                cur: dict = {}
                vals: dict = {}
                for r in t.rows:
                    i, v = r.get(t.col("id").num), r.get(t.col("value").num)
                    if v is None:
                        raise Violation("missing-stored", f"lookup table {n} stores a missing value")
                    if v in vals:
                        raise Violation("duplicate-value", f"lookup table {n} stores {v!r} as {vals[v]} and {i}")
                    if i in cur:
                        raise Violation("duplicate-identifier", f"lookup table {n} uses identifier {i} for {cur[i]!r} and {v!r}")
                    cur[i] = v
                    vals[v] = i
                for i, v in known.items():
                    if cur.get(i) != v:
                        raise Violation("identifier-changed", f"lookup table {n}: identifier {i} was {v!r} and is now {cur.get(i, '<gone>')!r}")
                grown[0] += len(cur) > len(known) and bool(known)
                seen[n] = cur

        ctx.world.on_roundtrip = inspect
        relation = table("Level") is not None
        stop = asyncio.Event()

        async def stranger() -> None:
            conn = ctx.world.client("stranger")
            k = 0
            for text in plan["stranger"]:
                await asyncio.sleep(0.003 * (1 + k % 3))
                k += 1
                for n in ("Kind",) + (("Level",) if relation else ()):
                    t = table(n)
                    while srv.db.lock_owner is not None and not stop.is_set():
                        await asyncio.sleep(0.004)
                    if t is None or stop.is_set():
                        continue
                    s = srv.db.session()
                    from ..sqlparse import parse_script

                    q = {"postgresql": f"INSERT INTO {names[n]} (\"value\") VALUES ($1)", "mysql": f"INSERT INTO {names[n]} (\"value\") VALUES (%s)",
                         "mssql": f"INSERT INTO {names[n]} (\"value\") VALUES (?)", "oracle": f"INSERT INTO {names[n]} (\"value\") VALUES (:1)"}[d]
                    try:
                        for st, _ in parse_script(q, d):
                            s.execute(st, [text])
                        s.commit()
                        ctx.counts["stranger-values"] += 1
                    except Exception as e:
                        if type(e).__name__ != "DbError" or e.kind != "unique":  # type: ignore[attr-defined]
                            raise
                    s.close()

        async def writer(c: int, ops: list) -> None:
            no = [0]

            async def attach():
                no[0] += 1
                user = f"w{c}_{no[0]}"
                cm = ctx.connection(d, opts, user=user)
                conn = await cm.open()
                if plan["discover"]:
                    await ctx.explorer(d, conn).synchronize(module=mod)
                else:
                    conn.connection.generator.create(modules=[mod])
                return cm, conn, ctx.world.client(user)

            cm, conn, client = await attach()
            serial = 0
            own: list = []
            for k, op in enumerate(ops):
                if op["wait"]:
                    await asyncio.sleep(op["wait"])
                rng = random.Random(op["seed"])
                tn = op["table"]
                lk = LOOKUPS[tn]
                recs = []
                how = op["how"]
                for _ in range(op["n"]):
                    mine = [x for x in own if x[0] == tn and x[1] not in [r["id"] for r in recs]]
                    if how == "upsert_rows" and op["again"] and mine:
                        key = rng.choice(mine)[1]
                    else:
                        serial += 1
                        key = serial * 16 + c
                        own.append((tn, key))
                    rec: dict = {"id": key}
                    if tn == "Rec":
                        rec["amount"] = rng.randrange(1000)
                    for f, e in lk.items():
                        if (tn, f) not in REQUIRED and rng.random() < op["nulls"]:
                            rec[f] = None
                        elif e == "Level" and not relation:
                            rec[f] = rng.choice(["low", "mid", "high", "it's"])
                        else:
                            rec[f] = rng.choice(plan["pool"])
                    recs.append(rec)
                cols = list(recs[0])
                rng.shuffle(cols)
                skip = rng.random() < 0.3
                if skip:  # a field without a name, which is left out
                    cols.insert(rng.randrange(len(cols) + 1), "")
                items = [tuple(r[x] if x else rng.choice([None, "low", "junk"]) for x in cols) for r in recs]
                ftypes = tuple(int if x in ("id", "amount") else str if x else types.NoneType for x in cols)
                fnames = tuple(cols)
                attempt = 0
                while True:
                    attempt += 1
                    feed = bulk.Feed(ctx.sim, items, pace=PACE[plan["pace"]])
                    fn = conn.insert_rows if how == "insert_rows" and attempt == 1 else conn.upsert_rows
                    task = asyncio.ensure_future(fn(conn.get_table(getattr(mod, tn)), feed.open(op["src"]), field_types=ftypes, field_names=fnames))
                    if op["fault"] and attempt == 1:
                        def cancel(task=task) -> None:
                            if ctx.sim.on_loop_thread():
                                loop.call_soon(task.cancel)
                            else:
                                loop.call_soon_threadsafe(task.cancel)

                        client.on_cancel = cancel
                        client.arm([op["fault"]])
                    await asyncio.wait([task])
                    client.on_cancel = None
                    client.disarm()
                    fired = [f["kind"] for _, f in client.fired]
                    client.fired = []
                    raised: typing.Optional[BaseException] = asyncio.CancelledError() if task.cancelled() else task.exception()
                    if raised is None:
                        break
                    if isinstance(raised, Violation):
                        raise raised
                    if not fired:
                        if "lock_timeout" in root_cause(raised) or "lock wait" in root_cause(raised):
                            ctx.counts["lock-timeout"] += 1
                            if attempt < 8:
                                continue
                        raise Violation("write-fails", f"client {c}, operation {k} ({how} into {tn}, attempt {attempt}) fails: {root_cause(raised)}")
                    ctx.counts[f"failed-{fired[0]}"] += 1
                    if fired[0] != "error" or rng.random() < 0.3:
                        try:
                            await cm.close()
                        except (ClientCrash, Exception):
                            pass
                        cm, conn, client = await attach()
                for r in recs:
                    written[tn][r["id"]] = r
                ctx.counts["writes"] += 1
            await cm.close()

        tasks = [asyncio.ensure_future(writer(c, ops)) for c, ops in enumerate(plan["clients"])]
        other = asyncio.ensure_future(stranger())
        done, _ = await asyncio.wait(tasks)
        stop.set()
        await asyncio.wait([other])
        for t in tasks + [other]:
            if t.exception() is not None:
                raise t.exception()
        inspect()
        for tn, recs in written.items():
            t = table(tn)
            got = {r.get(t.col("id").num): r for r in t.rows}
            for key, rec in recs.items():
                if key not in got:
                    raise Violation("row-missing", f"{tn}: row {key} is missing")
                for f, e in LOOKUPS[tn].items():
                    v = got[key].get(t.col(f).num)
                    if not (e == "Level" and not relation) and v is not None:
                        v = seen[e].get(v, f"<no entry {v!r}>")
                    if v != rec[f]:
                        raise Violation("wrong-reference", f"{tn}[{key}].{f} refers to {v!r}, supplied {rec[f]!r}")
            extra = set(got) - set(recs)
            if extra:
                raise Violation("row-unexpected", f"{tn}: unexpected rows {sorted(extra)[:4]}")
        ctx.counts[f"dialect-{d}"] += 1
        ctx.nontrivial = len(plan["clients"]) > 1 and grown[0] > 0

    ctx.sim.run(main())
    ctx.check_hygiene()
