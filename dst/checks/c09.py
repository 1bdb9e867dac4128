"""
C09: failures surface with their statement and never advance the client's model.

Workload: scripts, statements with records, queries and object writes that are valid or contain one bad statement or record at an arbitrary
place; creation, removal, discovery and synchronization of random schemas; at an arbitrary round trip and statement the database rejects
the request, or the connection is lost before, while or after the server acts; then the operation is repeated on the same connection (when it is
alive) or on a new one.
Oracle: an operation reports success only if every statement was accepted; the error carries the failing statement and the driver's error; the content
of the database is that of a prefix of the script; a repeated operation either reaches the state a fresh creation would reach or fails loudly - the latter
only if the first attempt had left something behind.
"""

import asyncio
import random
import typing

from .. import bulk, common, rows, schema
from ..env import ClassRef, Ctx, DIALECTS, QueryException, Violation, root_cause
from ..sqlparse import parse_script

from pysqlsync.model.id_types import LocalId  # noqa: E402 (env chooses the code under test)

QUICK = 3000
THOROUGH = 80000
RULE = "at least one operation failed and the next one was judged"
REAL = common.REAL
STUB = common.STUB
ASSUMPTIONS = common.ASSUMPTIONS + ["discovery may repeat a query that the database rejected", "a failing script may leave the effect of its leading statements where the database commits them one by one"]

FAULTS = ["error", "error", "error", "lost_before", "lost_after"]
BAD = ["duplicate", "null", "table", "column", "syntax", "long", "range"]


def fault(rng: random.Random, p: float, span: int) -> typing.Optional[dict]:
    if rng.random() >= p:
        return None
    return {"k": rng.randrange(span), "kind": rng.choice(FAULTS), "sub": rng.randrange(7), "rec": rng.randrange(5), "err": rng.choice(["injected", "permission", "lock_timeout"])}


def generate(rng: random.Random, tier: str) -> dict:
    d = rng.choice(DIALECTS)
    opts = common.gen_options(rng, d)
    base = {"_dialect": d, "_ns": "ns", "opts": opts, "lat": rng.randrange(4), "seed": rng.randrange(1 << 30)}
    if rng.random() < 0.5:
        ops = []
        for _ in range(rng.randrange(1, 6)):
            k = rng.choice(["script", "script", "script", "execute_all", "query", "query", "upsert_data", "insert_data", "delete_data", "upsert_rows", "delete_rows"])
            n = rng.randrange(1, 6)
            bad = rng.choice(BAD) if rng.random() < 0.45 else None
            if n in (2, 3) and bad is None and d != "redshift":
                k = rng.choice([k, "drop_table", "create_schema"])
            ops.append({"op": k, "n": n, "bad": bad, "at": rng.randrange(n), "fault": None if bad else fault(rng, 0.5, 3), "src": rng.choice(bulk.SYNC), "sep": rng.choice([";\n", ";\n", ";\n\n"])})
        opts.pop("foreign_constraints", None)
        return {**base, "_mode": "data", "batch": rng.choice([1, 2, 100]), "ops": ops}
    g = schema.Gen(rng, d, max_tables=rng.choice([1, 2, 3]), docs=False, types=rows.types(d))
    v0 = g.spec()
    ops1 = g.ops(v0, rng.choice([1, 2, 3]))
    steps = []
    for _ in range(rng.randrange(1, 5)):
        k = rng.choice(["create", "create", "drop", "sync", "sync", "sync", "discover"])
        steps.append({"op": k, "v": rng.randrange(2), "fault": fault(rng, 0.7, 1 if k in ("create", "drop") and d != "mssql" else 2 if k in ("create", "drop") else 30), "then": rng.choice(["retry", "retry", "drop"])})
    return {**base, "_mode": "ddl", "base": v0, "change": ops1, "steps": steps}


def failing_text(client) -> str:
    if not client.fired:
        return ""
    i = client.fired[-1][0] - client.base
    if client.labels[i].startswith("COMMIT") and i:
        i -= 1  # ends the statement before
    return client.labels[i]


def reading(label: str) -> bool:
    return label.lstrip().upper().startswith(("SELECT", "SHOW"))


def judge_error(ctx: Ctx, what: str, e: BaseException, n_err: int, wrapped: bool, text: typing.Optional[str]) -> None:
    fresh = ctx.world.driver_errors[n_err:]
    chain = []
    x: typing.Optional[BaseException] = e
    while x is not None and len(chain) < 8:
        chain.append(x)
        x = x.__cause__
    if not any(any(c is f for f in fresh) for c in chain):
        raise Violation("cause-lost", f"{what}: the raised error does not carry the driver's error as its cause: {root_cause(e)}")
    if wrapped:
        if not isinstance(e, QueryException):
            raise Violation("statement-lost", f"{what}: raised {type(e).__name__} does not identify the statement")
        if text is not None and norm(text) not in norm(e.query):
            raise Violation("wrong-statement", f"{what}: failed at {text!r} but the error identifies {e.query!r}")


def norm(s: str) -> str:
    return " ".join(s.replace(";", " ").split())


async def data_mode(ctx: Ctx, plan: dict) -> None:
    d, ns = plan["_dialect"], plan["_ns"]
    srv = ctx.server(d)
    rng = random.Random(plan["seed"])
    sp = {"enums": {}, "structs": {}, "tables": [{"name": "Rec", "doc": None, "pk": {"n": "id", "t": "int", "identity": False}, "fields": [
        {"n": "amount", "t": "i32", "opt": False, "def": None, "uniq": False, "doc": None}, {"n": "note", "t": "s80", "opt": True, "def": None, "uniq": False, "doc": None}]}]}
    t = sp["tables"][0]
    mod = ctx.module("vmod", schema.source(sp))
    m = rows.Model(sp, d, ns, srv.db)
    no = 0
    cm = conn = client = None
    failures = 0

    async def connect():
        nonlocal no, cm, conn, client
        no += 1
        cm = ctx.connection(d, common.options(plan["opts"], {mod: ns}), user=f"c{no}")
        conn = await cm.open()
        await ctx.explorer(d, conn).synchronize(module=mod)
        client = ctx.world.client(f"c{no}")

    await connect()
    for i, op in enumerate(plan["ops"]):
        k = op["op"]
        table = conn.get_table(mod.Rec)
        T = str(table.name)
        C = {n: str(c.name) for n, c in table.columns.items()}
        bad = op["bad"]
        op["n"] = max(op["n"], 1)
        at = op["at"] % max(op["n"], 1)
        base = {x: dict(v) for x, v in m.rows["Rec"].items()}
        effects: list = []  # effect of each statement or record on the model
        text: typing.Optional[str] = None
        wrapped = True
        n_err = len(ctx.world.driver_errors)

        def keep(f: typing.Callable) -> None:
            effects.append(f)

        if k == "script":
            stmts = []
            live = list(base)
            for j in range(op["n"]):
                if bad and j == at:
                    if bad == "duplicate" and not live:
                        bad = "null"
                    if bad == "range" and (d == "oracle" or not live):
                        bad = "long"
                    s = {"duplicate": lambda: f"INSERT INTO {T} ({C['id']}, {C['amount']}) VALUES ({rng.choice(live)}, {7000 + j})",
                         "null": lambda: f"INSERT INTO {T} ({C['id']}, {C['note']}) VALUES ({m.new_key(rng, t)}, 'n{j}')",
                         "table": lambda: f"INSERT INTO {T.replace('Rec', 'Missing')} ({C['id']}) VALUES ({m.new_key(rng, t)})",
                         "column": lambda: f"UPDATE {T} SET {C['amount'].replace('amount', 'missing')} = {7000 + j}",
                         "long": lambda: f"INSERT INTO {T} ({C['id']}, {C['amount']}, {C['note']}) VALUES ({m.new_key(rng, t)}, {7000 + j}, '{'x' * (81 + j)}')",
                         "range": lambda: f"UPDATE {T} SET {C['amount']} = {2**31 + j} WHERE {C['id']} = {rng.choice(live)}",
                         "syntax": lambda: f"INSRT INTO {T} ({C['id']}) VALUES ({m.new_key(rng, t)})"}[bad]()
                    text = s
                    stmts.append(s)
                    continue
                a = rng.randrange(1000, 9999)
                kind = rng.choice(["insert", "insert", "update", "delete"]) if live else "insert"
                if kind == "insert":
                    key = m.new_key(rng, t)
                    live.append(key)
                    note = rng.choice([f"x{a}", f"x{a}", f"x{a}", f"{a};\nsecond line;", f"it's {a};\n\n-- more", f"BEGIN {a};\nEND;"])
                    lit = note.replace("'", "''")
                    stmts.append(f"INSERT INTO {T} ({C['id']}, {C['amount']}, {C['note']}) VALUES ({key}, {a}, '{lit}')")
                    keep(lambda mm, key=key, a=a, note=note: mm.insert("Rec", key, {"amount": a, "note": note}))
                elif kind == "update":
                    key = rng.choice(live)
                    stmts.append(f"UPDATE {T} SET {C['amount']} = {a} WHERE {C['id']} = {key}")
                    keep(lambda mm, key=key, a=a: mm.upsert("Rec", key, {"amount": a}) if key in mm.rows["Rec"] else None)
                else:
                    key = live.pop(rng.randrange(len(live)))
                    stmts.append(f"DELETE FROM {T} WHERE {C['id']} = {key}")
                    keep(lambda mm, key=key: mm.delete("Rec", key))
            call = conn.execute(op["sep"].join(stmts) + ";")
        elif k == "execute_all":
            recs = []
            live = list(base)
            for j in range(op["n"]):
                key = m.new_key(rng, t)
                a = rng.randrange(1000, 9999)
                if bad and j == at:
                    if bad in ("duplicate",) and live:
                        key = rng.choice(live)
                    elif bad == "range" and d != "oracle":
                        a = 2**31 + j
                    else:
                        bad = "null"
                        a = None
                else:
                    keep(lambda mm, key=key, a=a: mm.insert("Rec", key, {"amount": a}))
                recs.append((key, a))
            stmt = bulk.update_stmt(conn, d, mod)
            text = stmt if bad else None
            call = conn.execute_all(stmt, recs)
        elif k == "query":
            if bad:
                s = f"SELECT {C['id']} FROM {T.replace('Rec', 'Missing')}" if bad in ("table", "duplicate") else f"SELECT {C['id'].replace('id', 'missing')} FROM {T}"
                text = s
            else:
                s = f"SELECT {C['id']} FROM {T} ORDER BY {C['id']}"
            call = conn.query_all(int, s)
        elif k in ("drop_table", "create_schema"):
            bad = None
            extra = schema.table_key(d, ns, "Extra", srv.db.database)
            extra_id = conn.get_table_id(ClassRef(module=mod, entity_name="Extra"))
            if k == "drop_table":
                if op["at"] and extra not in srv.db.state.tables:
                    s = srv.db.session()
                    for st, _ in parse_script(f"CREATE TABLE {extra_id} ({C['id']} integer NOT NULL);", d):
                        s.execute(st)
                    s.commit()
                    s.close()
                call = conn.drop_table_if_exists(extra_id)
            elif d in ("postgresql", "mssql"):
                call = conn.create_schema(LocalId("other"))
            else:
                continue
        else:
            kind, _, form = k.partition("_")
            bad = "long" if bad and kind != "delete" else None
            live = sorted(base)
            pairs = []
            for j in range(op["n"]):
                if kind == "delete" or (kind == "upsert" and rng.random() < 0.4):
                    key = live.pop(rng.randrange(len(live))) if live else m.new_key(rng, t)
                else:
                    key = m.new_key(rng, t)
                r = bulk.record(rng, m, key)
                if bad and j == at:
                    r["note"] = "x" * (81 + j)
                pairs.append((key, r))
                if kind == "delete":
                    keep(lambda mm, key=key: mm.delete("Rec", key))
                else:
                    keep(lambda mm, key=key, r=r: mm.upsert("Rec", key, r))
            cols = bulk.layout(k, sp, rng)
            items = bulk.items_for(k, mod, sp, cols, pairs)
            wrapped = form == "data" and not (k == "insert_data" and d == "postgresql")
            call = bulk.call(conn, k, mod, m, cols, bulk.Feed(ctx.sim, items).open(op["src"]))
        if op["fault"]:
            client.arm([op["fault"]])
        raised: typing.Optional[BaseException] = None
        result: typing.Any = None
        try:
            result = await call
        except Exception as e:
            raised = e
        fired = list(client.fired) if op["fault"] else []
        kind_f = fired[0][1]["kind"] if fired else None
        if fired and text is None and k in ("script", "query", "execute_all"):
            text = None
        client.disarm()
        client.fired = []
        what = f"operation {i} ({k}{', bad ' + bad if bad else ''}{', ' + kind_f if kind_f else ''})"
        if raised is None:
            if bad:
                raise Violation("failure-hidden", f"{what}: the database rejected {text!r} but success was reported")
            if kind_f:
                raise Violation("failure-hidden", f"{what}: the request failed but success was reported")
        else:
            if not bad and not kind_f:
                raise Violation("operation-fails", f"{what} fails: {root_cause(raised)}")
            judge_error(ctx, what, raised, n_err, wrapped, text)
            failures += 1
        # content: all effects, or those of a prefix after a failure
        options = [len(effects)] if raised is None else list(range(len(effects), -1, -1))
        first = None
        for n in options:
            m.rows["Rec"] = {x: dict(v) for x, v in base.items()}
            for f in effects[:n]:
                f(m)
            diff = m.difference("Rec")
            if diff is None:
                break
            first = first or diff
        else:
            raise Violation("wrong-content", f"{what} {'reported success' if raised is None else 'failed'}: {first}")
        if k == "drop_table" and raised is None and extra in srv.db.state.tables:
            raise Violation("not-done", f"{what} reported success, but the table is still there")
        if k == "create_schema" and raised is None and "other" not in srv.db.state.schemas:
            raise Violation("not-done", f"{what} reported success, but the schema is not there")
        if k == "query" and raised is None and result != sorted(m.rows["Rec"]):
            raise Violation("wrong-result", f"{what}: query returned {result!r}, stored {sorted(m.rows['Rec'])!r}")
        if raised is not None and kind_f in ("lost_before", "lost_after"):
            try:
                await cm.close()
            except Exception:
                pass
            await connect()
        elif raised is not None:
            # the connection stays usable, and shows what is stored
            try:
                got = await conn.query_all(int, f"SELECT {C['id']} FROM {T} ORDER BY {C['id']}")
            except Exception as e:
                raise Violation("unusable", f"{what}: the connection is unusable afterwards: {root_cause(e)}")
            if got != sorted(m.rows["Rec"]):
                raise Violation("unusable", f"{what}: afterwards a query returns {got!r}, stored {sorted(m.rows['Rec'])!r}")
            if m.difference("Rec"):
                raise Violation("late-effect", f"{what}: work of the failed operation was committed later: {m.difference('Rec')}")
        ctx.counts[k] += 1
    await cm.close()
    if m.difference("Rec"):
        raise Violation("late-effect", f"content changed when the connection was closed: {m.difference('Rec')}")
    ctx.nontrivial = failures > 0


async def ddl_mode(ctx: Ctx, plan: dict) -> None:
    d, ns = plan["_dialect"], plan["_ns"]
    srv = ctx.server(d)
    vs = schema.versions(plan["base"], [plan["change"]])
    if any(not v["tables"] for v in vs):
        return
    ref: dict = {}
    mods = {}
    for v in (0, 1):
        mods[v] = ctx.module("vmod", schema.source(vs[v]))
        async with ctx.connection(d, common.options(plan["opts"], {mods[v]: ns}), user=f"r{v}", host=f"ref{v}") as c:
            await c.create_objects(common.entity_types([mods[v]]))
        ref[v] = schema.observe(ctx.server(d, f"ref{v}").db)
    no = 0
    cm = conn = client = None
    at: typing.Optional[int] = None  # version the database holds (None: nothing; -1: undetermined)
    model: typing.Optional[int] = None  # version the connection's model holds
    failures = 0
    empty = schema.observe(srv.db)

    def module(v: int):
        return ctx.module("vmod", schema.source(vs[v]))

    async def connect():
        nonlocal no, cm, conn, client, model
        if cm is not None:
            try:
                await cm.close()
            except Exception:
                pass
        no += 1
        mod = module(0)
        cm = ctx.connection(d, common.options(plan["opts"], {mod: ns}), user=f"c{no}")
        conn = await cm.open()
        client = ctx.world.client(f"c{no}")
        model = None

    def gone() -> typing.Optional[str]:
        own = common.own_key(d, ns)
        left = [k for k in srv.db.state.tables if own(k)]
        return f"tables {left} still exist" if left else None

    await connect()
    for i, s in enumerate(plan["steps"]):
        k, v = s["op"], s["v"]
        if at == -1:
            break
        if k == "create" and at is not None:
            k = "drop"
        if k == "drop" and (at is None or model != at):
            k = "sync"
        if at is not None and at >= 0:
            v = max(v, at)  # versions only evolve forward
        if k == "discover" and at is None:
            continue
        what = f"step {i} ({k} version {v})"

        async def run(kind: str) -> None:
            mod = module(v)
            if kind == "create":
                await conn.create_objects(common.entity_types([mod]))
            elif kind == "drop":
                await conn.drop_objects()
            elif kind == "sync":
                await ctx.explorer(d, conn).synchronize(module=mod)
            else:
                await ctx.explorer(d, conn).discover(module=mod)

        def problem(kind: str) -> typing.Optional[str]:
            if kind in ("create", "sync"):
                df = schema.diff(schema.observe(srv.db), ref[v])
                return "; ".join(df[:3]) if df else None
            if kind == "drop":
                return gone()
            return None

        before = schema.observe(srv.db)
        n_err = len(ctx.world.driver_errors)
        if s["fault"]:
            client.arm([s["fault"]])
        raised: typing.Optional[BaseException] = None
        try:
            await run(k)
        except Exception as e:
            raised = e
        fired = list(client.fired)
        label = failing_text(client)
        client.disarm()
        client.fired = []
        kind_f = fired[0][1]["kind"] if fired else None
        what += f", {kind_f}" if kind_f else ""
        if raised is None:
            if kind_f and not (kind_f == "error" and k in ("sync", "discover") and reading(label)):  # reading the catalog may be tried again
                raise Violation("failure-hidden", f"{what}: the request {label[:100]!r} failed but success was reported")
            bad = problem(k)
            if bad:
                raise Violation("not-done", f"{what} reported success, but: {bad}")
            at = v if k in ("create", "sync") else None if k == "drop" else at
            model = at
            ctx.counts[k] += 1
            continue
        if not kind_f:
            raise Violation("operation-fails", f"{what} fails: {root_cause(raised)}")
        failures += 1
        judge_error(ctx, what, raised, n_err, True, None)
        after = schema.observe(srv.db)
        clean = after == before
        if kind_f in ("lost_before", "lost_after"):
            await connect()
            if k == "drop":
                k = "sync"
        elif s["then"] == "drop" and k == "sync" and clean and at is not None and not reading(label):
            # the model still describes what is there: removing it removes everything
            try:
                await conn.drop_objects()
            except Exception as e:
                raise Violation("model-advanced", f"{what}: removing the objects afterwards fails: {root_cause(e)}")
            if gone():
                raise Violation("model-advanced", f"{what}: removing the objects afterwards reports success, but {gone()}")
            at = model = None
            continue
        # repeat
        try:
            await run(k)
        except Exception as e:
            if clean or k == "sync":
                if k != "sync" or clean:
                    raise Violation("retry-fails", f"{what}: repeating it fails: {root_cause(e)}")
            at = -1
            ctx.counts["retry-refused"] += 1
            continue
        bad = problem(k)
        if bad:
            raise Violation("retry-noop", f"{what}: repeating it reports success, but: {bad}")
        at = v if k in ("create", "sync") else None if k == "drop" else at
        model = at
        ctx.counts[f"retry-{k}"] += 1
    await cm.close()
    ctx.nontrivial = failures > 0


def execute(ctx: Ctx, plan: dict) -> None:
    common.setup_world(ctx, plan)
    if plan["_mode"] == "data":
        ctx.batch_size(max(plan["batch"], 1))
        ctx.sim.run(data_mode(ctx, plan))
    else:
        ctx.sim.run(ddl_mode(ctx, plan))
    ctx.counts[f"dialect-{plan['_dialect']}"] += 1
    ctx.check_hygiene()
