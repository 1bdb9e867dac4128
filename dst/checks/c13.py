"""
C13: query results are complete and faithful, or the query fails.

Workload: one to three clients at once, each with its own table of values of many kinds in a database of any dialect, run queries over 0 to several
hundred rows into scalars, tuples of any width and data-classes with any fields, whose columns come in any order and under any name, and
requests whose shape does not match the result; several pages are transferred one by one. Requests and transfers fail, stall, are lost or cancelled
at arbitrary round trips, and the next query follows on the same connection if that is still usable.
Oracle: the rows the table holds, known to the check independently of the query evaluator. A value comes back only if it is the full list in order, each
item of the requested type with each value in the position or field of its column's name; a request that does not match must raise; a request that
matches must succeed when no fault took place, and fail with the error of the driver when one did.
"""

import asyncio
import dataclasses
import datetime
import decimal
import random
import typing
import uuid

from .. import common, server
from ..env import Ctx, Violation, root_cause

QUICK = 4000
THOROUGH = 80000
RULE = "at least one query returned several rows, was rejected for its shape, or was hit by a fault"
REAL = common.REAL
STUB = common.STUB
ASSUMPTIONS = common.ASSUMPTIONS + [
    "a result without rows may be accepted whatever its shape",
    "query_one on a result of several rows may raise or give the first row",
    "a data-class field with a default may be missing from the result",
    "data-class results are not offered for Trino: raising is accepted",
    "names of result columns differ from field names by letter case only: raising is accepted, except for unquoted names in Oracle",
]

DIALECTS = ["postgresql", "mysql", "mssql", "oracle", "redshift", "trino"]
KINDS = ["int", "str", "float", "bool", "decimal", "datetime", "date", "bytes", "uuid", "null"]
NAMES = ["name", "value", "createdAt", "Total", "a", "b", "index", "count", "items", "keys", "select", "x1", "_hidden", "description"]
PY = {"int": int, "str": str, "float": float, "bool": bool, "decimal": decimal.Decimal, "datetime": datetime.datetime, "date": datetime.date, "bytes": bytes, "uuid": uuid.UUID, "null": typing.Optional[int]}
WORDS = ["", "x", "it's", 'say "hi"', "naïve", "日本", "a\tb", "line\nbreak", "%s %d", "NULL", "0", " "]


def generate(rng: random.Random, tier: str) -> dict:
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        d = rng.choice(DIALECTS)
        names = rng.sample([n for n in NAMES if not (d == "oracle" and n == "_hidden")], rng.randrange(1, 7))
        cols = [[n, rng.choice(KINDS), rng.random() < 0.25] for n in names]
        queries = []
        for _ in range(rng.randrange(1, 7)):
            sel = [c for c in range(len(cols))]
            rng.shuffle(sel)
            sel = sel[: rng.choice([1, 1, 2, 3, 6])]
            q = {
                "sig": rng.choice(["scalar", "tuple", "tuple", "class", "class", "class"]),
                "sel": sel,
                "quoted": rng.random() < 0.6,
                "n": rng.choice([0, 1, 1, 2, 3, 7, 60, 150, 450] if rng.random() < 0.9 else [1000]),
                "one": rng.random() < 0.15,
                "shape": rng.choice(["ok"] * 6 + ["missing", "extra", "twice", "empty", "other", "renamed", "default"]),
                "order": rng.choice(["asc", "desc"]),
                "style": rng.choice(["plain", "plain", "frozen", "slots", "kw", "derived"]),
                "seed": rng.randrange(1 << 20),
                "faults": [],
                "cancel": [],
                "timeout": None,
                "gap": rng.choice([0.0, 0.0, 0.5]),
            }
            if rng.random() < 0.35:
                for _ in range(rng.choice([1, 1, 2])):
                    q["faults"].append({"k": rng.choice([0, 0, 0, 1, 2, 3, 4]), "kind": rng.choice(["error", "error", "lost_before", "lost_after", "stall", "stall", "cancel"]), "sub": 0, "rec": 0, "err": rng.choice(["injected", "deadlock"]), "d": rng.choice([0.3, 5, 40]), "late": rng.random() < 0.5})
            if rng.random() < 0.1:
                q["timeout"] = rng.choice([0.0005, 0.003, 1.0])
            queries.append(q)
        clients.append({"_dialect": d, "cols": cols, "rows": rng.choice([0, 1, 2, 5, 100, 500]), "queries": queries, "same": rng.random() < 0.5})
    if rng.random() < 0.012:
        # a result larger than any batch or page
        c = clients[0]
        c["cols"], c["rows"], c["same"] = [[c["cols"][0][0], "int", False]], rng.choice([10007, 33000, 70003, 70003, 110011]), False
        c["queries"] = [{**c["queries"][0], "sel": [0], "n": c["rows"], "one": False, "shape": "ok", "faults": [], "timeout": None}]
        clients = [c]
    return {"clients": clients, "lat": rng.randrange(4), "seed": rng.randrange(1 << 30)}


def value(rng: random.Random, kind: str, dialect: str, i: int) -> typing.Any:
    if kind == "int":
        return rng.choice([0, 1, -1, i, 2**31, -(2**63), 2**63 - 1])
    if kind == "str":
        w = rng.choice(WORDS) + (str(i) if rng.random() < 0.5 else "")
        return w or ("e" if dialect == "oracle" else w)
    if kind == "float":
        return rng.choice([0.0, -0.5, 1e300, 1e-300, i / 7])
    if kind == "bool":
        b = rng.random() < 0.5
        return int(b) if dialect in ("mysql", "oracle") else b
    if kind == "decimal":
        return decimal.Decimal(rng.choice(["0", "1.10", "-12345678901234567890.123456", str(i)]))
    if kind == "datetime":
        return datetime.datetime(2000 + i % 50, 1 + i % 12, 1 + i % 28, i % 24, 0, 0, rng.choice([0, 1, 999999]))
    if kind == "date":
        return datetime.date(1 + rng.randrange(9999), 1 + i % 12, 1 + i % 28)
    if kind == "bytes":
        return bytes([0, 255, i % 256]) if rng.random() < 0.8 else b"\x00h0"
    if kind == "uuid":
        u = uuid.UUID(int=rng.getrandbits(128))
        return u.bytes if dialect in ("mysql", "oracle") else str(u) if dialect in ("trino",) else u
    return None


def fold(dialect: str, name: str, quoted: bool) -> str:
    "The name the server gives to a result column."
    if dialect == "redshift" or (not quoted and dialect in ("postgresql", "trino")):
        return name.lower()
    if dialect == "oracle" and not quoted:
        return name.upper()
    return name


def quote(dialect: str, name: str) -> str:
    return f"`{name}`" if dialect == "mysql" else f'"{name}"'


RESERVED = {"select", "index", "keys", "count", "value", "items", "description", "name", "total", "_hidden"}


def make_class(fields: list, style: str, defaults: int) -> type:
    "Fields with a default come last."
    spec: list = []
    for k, (n, kind) in enumerate(fields):
        spec.append((n, PY[kind]) if k < len(fields) - defaults else (n, PY[kind], dataclasses.field(default=None)))
    if style == "derived" and len(spec) > 1:
        base = dataclasses.make_dataclass("Base", spec[:1] if not defaults else [])
        return dataclasses.make_dataclass("Row", spec[1:] if not defaults else spec, bases=(base,))
    kw: dict = {"frozen": True} if style == "frozen" else {"slots": True} if style == "slots" else {"kw_only": True} if style == "kw" else {}
    return dataclasses.make_dataclass("Row", spec, **kw)


def same(a: typing.Any, b: typing.Any) -> bool:
    return type(a) is type(b) and a == b


async def client_main(ctx: Ctx, plan: dict, i: int, spec: dict) -> None:
    d = spec["_dialect"]
    sim, w = ctx.sim, ctx.world
    name = f"c{i}"
    rng = random.Random(plan["seed"] + i)
    cols = spec["cols"] or [["a", "int", False]]
    host = "shared" + d if spec["same"] else f"h{i}"
    srv = ctx.server(d, host)
    client = w.client(name)
    loop = asyncio.get_running_loop()
    st: dict = {}

    # the table and its rows
    state = srv.db.state.clone()
    key = (state.default_schema, f"data{i}")
    t = server.Table(key, state.oid())
    for k, c in enumerate(["pk"] + [c[0] for c in cols], 1):
        t.cols[k] = server.Col(k, c, ("text",))
    total = max(int(spec["rows"]), 0)
    table_rows: list = []
    for r in range(total):
        vals = [None if null and rng.random() < 0.3 else value(rng, kind, d, r) for _, kind, null in cols]
        table_rows.append(vals)
        t.rows.append({1: r, **{k + 2: v for k, v in enumerate(vals)}})
    rng.shuffle(t.rows)
    state.tables[key] = t
    srv.db.swap(state)

    def on_cancel() -> None:
        st["cancelled"] = sim.now
        task = st.get("task")
        if task is None:
            return
        if sim.on_loop_thread():
            loop.call_soon(task.cancel)
        else:
            loop.call_soon_threadsafe(task.cancel)

    client.on_cancel = on_cancel
    cm = None
    conn = None
    for k, q in enumerate(spec["queries"]):
        if conn is None:
            cm = ctx.connection(d, user=name, host=host)
            conn = await cm.open()
        qr = random.Random(q["seed"])
        sel = [c % len(cols) for c in q["sel"]] or [0]
        quoted = q["quoted"] or any(cols[c][0].lower() in RESERVED for c in sel)
        shape, sig = q["shape"] or "ok", q["sig"] or "scalar"
        if sig == "scalar" and shape == "ok":
            sel = sel[:1]
        fields = [cols[c] for c in sel]
        # columns of the result as (index of the column in the table, name)
        out = [(c, cols[c][0]) for c in sel]
        if shape == "missing" and len(out) > 1:
            out.pop(qr.randrange(len(out)))
        elif shape == "extra":
            out.insert(qr.randrange(len(out) + 1), (qr.randrange(len(cols)), "surplus"))
        elif shape == "twice":
            out.insert(qr.randrange(len(out) + 1), (qr.randrange(len(cols)), qr.choice(out)[1]))
        elif shape == "renamed":
            p = qr.randrange(len(out))
            out[p] = (out[p][0], "other_name")
        defaults = 0
        if sig == "class":
            # the order of the fields is not that of the columns
            qr.shuffle(fields)
            if shape == "default":
                defaults = 1
                missing = fields[-1][0]
                if len(out) > 1:
                    out = [o for o in out if o[1] != missing]
        n = min(max(int(q["n"]), 0), total)
        want_rows = table_rows[:n]
        if q["order"] == "desc":
            want_rows = want_rows[::-1]
        sql = "SELECT " + ", ".join(f"{quote(d, cols[c][0])} AS {quote(d, nm) if quoted else nm}" for c, nm in out)
        tail = "" if d in ("oracle", "trino") or qr.random() < 0.3 else ";"
        sql += f" FROM {quote(d, key[1])} WHERE {quote(d, 'pk')} < {n} ORDER BY {quote(d, 'pk')}{' DESC' if q['order'] == 'desc' else ''}{tail}"
        vals = [tuple(r[c] for c, _ in out) for r in want_rows]
        # what must come of it: "value", "raise" or "any"
        expect: list = []
        must = "value"
        if sig == "scalar":
            kind = cols[out[0][0]][1]
            signature: typing.Any = PY[kind] if kind in ("int", "str", "float", "bool") else qr.choice([int, str, float, bool])
            if shape == "other":
                signature = qr.choice([datetime.date, list, dict, list[int], typing.Optional[int]])
                must = "raise"
            elif len(out) != 1:
                must = "raise"
            else:
                expect = [v[0] for v in vals]
        elif sig == "tuple":
            width = len(out) if shape in ("ok", "renamed", "default", "other", "twice", "extra") and qr.random() < 0.7 else len(sel)
            kinds = [PY[cols[c][1]] for c, _ in out][:width] + [int] * (width - len(out))
            if shape == "empty":
                kinds = kinds + [str]
            signature = tuple[tuple(kinds)]  # type: ignore
            if len(kinds) != len(out):
                must = "raise"
            expect = vals
        else:
            signature = make_class([(f[0], f[1]) for f in fields], q["style"] or "plain", defaults)
            names = [fold(d, nm, quoted) for _, nm in out]
            fnames = [f[0] for f in fields]
            required = fnames[: len(fnames) - defaults]
            if set(names) <= set(fnames) and set(required) <= set(names) and len(set(names)) == len(names):
                must = "value" if len(names) == len(fnames) else "any"
            elif d == "oracle" and not quoted and sorted(names) == sorted(f.upper() for f in fnames) and len({f.lower() for f in fnames}) == len(fnames):
                must = "value"
            elif sorted(x.lower() for x in names) == sorted(f.lower() for f in fnames) and len({f.lower() for f in fnames}) == len(fnames):
                must = "any"
            elif defaults and sorted(x.lower() for x in names) == sorted(f.lower() for f in required):
                must = "any"
            else:
                must = "raise"
            if must != "raise":
                low = {f.lower(): f for f in fnames}
                for v in vals:
                    got = {(nm if nm in fnames else low[nm.lower()]): x for nm, x in zip(names, v)}
                    expect.append({f: got.get(f) for f in fnames})
            if d == "trino" and must == "value":
                must = "any"
        if not want_rows and must == "raise":
            must = "any"
        if q["one"]:
            if not want_rows:
                must = "raise"
            elif len(want_rows) > 1 and must == "value":
                must = "any"
            expect = expect[:1]

        client.arm([{**f, "kind": f["kind"]} for f in q["faults"] if f.get("kind")])
        st["cancelled"] = None
        n_err = len(w.driver_errors)
        call = conn.query_one(signature, sql) if q["one"] else conn.query_all(signature, sql)

        async def run(aw=call, timeout=q["timeout"]):
            return await (asyncio.wait_for(aw, float(timeout)) if timeout else aw)

        task = st["task"] = loop.create_task(run())
        res, err = None, None
        try:
            res = await task
        except GeneratorExit:
            raise
        except BaseException as e:
            err = e
        st["task"] = None
        client.disarm()
        ctx.check_hygiene()
        fired = [f["kind"] for _, f in client.fired]
        broken = any(x in ("error", "lost_before", "lost_after") for x in fired)
        what = f"{name} ({d}): query #{k} into {signature if sig != 'class' else [f.name + ': ' + str(f.type) for f in dataclasses.fields(signature)]}: {sql}"
        ctx.counts["queries"] += 1
        if len(want_rows) > 1 or must == "raise" or fired:
            ctx.nontrivial = True
        sim.event(f"{name}: {sig} {shape} {must} -> {'error' if err is not None else 'value'}")
        if isinstance(err, (asyncio.CancelledError, asyncio.TimeoutError)):
            if isinstance(err, asyncio.CancelledError) and st["cancelled"] is None:
                raise Violation("spurious-cancel", f"{what}: cancelled out of nowhere")
            ctx.counts["cut"] += 1
        elif err is not None:
            if not isinstance(err, Exception):
                raise err
            if broken:
                ctx.counts["failed"] += 1
                chain: list = []
                x: typing.Optional[BaseException] = err
                while x is not None and x not in chain:
                    chain.append(x)
                    x = x.__cause__ or x.__context__
                if must == "value" and not any(c is e for c in chain for e in w.driver_errors[n_err:]):
                    raise Violation("wrong-error", f"{what}: the error is not the one of the driver: {root_cause(err)}")
            elif must == "value":
                raise Violation("failed", f"{what}: {root_cause(err)}")
            else:
                ctx.counts["rejected"] += 1
        else:
            if must == "raise":
                raise Violation("accepted", f"{what}: a result whose shape does not match was accepted: {str(res)[:200]}")
            items = [res] if q["one"] else res
            if not isinstance(items, list):
                raise Violation("wrong-result", f"{what}: not a list: {res!r}")
            if len(items) != len(expect):
                raise Violation("wrong-result", f"{what}: {len(expect)} rows in the result, {len(items)} items returned")
            for p, (a, b) in enumerate(zip(items, expect)):
                if sig == "scalar":
                    ok = same(a, b)
                elif sig == "tuple":
                    ok = isinstance(a, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
                else:
                    ok = type(a) is signature and all(same(getattr(a, f), x) for f, x in b.items())
                if not ok:
                    raise Violation("wrong-result", f"{what}: item {p}: expected {b!r}, got {a!r}")
            ctx.counts["returned"] += 1
        if not client.conns[-1].is_open:
            await cm.close()
            conn = None
        if q["gap"]:
            await asyncio.sleep(float(q["gap"]))
    if conn is not None:
        await cm.close()


def execute(ctx: Ctx, plan: dict) -> None:
    common.setup_world(ctx, plan)

    async def main() -> None:
        loop = asyncio.get_running_loop()
        tasks = [loop.create_task(client_main(ctx, plan, i, c)) for i, c in enumerate(plan["clients"])]
        for t in tasks:
            await t

    ctx.sim.run(main())


