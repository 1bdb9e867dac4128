"""
C05: row and object writes behave as a keyed map.

Workload: a random schema (often one that evolved, so that the column order in the database differs from the field order in the
class) and a random sequence of inserts, upserts and deletes of data-class objects and of records - from lists, iterators, generators and
asynchronous generators, in tiny batches, with all fields or a subset, in any order, with omitted positions - on connections whose
model comes from synchronization, discovery or direct creation.
Oracle: a map from primary key to logical record per table, compared with the committed content of the simulated database after
every operation.
"""

import random
import types
import typing

from .. import common, rows, schema
from pysqlsync.model.key_types import DEFAULT
from ..env import Ctx, DIALECTS, Violation, root_cause

QUICK = 2400
THOROUGH = 60000
RULE = "at least three write operations had an effect on the database"
REAL = common.REAL
STUB = common.STUB
ASSUMPTIONS = common.ASSUMPTIONS + ["upserts never carry a unique value that belongs to another row (dialects differ in what that means)"]

OPS = ["insert_data", "insert_data", "upsert_data", "upsert_data", "delete_data", "insert_rows", "insert_rows", "upsert_rows", "upsert_rows", "upsert_rows", "delete_rows",
       "reconnect", "evolve"]


def generate(rng: random.Random, tier: str) -> dict:
    d = rng.choice(DIALECTS)
    opts = common.gen_options(rng, d)
    opts.pop("foreign_constraints", None)
    g = schema.Gen(rng, d, max_tables=rng.choice([1, 1, 2, 3]), docs=False, types=rows.types(d), composite=False)
    base = g.spec()
    base["structs"] = {}
    if rng.random() < 0.06:
        coded(rng, base)
    if rng.random() < 0.2:
        alternatives(rng, base)
    if rng.random() < 0.2 and (d != "postgresql" or opts.get("struct_mode") == "JSON" and opts.get("array_mode") == "JSON"):
        # structures as JSON
        base["structs"]["Place"] = {"doc": None, "members": [{"n": n, "t": ty} for n, ty in rng.sample([("city", "str"), ("zip", "i32"), ("geo", "f64"), ("open", "bool"), ("tags", "ls")], rng.randrange(1, 5))]}
        for n, ty in (("place", "struct:Place"), ("places", "seq:list:struct:Place")):
            t = rng.choice(base["tables"])
            if rng.random() < 0.7 and n not in {f["n"] for f in t["fields"]}:
                t["fields"].insert(rng.randrange(len(t["fields"]) + 1), {"opt": rng.random() < 0.4, "def": None, "uniq": False, "doc": None, "n": n, "t": ty})
    if base["enums"] and rng.random() < 0.25 and not (d == "postgresql" and opts.get("enum_mode") == "RELATION" and opts.get("array_mode") != "JSON"):
        t = rng.choice(base["tables"])
        if "tags" not in {f["n"] for f in t["fields"]}:
            t["fields"].append({"opt": rng.random() < 0.4, "def": None, "uniq": False, "doc": None, "n": "tags", "t": f"seq:{rng.choice(['list', 'set'])}:enum:{rng.choice(sorted(base['enums']))}"})
    cur = base
    plan_ops = []
    for _ in range(rng.randrange(2, 9 if tier == "quick" else 16)):
        k = rng.choice(OPS)
        op: dict = {"op": k, "seed": rng.randrange(1 << 30), "t": rng.randrange(6), "n": rng.choice([1, 1, 2, 3, 5, 8]), "src": rng.choice(rows.SOURCES),
                    "order": rng.choice([0, 0, 1, 2, 2]), "skip": rng.choice([0, 0, 0, 1, 2, 3]), "fresh": rng.random()}
        if k == "evolve":
            ops = g.ops(cur, rng.choice([1, 2, 3]), safe=True, kinds=["add_field", "drop_field", "reorder", "add_value", "widen", "rename_field"])
            op["ops"] = ops
            cur = schema.versions(cur, [ops])[-1]
        plan_ops.append(op)
    if rng.random() < 0.006:
        # many records in one call
        n = rng.choice([260, 1030, 2200])
        more = {"seed": rng.randrange(1 << 30), "t": rng.randrange(6), "n": n, "src": rng.choice(rows.SOURCES), "order": 0, "skip": 0, "fresh": 0.5}
        plan_ops = [{"op": k, **more} for k in (rng.choice(["insert_rows", "upsert_rows", "insert_data", "upsert_data"]), rng.choice(["upsert_rows", "upsert_data"]), rng.choice(["delete_rows", "delete_data"]))]
        return {"_dialect": d, "_ns": "ns", "opts": opts, "base": base, "ops": plan_ops, "batch": rng.choice([100, 999, 100000]), "model": "sync", "lat": 1, "shuffle": False}
    plan = {"_dialect": d, "_ns": "ns", "opts": opts, "base": base, "ops": plan_ops, "batch": rng.choice([1, 2, 3, 5, 100]), "model": rng.choice(["sync", "sync", "again", "discover", "create"]),
            "lat": rng.randrange(4), "shuffle": rng.random() < 0.3}
    return schema.gen_home(rng, plan, 0.15)


def coded(rng: random.Random, base: dict) -> None:
    "Adds a table of a key and a unique name, to which other tables refer. It looks like the lookup table of an enumeration."
    names = [n for n in schema.TABLE_NAMES if n not in {t["name"] for t in base["tables"]}]
    if not names:
        return
    name = rng.choice(names)
    field = {"opt": False, "def": None, "uniq": True, "doc": None, "n": rng.choice(["value", "label"]), "t": rng.choice(["s20", "s80"])}
    for t in base["tables"]:
        if "origin" not in {f["n"] for f in t["fields"]} | {t["pk"]["n"]}:
            t["fields"].insert(rng.randrange(len(t["fields"]) + 1), {"opt": rng.random() < 0.4, "def": None, "uniq": False, "doc": None, "n": "origin", "t": "ref:" + name})
    pk = rng.choice(["s20", "s20", "s20", "int"])
    base["tables"].insert(0, {"name": name, "doc": None, "pk": {"n": "id", "t": pk, "identity": pk == "int" and rng.random() < 0.5}, "fields": [field]})


def alternatives(rng: random.Random, base: dict) -> None:
    "Adds a field that refers to either of two tables."
    for t in base["tables"]:
        ts = [x for x in base["tables"] if not schema.reaches(base, x["name"], t["name"])]
        pairs = [(a["name"], b["name"]) for a in ts for b in ts if a["name"] < b["name"] and a["pk"]["t"] == b["pk"]["t"] and a["pk"]["identity"] == b["pk"]["identity"]]
        if pairs and "either" not in {f["n"] for f in t["fields"]}:
            t["fields"].insert(rng.randrange(len(t["fields"]) + 1), {"opt": rng.random() < 0.4, "def": None, "uniq": False, "doc": None, "n": "either", "t": "union:" + "|".join(rng.choice(pairs))})


def object_fields_ok(d: str, opts: dict, m: rows.Model, t: dict) -> bool:
    "Whether objects of the class can be written directly (fields whose representation needs a server look-up cannot)."
    relation = opts.get("enum_mode", {"postgresql": "TYPE", "mysql": "INLINE"}.get(d, "RELATION")) == "RELATION"
    for f in t["fields"]:
        if f["t"].startswith("enum:") and relation:
            return False
        if f["t"].startswith(("ref:", "union:")) and m.base_type(f["t"]) == "uuid" and d != "postgresql":
            return False
    return True


def make_object(cls, mod, spec: dict, t: dict, key, rec: dict):
    kw = {t["pk"]["n"]: key}
    for f in t["fields"]:
        v = rec[f["n"]]
        if f["t"].startswith("enum:") and v is not None:
            v = getattr(mod, f["t"][5:])(v)
        if ":struct:" in ":" + f["t"] and v is not None:
            x = getattr(mod, f["t"].split(":")[-1])
            v = x(**v) if isinstance(v, dict) else [x(**y) for y in v]
        elif f["t"].startswith("seq:") and v is not None:
            v = type(v)(getattr(mod, f["t"].split(":")[3])(x) for x in v)
        kw[f["n"]] = v
    return cls(**kw)


async def run_op(ctx: Ctx, conn, mod, m: rows.Model, op: dict, plan: dict, counts) -> None:
    rng = random.Random(op["seed"])
    d = plan["_dialect"]
    spec = m.spec
    t = spec["tables"][op["t"] % len(spec["tables"])]
    name = t["name"]
    cls = getattr(mod, name)
    k = op["op"]
    table = conn.get_table(cls)
    fields = t["fields"]
    kind, _, form = k.partition("_")
    if kind == "delete":
        used = m.referenced(name)
        keys = sorted((x for x in m.rows[name] if x not in used), key=rows.sort_key)
        pick = rng.sample(keys, min(op["n"], len(keys)))
        if rng.random() < 0.3 and pick:
            pick.append(m.new_key(rng, t))  # deleting what is not there has no effect
        if rng.random() < 0.15 and pick:
            pick.insert(rng.randrange(len(pick) + 1), rng.choice(pick))
        if form == "data":
            await conn.delete_data(cls, rows.source_of(op["src"] if op["src"] != "async" else "gen", pick, rng))
        else:
            await conn.delete_rows(table, rows.PYTYPE[t["pk"]["t"]], rows.source_of(op["src"] if op["src"] != "async" else "gen", pick, rng))
        for x in pick:
            m.delete(name, x)
        counts[0] += bool(pick)
        return
    if not m.possible(t):
        return
    if form == "data" and not object_fields_ok(d, plan["opts"], m, t):
        return
    if form == "data" and kind == "insert" and t["pk"]["identity"] and not fields:
        return  # a record without any column
    # which fields are supplied
    supplied = list(fields)
    if form == "rows" and op["order"]:
        if op["order"] == 2:
            supplied = [f for f in fields if not (f["opt"] or f["def"] is not None) or rng.random() < 0.6]
        rng.shuffle(supplied)
    recs: list[tuple] = []
    identity = t["pk"]["identity"]
    # PostgreSQL accepts keys for identity columns in bulk copies (beyond what the server has assigned)
    given = identity and d == "postgresql" and k == "insert_rows" and rng.random() < 0.3
    taken: set = set()
    stored = sorted(m.rows[name], key=rows.sort_key)
    for _ in range(op["n"]):
        exist = [x for x in stored if x not in taken] if kind != "insert" else []
        if kind == "insert":
            key = 20_000 + m.new_key(rng, t) if given else None if identity else m.new_key(rng, t)
        elif identity:
            # PostgreSQL and MySQL accept keys for identity columns, zero among them
            if d in ("postgresql", "mysql") and rng.random() < 0.25:
                key = 0 if rng.random() < 0.4 and 0 not in taken else 20_000 + m.new_key(rng, t)
            elif not exist:
                return
            else:
                key = rng.choice(exist)
        else:
            key = rng.choice(exist) if exist and rng.random() < 0.6 else m.new_key(rng, t)
        if kind == "upsert" and recs and rng.random() < 0.08:
            key = rng.choice(recs)[0]  # the last record of a key prevails
        rec = {f["n"]: m.field_value(rng, t, f) for f in supplied}
        if key in m.rows[name] and rng.random() < 0.3:
            for f in supplied:
                if f["uniq"]:
                    rec[f["n"]] = m.rows[name][key][f["n"]]
        taken.add(key)
        recs.append((key, rec))
    if form == "data":
        objs = [make_object(cls, mod, spec, t, DEFAULT if key is None else key, rec) for key, rec in recs]
        src = rows.source_of(op["src"] if op["src"] != "async" else "gen", objs, rng)
        await (conn.insert_data if kind == "insert" else conn.upsert_data)(cls, src)
    else:
        cols: list[tuple[str, typing.Any]] = [(f["n"], f) for f in supplied]
        with_key = given or not (identity and kind == "insert")
        if with_key:
            cols.insert(rng.randrange(len(cols) + 1) if op["order"] else 0, (t["pk"]["n"], None))
        if not cols:
            return
        named = True
        if not op["order"]:
            by = dict(cols)
            if set(by) == set(table.columns.keys()):
                cols = [(n, by[n]) for n in table.columns.keys()]
                named = op["fresh"] < 0.4
        # positions of the record that are to be left out
        slots: list = [(n, f) for n, f in cols]
        if op["skip"]:
            for _ in range(rng.randrange(1, 3)):
                slots.insert(rng.randrange(len(slots) + 1), None)
            named = True
        names, types_, data = [], [], []
        unused = [f["n"] for f in fields if f["n"] not in [c[0] for c in cols]]
        for s in slots:
            if s is None:
                # an omitted position: an empty label, or a null type (with any label)
                how = op["skip"]
                if how == 1:
                    names.append("")
                    types_.append(rng.choice([int, str, types.NoneType]))
                elif how == 2 and unused:
                    names.append(unused.pop())
                    types_.append(types.NoneType)
                else:
                    names.append("")
                    types_.append(types.NoneType)
            else:
                n, f = s
                names.append(n)
                types_.append(rows.PYTYPE[t["pk"]["t"]] if f is None else rows.field_type(m.base_type(f["t"]), f["t"], rng, mod, True))
        for key, rec in recs:
            out = []
            for s in slots:
                if s is None:
                    out.append(rng.choice([None, 1, "omitted"]))
                else:
                    out.append(key if s[1] is None else rec[s[0]])
            data.append(tuple(out))
        if op["skip"] == 3 and not named:
            named = True
        fn = conn.insert_rows if kind == "insert" else conn.upsert_rows
        if op["src"].startswith("async"):
            ctx.counts["async-sources"] += 1
        await fn(table, rows.source_of(op["src"], data, rng), field_types=tuple(types_), field_names=tuple(names) if named else None)
    if identity and kind == "insert" and not given:
        bad = m.adopt(name, [r for _, r in recs])
        if bad:
            raise Violation("wrong-content", f"{k}: {bad}")
    else:
        for key, rec in recs:
            (m.insert if kind == "insert" else m.upsert)(name, key, rec)
    counts[0] += 1


def execute(ctx: Ctx, plan: dict) -> None:
    common.setup_world(ctx, plan)
    ctx.batch_size(plan["batch"] or 1)
    d = plan["_dialect"]
    steps = [op.get("ops", []) for op in plan["ops"] if op["op"] == "evolve"]
    vs = schema.versions(plan["base"], steps)
    if any(not v["tables"] for v in vs):
        return
    ns = schema.home(plan, vs)
    srv = ctx.server(d)
    counts = [0]

    async def main() -> None:
        spec = vs[0]
        ms, spaces = schema.modules(ctx, spec, ns)
        mod = types.SimpleNamespace(**{k: v for x in reversed(ms) for k, v in vars(x).items()})
        m = rows.Model(spec, d, ns, srv.db)
        no = [0]

        def connect():
            no[0] += 1
            return ctx.connection(d, common.options(plan["opts"], spaces), user=f"c{no[0]}")

        async def attach(conn, first: bool) -> None:
            how = plan["model"]
            ex = ctx.explorer(d, conn)
            if how == "create" and first:
                await conn.create_objects(common.entity_types(ms))
            elif how == "discover" and not first:
                await ex.discover(modules=ms)
            else:
                await ex.synchronize(modules=ms)
                if how == "again":
                    await ex.synchronize(modules=ms)

        cm = connect()
        conn = await cm.open()
        await attach(conn, True)
        if plan["model"] in ("again", "discover"):
            await cm.close()
            cm = connect()
            conn = await cm.open()
            await attach(conn, False)
        version = 0
        for i, op in enumerate(plan["ops"]):
            if op["op"] in ("reconnect", "evolve"):
                await cm.close()
                cm = connect()
                if op["op"] == "evolve":
                    version += 1
                    ms, spaces = schema.modules(ctx, vs[version], ns)
                    mod = types.SimpleNamespace(**{k: v for x in reversed(ms) for k, v in vars(x).items()})
                    old = m
                    m = rows.Model(vs[version], d, ns, srv.db)
                    m.serial = old.serial
                    conn = await cm.open()
                    await ctx.explorer(d, conn).synchronize(modules=ms)
                    for t in m.spec["tables"]:
                        m.rows[t["name"]] = dict(m.stored(t["name"]))
                    if op["fresh"] < 0.6:
                        await cm.close()
                        cm = connect()
                        conn = await cm.open()
                        await attach(conn, False)
                else:
                    conn = await cm.open()
                    await attach(conn, False)
                continue
            try:
                await run_op(ctx, conn, mod, m, op, plan, counts)
            except Violation:
                raise
            except Exception as e:
                raise Violation(f"{op['op']}-fails", f"operation {i} {op['op']} fails: {root_cause(e)}")
            ctx.counts[op["op"]] += 1
            for t in m.spec["tables"]:
                bad = m.difference(t["name"])
                if bad:
                    raise Violation("wrong-content", f"after operation {i} ({op['op']} on {m.spec['tables'][op['t'] % len(m.spec['tables'])]['name']}): {bad}")
        await cm.close()
        ctx.counts[f"dialect-{d}"] += 1
        ctx.nontrivial = counts[0] >= 3

    ctx.sim.run(main())
    ctx.check_hygiene()
