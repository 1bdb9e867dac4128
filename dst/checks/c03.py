"""
C03: synchronization honours drop permissions and stays in its namespaces.

Workload: a database shared by several tenants: schemas managed by pysqlsync under other names (including names that resemble the
synchronized one), tables of other applications whose names merely look alike, copies of the same tables in another database schema. One namespace
is synchronized through a random schema history under random drop permissions, emptied, dropped as objects or as a schema; statements may be rejected.
Oracle: everything outside the namespace - catalog and rows - is the same at every moment; objects of a kind that may not be dropped stay, with
their rows; removing the namespace's objects leaves none of them.
"""

import random
import typing

from .. import common, schema
from ..env import ClassRef, Ctx, DIALECTS, QueryException, Violation, root_cause
from ..server import State
from .c02 import same

QUICK = 1200
THOROUGH = 36000
RULE = "the synchronized namespace changed or was dropped in a database with neighbours that have rows"
REAL = common.REAL
STUB = common.STUB
ASSUMPTIONS = common.ASSUMPTIONS + [
    "permission to drop a namespace includes everything in it (as documented)",
    "in MySQL and Oracle, where a namespace is a table name prefix, no namespace name is another one followed by two underscores",
]

NOTHING: dict = {"enums": {}, "structs": {}, "tables": []}
PERMS = ["allow_drop_table", "allow_drop_enum", "allow_drop_struct", "allow_drop_namespace"]


def names(rng: random.Random, d: str, ns: str) -> tuple[list, list]:
    "Neighbouring namespaces and names of raw tables."
    if not ns:
        pool = ["ns", "other", "x_", "T"] + (["public2", "dbo2", "guest"] if d in ("postgresql", "mssql") else [])
        raw = [] if d in ("postgresql", "mssql") else rng.sample(["a__T", "__x", "T__", "a__b__T", "Person__", "_x__y"], rng.choice([1, 2, 4]))
        return rng.sample(pool, rng.choice([1, 1, 2])), raw
    if d in ("postgresql", "mssql"):
        pool = [ns + "2", ns + "_", "x" + ns, ns.replace("_", "x") + "y", ns.replace("_", "x") if "_" in ns else ns + "y", ns[:-1], "other", "public" if d == "postgresql" else "dbo"] + ([ns.swapcase(), ns + "%"] if d == "postgresql" else [])
        return rng.sample(list(dict.fromkeys(pool)), rng.choice([1, 1, 2, 3])), []
    # names that match a pattern in which an underscore stands for any character
    like = ns.replace("_", "x") if "_" in ns else ns + "y"
    pool = [ns + "2", "x" + ns, ns.replace("_", "x") + "y", like, ns[:-1], "other", ns + "_x"]
    raw = [f"{ns}_T", f"{ns}xxT", f"{ns}_xT", f"{ns}x_T", f"{ns}T", ns, f"x{ns}__T", f"{ns}_", f"{ns}", f"__{ns}", f"x__{ns}__T", f"{ns.replace('_', 'x')}z__T", f"{like}__T", f"{like}__Person", f"{like}_xPerson", f"{ns}%T", f"{ns}~__T", f"{ns}\\__T", "T", "other", "a_b"]
    return rng.sample(list(dict.fromkeys(pool)), rng.choice([0, 1, 1, 2])), rng.sample(sorted(set(raw)), rng.choice([1, 2, 4]))


def generate(rng: random.Random, tier: str) -> dict:
    d = rng.choice(DIALECTS)
    opts = common.gen_options(rng, d)
    migrate = d in ("postgresql", "mysql") and rng.random() < 0.2
    if migrate:
        opts["enum_mode"] = {"postgresql": "TYPE", "mysql": "INLINE"}[d]
        opts.pop("foreign_constraints", None)
    g = schema.Gen(rng, d, max_tables=rng.choice([2, 3, 4]), docs=False)
    g.nested = not migrate
    g.rich = rng.choice([0, 0, 0.3])
    if not migrate:
        common.enum_lists(rng, g, opts)
    base = g.spec()
    steps = []
    cur = base
    n = rng.choice([1, 1, 2, 3])
    at = rng.randrange(n)
    for k in range(n):
        if rng.random() < 0.12:
            steps.append({"how": rng.choice(["empty", "drop_objects", "drop_schema"]), "ops": [], "perms": perms(rng), "rows": 1})
            continue
        if (k + len(steps) + len(cur["tables"])) % 4 == 3 and d not in ("redshift",):
            steps.append({"how": rng.choice(["drop_table", "drop_table", "create_schema"]), "ops": [], "perms": {}, "rows": 1, "which": rng.randrange(20), "twice": rng.random() < 0.5})
            continue
        kinds = rng.choice([None, ["drop_table", "drop_enum", "drop_field", "add_table", "drop_struct"]])
        ops = g.ops(cur, rng.choice([1, 2, 3, 5]), safe=True, kinds=kinds)
        f = {"k": rng.randrange(25), "kind": rng.choice(["error", "lost_after", "lost_before"]), "sub": rng.randrange(10), "err": "injected"} if rng.random() < 0.2 else None
        steps.append({"how": "sync", "ops": ops, "perms": perms(rng), "rows": rng.choice([0, 1, 2]), "fault": f, "migrate": migrate and k == at})
        cur = schema.versions(cur, [ops])[-1]
    ns = rng.choice(["ns", "my_app", "Sales", "a_b", ""])
    if not ns:  # the default schema cannot be named for removal
        for s in steps:
            s["how"] = "drop_objects" if s["how"] == "drop_schema" else s["how"]
    near, raw = names(rng, d, ns)
    g2 = schema.Gen(rng, d, max_tables=2, docs=False)
    g2.types, g2.enum_lists, g2.rich = g.types, g.enum_lists, g.rich
    neigh = []
    for x in near:
        neigh.append({"ns": x, "spec": g2.spec() if rng.random() < 0.5 else None})
    plan = {"_dialect": d, "_ns": ns, "opts": opts, "base": base, "steps": steps, "neigh": neigh, "raw": raw, "copy": rng.random() < 0.5, "rows": rng.choice([1, 2]), "_rs": rng.randrange(1 << 30), "final": rng.choice([None, "drop_schema", "drop_schema", "drop_objects"] if ns else [None, "drop_objects"]),
            "lat": rng.randrange(4), "shuffle": rng.random() < 0.3}
    if rng.random() < 0.2:
        schema.gen_home(rng, plan, 1)
        plan["aux"]["ns"] = "second"
    return plan


def altered(st0: State, t0, st1: State, t1) -> bool:
    "Whether a retained table has other rows than before; composite values may have got or lost members."

    def plain(st, t) -> list:
        types = {c.name: c.type for c in t.live()}
        out = []
        for r in t.named_rows():
            rec = {}
            for n, v in r.items():
                ty = types[n]
                rec[n] = schema.logical(st, ty, v) if "udt" in repr(ty) else v
            out.append(rec)
        return out

    a, b = plain(st0, t0), plain(st1, t1)
    return len(a) != len(b) or any(set(x) != set(y) or any(x[n] != y[n] and not (type(x[n]) in (dict, list) and same(x[n], y[n])) for n in x) for x, y in zip(a, b))


def perms(rng: random.Random) -> dict:
    if rng.random() < 0.3:
        return {}
    return {p: rng.random() < 0.4 for p in PERMS if rng.random() < 0.8}


def transplant(st: State, own: typing.Callable[[tuple], bool], target: str) -> None:
    "Copies tables to another database schema, which may have tables of the same names."
    st.schemas[target] = st.oid()
    for key in [k for k in st.tables if own(k)]:
        t = st.tables[key].clone()
        t.key = (target, key[1])
        t.oid = st.oid()
        t.cons = {n: c for n, c in t.cons.items() if c.kind != "f"}
        for c in t.cols.values():
            if c.type[0] == "udt" or (c.type[0] == "array" and c.type[1][0] == "udt"):
                c.type = ("text",)
                c.default = c.default_text = None
        st.tables[t.key] = t


def execute(ctx: Ctx, plan: dict) -> None:
    common.setup_world(ctx, plan)
    d = plan["_dialect"]
    if not plan["base"]["tables"]:
        return
    vs = [plan["base"]]
    for step in plan["steps"]:
        if step["how"] == "sync":
            vs.append(schema.versions(vs[-1], [step["ops"]])[-1])
    ns = schema.home(plan, vs)
    opts = dict(plan["opts"])
    srv = ctx.server(d)
    rng = random.Random(plan["_rs"])
    own = common.own_key(d, ns)

    def foreign(k: tuple) -> bool:
        return not own(k)

    def outside() -> tuple:
        st = srv.db.state
        return schema.observe(srv.db, only=foreign), {k: [dict(r) for r in t.named_rows()] for k, t in st.tables.items() if not own(k)}

    async def main() -> None:
        ms, spaces = schema.modules(ctx, plan["base"], ns)
        async with ctx.connection(d, common.options(opts, spaces), user="c0") as conn:
            await ctx.explorer(d, conn).synchronize(modules=ms)
        for i, x in enumerate(plan["neigh"]):
            spec = x["spec"] or plan["base"]
            if not spec["tables"]:
                continue
            m2 = ctx.module(f"neigh{i}", schema.source(spec))
            before = outside()
            async with ctx.connection(d, common.options({**opts, "enum_mode": plan["opts"].get("enum_mode")}, {m2: x["ns"]}), user=f"n{i}") as conn:
                if srv.db.state.schemas.get(x["ns"]) and d in ("postgresql", "mssql"):
                    srv.db.state.schemas.pop(x["ns"])
                    srv.db.swap(srv.db.state.clone())
                await conn.create_objects(common.entity_types([m2]))
        s = srv.db.session()
        from ..sqlparse import parse_script

        for name in plan["raw"]:
            if any(k[1] == name for k in srv.db.state.tables):
                continue
            for st, _ in parse_script(f'CREATE TABLE "{name}" ("id" integer NOT NULL, "v" integer, CONSTRAINT "pk_{name}" PRIMARY KEY ("id"));', d):
                s.execute(st)
            s.commit()
        s.close()
        ctr = [0]
        schema.populate(srv.db, rng, max(plan["rows"], 1), counter=ctr)
        if plan["copy"]:
            st = srv.db.state.clone()
            transplant(st, own, "elsewhere")
            srv.db.swap(st)
        watch = outside()

        def check(what: str) -> None:
            now = outside()
            df = schema.diff(watch[0], now[0])
            if df:
                raise Violation("neighbour-altered", f"{what} of namespace {ns!r} altered: " + "; ".join(df[:3]))
            if now[1] != watch[1]:
                bad = [k for k in watch[1] if watch[1][k] != now[1].get(k)]
                raise Violation("neighbour-rows", f"{what} of namespace {ns!r} altered rows of {bad[:3]}")

        async def drop(conn: typing.Any) -> None:
            # the namespace that refers to the other one goes first
            await conn.drop_schema(schema_id(str(ns)))
            if ns.aux is not None:
                await conn.drop_schema(schema_id(ns.aux))

        async def one_table(conn: typing.Any, step: dict, st: State, ms: list) -> typing.Optional[tuple]:
            "Removes one table to which no other table refers."
            referred = {c.ref for key, t in st.tables.items() for c in t.cons.values() if c.kind == "f" and c.ref != key}
            classes = {schema.table_key(d, ns, c.__name__, srv.db.database): c for c in common.entity_types(ms)}
            found = sorted(key for key in classes if key not in referred)
            if not found:
                return None
            victim = found[step["which"] % len(found)]
            for _ in range(2 if step["twice"] else 1):
                await conn.drop_table_if_exists(conn.get_table_id(ClassRef(classes[victim])))
            if victim in srv.db.state.tables:
                raise Violation("not-removed", f"drop_table_if_exists left {victim}")
            ctx.counts["drop-table"] += 1
            return victim

        last = [srv.db.state]

        def watcher(*_a: typing.Any) -> None:
            if srv.db.state is not last[0]:
                last[0] = srv.db.state
                check("a statement in the course of a synchronization or removal")

        ctx.world.on_roundtrip = watcher
        cur = plan["base"]
        changed = False
        exists = True
        strict = True
        for k, step in enumerate(plan["steps"], 1):
            p = step["perms"]
            strict = strict and all(p.get(x, True) for x in PERMS)  # what had to be retained can get in the way
            st0 = srv.db.state
            cat0 = schema.observe(srv.db, only=own)
            if step["how"] == "sync":
                nxt = schema.versions(cur, [step["ops"]])[-1]
                if not nxt["tables"]:
                    return
                if step.get("migrate"):
                    opts["enum_mode"] = "RELATION"
                ms, spaces = schema.modules(ctx, nxt, ns)
                kept_names = {schema.table_key(d, ns, t["name"], srv.db.database) for t in nxt["tables"]}
            else:
                nxt = cur
                ms, spaces = schema.modules(ctx, NOTHING if step["how"] == "empty" else cur, ns)
                kept_names = set()
            o = common.options({**opts, "synchronization": p}, spaces)
            what = f"step {k} ({step['how']} {step['ops']}, permissions {p})"
            raised: typing.Optional[BaseException] = None
            victim: typing.Optional[tuple] = None
            user = f"c{k}"
            async with ctx.connection(d, o, user=user) as conn:
                ex = ctx.explorer(d, conn)
                client = ctx.world.client(user)
                f = step.get("fault")
                try:
                    if step["how"] == "drop_schema":
                        await drop(conn)
                    elif step["how"] == "drop_table":
                        victim = await one_table(conn, step, st0, ms)
                    elif step["how"] == "create_schema":
                        if d in ("postgresql", "mssql") and str(ns):
                            await conn.create_schema(schema_id(str(ns)))
                    elif step["how"] == "drop_objects":
                        await ex.discover(modules=ms)
                        await conn.drop_objects()
                    else:
                        if f:
                            client.arm([f])
                        await ex.synchronize(modules=ms)
                except Exception as e:
                    raised = e
                client.disarm()
                fired = bool(client.fired)
                client.fired = []
                if fired:
                    try:
                        await conn.execute("SELECT 1")
                    except Exception:
                        pass
            check(what)
            st1 = srv.db.state
            cat1 = schema.observe(srv.db, only=own)
            changed = changed or cat1 != cat0
            ctx.counts[f"how-{step['how']}"] += 1
            if raised is not None:
                ctx.counts["refused"] += 1
                if not fired and strict and exists:
                    raise Violation("fails", f"{what} fails: {root_cause(raised)}")
            if step["how"] in ("sync", "empty"):
                if ns.aux is not None and d not in ("mysql", "oracle") and p.get("allow_drop_namespace", True) and any(objects(st0, d, x) and not objects(st1, d, x) for x in (str(ns), ns.aux)):
                    # a whole namespace was given up, which the permission for namespaces decides
                    return finish(ctx, d, changed)
                whole = step["how"] == "empty" and p.get("allow_drop_namespace", True)
                flat = d in ("mysql", "oracle")
                if not p.get("allow_drop_table", True) and not whole:
                    for key, t in st0.tables.items():
                        if not own(key):
                            continue
                        if key not in st1.tables:
                            raise Violation("table-dropped", f"{what} removed table {key}")
                        if key not in kept_names and altered(st0, t, st1, st1.tables[key]) and not is_lookup(t):
                            raise Violation("rows-removed", f"{what} altered rows of the retained table {key}")
                        if is_lookup(t) and not values(t) <= values(st1.tables[key]):
                            raise Violation("rows-removed", f"{what} removed values from the retained lookup table {key}")
                    ctx.counts["tables-protected"] += 1
                for perm, kind in (("allow_drop_enum", "enums"), ("allow_drop_struct", "structs")):
                    if not p.get(perm, True) and not whole:
                        for key in getattr(st0, kind):
                            if own(key) and key not in getattr(st1, kind) and (key[0], "pysqlsync$" + key[1]) not in getattr(st1, kind):
                                raise Violation(f"{kind[:-1]}-dropped", f"{what} removed type {key}")
                if not p.get("allow_drop_namespace", True) and step["how"] == "empty" and not (flat and p.get("allow_drop_table", True)):
                    df = schema.diff(cat0, cat1)
                    if df:
                        raise Violation("namespace-altered", f"{what} altered the namespace: " + "; ".join(df[:3]))
                    for key, t in st0.tables.items():
                        if own(key) and st1.tables[key].named_rows() != t.named_rows():
                            raise Violation("rows-removed", f"{what} altered rows of {key}")
                if raised is not None or step["how"] == "empty":
                    # the history goes on from what is there
                    if raised is None and p.get("allow_drop_namespace", True) and (not flat or p.get("allow_drop_table", True)):
                        gone(cat1, what, d)
                        exists = False
                    else:
                        return finish(ctx, d, changed)
            elif raised is None:
                if step["how"] == "drop_schema":
                    gone(cat1, what, d)
                    exists = False
            if step["how"] in ("drop_table", "create_schema") and raised is None:
                left0 = {**cat0, "tables": {key: v for key, v in cat0["tables"].items() if victim is None or key != f"{victim[0]}.{victim[1]}"}}
                if step["how"] == "create_schema":
                    left0["schemas"] = sorted({*left0["schemas"], *cat1["schemas"]})
                df = schema.diff(left0, cat1) if exists else None
                if df:
                    raise Violation("others-altered", f"{what} (of {victim}) altered other objects of its namespace: " + "; ".join(df[:3]))
                for key, t in st0.tables.items():
                    if own(key) and key != victim and st1.tables[key].named_rows() != t.named_rows():
                        raise Violation("rows-removed", f"{what} (of {victim}) altered rows of {key}")
            if step["how"] == "drop_objects" and raised is None and all(p.get(x, True) for x in PERMS):
                left = [x for x in list(cat1["tables"]) + list(cat1["enums"]) + list(cat1["structs"])]
                if left:
                    raise Violation("not-removed", f"{what} left {left[:3]}")
                exists = False
            if step["how"] == "sync":
                cur = nxt
                exists = True
            schema.populate(srv.db, rng, step["rows"], only=own, counter=ctr)
            last[0] = srv.db.state
        if plan["final"] and exists:
            ms, spaces = schema.modules(ctx, cur, ns)
            async with ctx.connection(d, common.options(opts, spaces), user="end") as conn:
                try:
                    if plan["final"] == "drop_schema":
                        await drop(conn)
                    else:
                        await ctx.explorer(d, conn).discover(modules=ms)
                        await conn.drop_objects()
                except Exception as e:
                    check(plan["final"])
                    raise Violation("fails", f"{plan['final']} fails: {root_cause(e)}")
            check(plan["final"])
            cat1 = schema.observe(srv.db, only=own)
            if plan["final"] == "drop_schema":
                gone(cat1, "drop_schema", d)
            elif cat1["tables"] or cat1["enums"] or cat1["structs"]:
                raise Violation("not-removed", f"drop_objects left {[x for x in list(cat1['tables']) + list(cat1['enums']) + list(cat1['structs'])][:3]}")
            changed = True
            ctx.counts[plan["final"]] += 1
        finish(ctx, d, changed)

    def finish(ctx: Ctx, d: str, changed: bool) -> None:
        ctx.counts[f"dialect-{d}"] += 1
        ctx.nontrivial = changed and any(not own(k) and t.rows for k, t in srv.db.state.tables.items())

    ctx.sim.run(main())
    ctx.check_hygiene()


def objects(st: State, d: str, ns: str) -> list:
    own = common.own_key(d, ns)
    return [k for kind in (st.tables, st.enums, st.structs) for k in kind if own(k)]


def schema_id(ns: str) -> typing.Any:
    from pysqlsync.model.id_types import LocalId

    return LocalId(ns)


def is_lookup(t: typing.Any) -> bool:
    return {c.name for c in t.live()} == {"id", "value"}


def values(t: typing.Any) -> set:
    return {repr(r) for r in t.named_rows()}


def gone(cat: dict, what: str, d: str) -> None:
    left = list(cat["tables"]) + list(cat["enums"]) + list(cat["structs"]) + ([x for x in cat["schemas"] if x not in ("public", "dbo")] if d in ("postgresql", "mssql") else [])
    if left:
        raise Violation("not-removed", f"{what} left {left[:3]}")
