"""
C02: synchronization keeps the data of everything that is kept.

Workload: a random schema version is synchronized and filled with rows directly in the simulated database; then a random
sequence of evolution steps (including enumerations that change from an in-place value to a reference into a lookup table)
is synchronized, with more rows added in between.
Oracle: a map from (table, key) to the values of the columns that both versions have, compared before and after every
synchronization; enumeration values are compared by label, whatever their representation.
"""

import decimal
import random
import re
import typing

from .. import common, schema
from ..env import Ctx, DIALECTS, Violation, root_cause

from pysqlsync.formation.object_types import FormationError  # noqa: E402 (env chooses the code under test)

QUICK = 1300
THOROUGH = 40000
RULE = "at least one synchronization changed the catalog of a database with rows in retained tables"
REAL = common.REAL
STUB = common.STUB
ASSUMPTIONS = common.ASSUMPTIONS


def generate(rng: random.Random, tier: str) -> dict:
    d = rng.choice(DIALECTS)
    opts = common.gen_options(rng, d)
    migrate = False
    if d in ("postgresql", "mysql") and rng.random() < 0.35:
        migrate = True
        opts["enum_mode"] = {"postgresql": "TYPE", "mysql": "INLINE"}[d]
        opts.pop("foreign_constraints", None)
    if d in ("postgresql", "oracle") and not migrate and rng.random() < 0.12:
        opts["auto_default"] = True
    g = schema.Gen(rng, d, max_tables=rng.choice([1, 2, 4]), docs=rng.random() < 0.5)
    g.nested = not migrate
    g.alter = g.fill = True
    g.refusable = rng.random() < 0.2
    g.rich = rng.choice([0, 0, 0.2, 0.5])
    text = d in ("postgresql", "mysql") and not migrate and rng.random() < 0.4
    if text:  # columns of text become references to lookup tables
        opts["enum_mode"] = "RELATION"
        opts.pop("foreign_constraints", None)
        g.refusable = True
    if not migrate:
        common.enum_lists(rng, g, opts)
    base = g.spec()
    steps = []
    cur = base
    n = rng.choice([1, 1, 2, 3] if tier == "quick" else [1, 2, 3, 4, 5])
    at = rng.randrange(n)
    for k in range(n):
        ops = g.ops(cur, rng.choice([1, 1, 2, 3, 5]), safe=True) if not (migrate and rng.random() < 0.4) else []
        if text and rng.random() < 0.7:
            ops = g.ops(cur, rng.choice([1, 1, 2]), safe=True, kinds=["retype"]) or ops
        steps.append({"ops": ops, "rows": rng.choice([0, 1, 2, 4]), "fresh": rng.random() < 0.7, "migrate": bool(migrate and k == at)})
        cur = schema.versions(cur, [ops])[-1]
    if migrate and at == 0 and d == "postgresql" and rng.random() < 0.3:
        opts["enum_mode"] = "CHECK"  # values of a column of text become references to a lookup table
    return schema.gen_home(rng, {"_dialect": d, "_ns": rng.choice(["ns", "Sales", "ns", "Sales", "ns", ""]), "opts": opts, "base": base, "steps": steps, "rows": rng.choice([1, 2, 3, 5]), "_rs": rng.randrange(1 << 30),
            "lat": rng.randrange(4), "shuffle": rng.random() < 0.3})


def labels(st, d: str, ns: str, db: str, enum: str) -> typing.Optional[dict]:
    t = st.tables.get(schema.table_key(d, ns, enum, db))
    if t is None or not t.has("value"):
        return None
    return {r.get(t.col("id").num): r.get(t.col("value").num) for r in t.rows}


def content(db, spec: dict, d: str, ns: str) -> dict:
    "Logical content: table -> key -> field -> value (labels for enumerations)."
    st = db.state
    out: dict = {}
    for t in spec["tables"] + schema.join_tables(spec):
        tab = st.tables.get(schema.table_key(d, ns, t["name"], db.database))
        if tab is None:
            continue
        rows: dict = {}
        for r in tab.rows:
            key = r.get(tab.col(t["pk"]["n"]).num)
            rec = {}
            for f in t["fields"]:
                if not tab.has(f["n"]):
                    continue
                c = tab.col(f["n"])
                v = r.get(c.num)
                if f["t"].startswith("enum:") and v is not None and c.type[0] in ("integer", "number", "bigint", "smallint"):
                    m = labels(st, d, ns, db.database, f["t"][5:])
                    v = m.get(v, f"<dangling {v}>") if m is not None else f"<no lookup table {v}>"
                if "udt" in repr(c.type):
                    v = schema.logical(st, c.type, v)
                rec[f["n"]] = v
            rows[key] = rec
        out[t["name"]] = rows
    return out


def same(a: typing.Any, b: typing.Any) -> bool:
    if type(a) is dict and type(b) is dict and "struct" in a:
        return all(same(v, b["struct"][k]) for k, v in a["struct"].items() if k in b["struct"])
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float, decimal.Decimal)) and isinstance(b, (int, float, decimal.Decimal)):
        return a == b
    return type(a) is type(b) and a == b


def compare(before: dict, after: dict, keep: dict) -> typing.Optional[str]:
    for tn, fields in keep.items():
        if tn not in before:
            continue
        if tn not in after:
            return f"table {tn} is gone"
        lost = [k for k in before[tn] if k not in after[tn]]
        if lost:
            return f"rows lost in {tn}: {lost[:3]!r}"
        extra = [k for k in after[tn] if k not in before[tn]]
        if extra:
            return f"rows appeared in {tn}: {extra[:3]!r}"
        for k, rec in before[tn].items():
            for f in fields:
                if f in rec:
                    if f not in after[tn][k]:
                        return f"column {tn}.{f} is gone"
                    if not same(rec[f], after[tn][k][f]):
                        return f"{tn}[{k!r}].{f} changed from {rec[f]!r} to {after[tn][k][f]!r}"
    return None


def kept_fields(v1: dict, v2: dict) -> dict:
    t2 = {t["name"]: t for t in v2["tables"] + schema.join_tables(v2)}
    return {t["name"]: [f["n"] for f in schema.columns(t) if any(g["n"] == f["n"] for g in schema.columns(t2[t["name"]]))]
            for t in v1["tables"] + schema.join_tables(v1) if t["name"] in t2}


def changed_member(v1: dict, v2: dict) -> bool:
    old = {(n, m["n"]): m["t"] for n, st in v1["structs"].items() for m in st["members"]}
    return any(old.get((n, m["n"]), m["t"]) != m["t"] for n, st in v2["structs"].items() for m in st["members"])


def refused_by_library(e: typing.Optional[BaseException]) -> bool:
    "Whether no statement was sent."
    while e is not None:
        if isinstance(e, FormationError):
            return True
        e = e.__cause__
    return False


def execute(ctx: Ctx, plan: dict) -> None:
    common.setup_world(ctx, plan)
    d = plan["_dialect"]
    vs = schema.automatic(schema.versions(plan["base"], [s["ops"] for s in plan["steps"]]), plan["_dialect"], plan["opts"])
    ns = schema.home(plan, vs)
    if any(not v["tables"] for v in vs):
        return
    opts = dict(plan["opts"])
    srv = ctx.server(d)
    rng = random.Random(plan["_rs"])
    own = common.own_key(d, ns)

    async def main() -> None:
        ms, spaces = schema.modules(ctx, vs[0], ns)
        async with ctx.connection(d, common.options(opts, spaces), user="c0") as conn:
            await ctx.explorer(d, conn).synchronize(modules=ms)
        ctr = [0]
        schema.populate(srv.db, rng, plan["rows"], only=own, counter=ctr)
        useful = False
        for k, step in enumerate(plan["steps"], 1):
            if not schema.fill_nulls(srv.db, vs[k - 1], vs[k], d, ns, rng):
                return
            before = content(srv.db, vs[k - 1], d, ns)
            cat = schema.observe(srv.db)
            if step["migrate"]:
                opts["enum_mode"] = "RELATION"
                ctx.counts["enum-migrations"] += 1
            ms, spaces = schema.modules(ctx, vs[k], ns)
            try:
                async with ctx.connection(d, common.options(opts, spaces), user=f"c{k}") as conn:
                    await ctx.explorer(d, conn).synchronize(modules=ms)
            except Exception as e:
                if changed_member(vs[k - 1], vs[k]) and re.search(r"cannot alter type \(.*\) because a column uses it", root_cause(e)):
                    # refused by the database; nothing may be lost (C01 has a known finding for the refusal)
                    ctx.counts["refused"] += 1
                    bad = compare(before, content(srv.db, vs[k - 1], d, ns), kept_fields(vs[k - 1], vs[k - 1]))
                    if bad or schema.observe(srv.db) != cat:
                        raise Violation("data-changed", f"refused step {k} {step['ops']}: {bad}")
                    return
                if schema.refusable(vs[k - 1], vs[k], d in ("postgresql", "mysql") and opts.get("enum_mode") == "RELATION"):
                    # refused by the library or the database: what both versions have is still there
                    ctx.counts["refused"] += 1
                    lib = refused_by_library(e)
                    bad = compare(before, content(srv.db, vs[k - 1], d, ns), kept_fields(vs[k - 1], vs[k - 1 if lib else k]))
                    if bad or lib and schema.observe(srv.db) != cat:
                        raise Violation("data-changed", f"refused step {k} {step['ops']} ({root_cause(e)}): {bad}")
                    return
                raise Violation("sync-fails", f"synchronization of a populated database to version {k} fails: {root_cause(e)}")
            after = content(srv.db, vs[k], d, ns)
            bad = compare(before, after, kept_fields(vs[k - 1], vs[k]))
            if bad:
                raise Violation("data-changed", f"step {k} {step['ops']}{' + enum migration' if step['migrate'] else ''}: {bad}")
            n = sum(len(r) for r in before.values())
            ctx.counts["rows-checked"] += n
            if n and schema.observe(srv.db) != cat:
                useful = True
            schema.populate(srv.db, rng, step["rows"], only=own, counter=ctr)
        ctx.counts[f"dialect-{d}"] += 1
        ctx.nontrivial = useful

    ctx.sim.run(main())
    ctx.check_hygiene()
