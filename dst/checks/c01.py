"""
C01: schema synchronization converges for every schema history.

Workload: a random schema version and a random sequence of evolution steps, synchronized one after the other on one
simulated server, from the same or a fresh connection, with random latency and random order of unordered catalog results.
Oracle: after every step the observable catalog equals that of a second server on which the same classes were created from
scratch, agrees with the specification the classes were generated from, and does not change when synchronized again.
"""

import contextlib
import random
import re

from .. import common, schema
from ..env import Ctx, DIALECTS, QueryException, Violation, root_cause
from .c02 import changed_member, refused_by_library

QUICK = 1300
THOROUGH = 40000
RULE = "at least two versions were synchronized and at least one step changed the catalog"
REAL = common.REAL
STUB = common.STUB
ASSUMPTIONS = common.ASSUMPTIONS + [
    "type changes are limited to widenings; key columns keep their type; field defaults are of types the library can render",
]


def generate(rng: random.Random, tier: str) -> dict:
    d = rng.choice(DIALECTS)
    opts = common.gen_options(rng, d, check=0.03)
    migrate = d in ("postgresql", "mysql") and rng.random() < 0.25
    if migrate:
        opts["enum_mode"] = {"postgresql": "TYPE", "mysql": "INLINE"}[d]
        opts.pop("foreign_constraints", None)
    if d in ("postgresql", "oracle") and not migrate and rng.random() < 0.12:
        opts["auto_default"] = True
    g = schema.Gen(rng, d, max_tables=rng.choice([2, 4, 5]), docs=rng.random() < 0.7)
    g.nested = not migrate
    g.alter = True
    g.refusable = rng.random() < 0.15
    g.rich = rng.choice([0, 0, 0.2, 0.5])
    common.enum_lists(rng, g, opts)
    if opts.get("enum_mode", {"postgresql": "TYPE", "mysql": "INLINE"}.get(d, "RELATION")) == "RELATION" and not opts.get("auto_default"):
        g.records = rng.random() < 0.3
    if d == "mssql" and rng.random() < 0.1:
        g.unique_defaults = False
    base = g.spec()
    steps = []
    cur = base
    for _ in range(rng.choice([1, 2, 2, 3, 3] if tier == "quick" else [1, 2, 3, 4, 6])):
        ops = g.ops(cur, rng.choice([1, 1, 2, 3, 5]))
        steps.append({"ops": ops, "fresh": rng.random() < 0.7, "again": rng.choice(["fresh", "same", "both"])})
        if migrate and rng.random() < 0.5:
            migrate = False
            steps[-1]["set"] = {"enum_mode": "RELATION"}
            steps[-1]["fresh"] = True
            if rng.random() < 0.4:
                steps[-1]["ops"] = ops = []
        elif rng.random() < 0.08 and "check" not in str(opts.get("enum_mode", "")).lower():
            steps[-1]["set"] = {"foreign_constraints": rng.random() < 0.5}
            steps[-1]["fresh"] = True
        cur = schema.versions(cur, [ops])[-1]
    ns = rng.choice(["ns", "ns", "Sales", "my_app", "x%"]) if d in ("postgresql", "mssql") else rng.choice(["ns", "ns", "Sales", "my_app"])
    if rng.random() < 0.15:
        ns = ""  # mapped to the default schema
    return schema.gen_home(rng, {"_dialect": d, "_ns": ns, "opts": opts, "base": base, "steps": steps, "lat": rng.randrange(4), "shuffle": rng.random() < 0.4, "again0": rng.random() < 0.5})


def execute(ctx: Ctx, plan: dict) -> None:
    common.setup_world(ctx, plan)
    d = plan["_dialect"]
    vs = schema.automatic(schema.versions(plan["base"], [s["ops"] for s in plan["steps"]]), plan["_dialect"], plan["opts"])
    ns = schema.home(plan, vs)
    opts = dict(plan["opts"])
    check_mode = opts.get("enum_mode") == "CHECK"
    srv = ctx.server(d)

    async def main() -> None:
        prev = None
        useful = 0
        async with contextlib.AsyncExitStack() as stack:
            conn = None
            for k, v in enumerate(vs):
                if not v["tables"]:
                    continue
                changed = k > 0 and changed_member(vs[k - 1], v)
                step = plan["steps"][k - 1] if k else {"fresh": True, "again": "both" if plan["again0"] else "fresh"}
                if step.get("set"):
                    opts.update(step["set"])
                    ctx.counts["option-changes"] += 1
                foreign = common.effective_foreign(opts)
                ms, spaces = schema.modules(ctx, v, ns)
                if conn is None or step["fresh"] or step.get("set"):
                    await stack.aclose()
                    conn = await stack.enter_async_context(ctx.connection(d, common.options(opts, spaces), user=f"c{k}"))
                try:
                    await ctx.explorer(d, conn).synchronize(modules=ms)
                except (QueryException, Exception) as e:
                    if known(ctx, d, check_mode, changed, e):
                        return
                    if k and schema.refusable(vs[k - 1], v):
                        ctx.counts["refused"] += 1
                        df = schema.diff(schema.observe(srv.db), prev) if refused_by_library(e) else []
                        if df:
                            raise Violation("refused-halfway", f"the change to version {k} is refused ({root_cause(e)}), yet changed: " + "; ".join(df[:4]))
                        return
                    raise Violation("sync-fails", f"synchronization to version {k} fails: {root_cause(e)}")
                problems = schema.expected_problems(srv.db, v, d, ns, foreign=foreign)
                if problems:
                    raise Violation("not-as-declared", f"version {k}: " + "; ".join(problems[:4]))
                got = schema.observe(srv.db)
                async with ctx.connection(d, common.options(opts, spaces), user=f"f{k}", host=f"fresh{k}") as c2:
                    await c2.create_objects(common.entity_types(ms))
                want = schema.observe(ctx.server(d, f"fresh{k}").db)
                problems = schema.unexpected_tables(ctx.server(d, f"fresh{k}").db, v, d, ns)
                problems += schema.initial_problems(ctx.server(d, f"fresh{k}").db, v, d, ns, bool(opts.get("initialize_tables")))
                if k == 0:
                    problems += schema.initial_problems(srv.db, v, d, ns, bool(opts.get("initialize_tables")))
                if problems:
                    raise Violation("not-as-declared", f"version {k}: " + "; ".join(problems[:4]))
                df = schema.diff(got, want)
                if df:
                    raise Violation("differs-from-scratch", f"version {k}: catalog differs from creation from scratch: " + "; ".join(df[:4]))
                if prev is not None and got != prev:
                    useful += 1
                prev = got
                for how in ("same", "fresh"):
                    if step["again"] in (how, "both"):
                        try:
                            if how == "same":
                                await ctx.explorer(d, conn).synchronize(modules=ms)
                            else:
                                async with ctx.connection(d, common.options(opts, spaces), user=f"a{k}") as c3:
                                    await ctx.explorer(d, c3).synchronize(modules=ms)
                        except (QueryException, Exception) as e:
                            if known(ctx, d, check_mode, changed, e):
                                return
                            raise Violation("resync-fails", f"synchronizing version {k} again ({how}) fails: {root_cause(e)}")
                        df = schema.diff(got, schema.observe(srv.db))
                        if df:
                            raise Violation("not-idempotent", f"synchronizing version {k} again ({how}) changed: " + "; ".join(df[:4]))
                        ctx.counts[f"again-{how}"] += 1
        ctx.counts[f"dialect-{d}"] += 1
        ctx.counts["versions"] += len(vs)
        ctx.nontrivial = useful > 0

    ctx.sim.run(main())
    ctx.check_hygiene()


def known(ctx: Ctx, d: str, check_mode: bool, changed: bool, e: BaseException) -> bool:
    if check_mode and "constraint ch_" in root_cause(e) and "already exists" in root_cause(e) and "check-not-discovered" in ctx.findings:
        ctx.known.append("check-not-discovered")
        return True
    if d == "mssql" and re.search(r"constraint df_\S+ already exists in another table", root_cause(e)) and "mssql-default-name" in ctx.findings:
        ctx.known.append("mssql-default-name")
        return True
    if d == "postgresql" and changed and re.search(r"cannot alter type \(.*\) because a column uses it", root_cause(e)) and "struct-attribute-type" in ctx.findings:
        ctx.known.append("struct-attribute-type")
        return True
    return False
