"Helpers shared by the checks."

import random
import typing

from . import env, schema

REAL = [
    "pysqlsync base, factory, connection, formation (converter, mutator, object types), model, util, dialects postgresql/mysql/mssql/oracle "
    "(generators, connections, explorers, mutators)",
    "asyncio tasks, futures, locks and the concurrent.futures protocol on a simulated event loop",
]
STUB = [
    "database servers (executable model with catalogs, constraints, transactions, locks per dialect)",
    "drivers asyncpg, aiomysql, pyodbc, oracledb, redshift_connector, aiotrino (same interface on the simulated network)",
    "event loop selector, clock, worker threads (one runs at a time, chosen by the seeded scheduler)",
]
ASSUMPTIONS = [
    "the simulated servers implement the SQL, catalog and transaction rules that pysqlsync relies on (rules taken from vendor documentation)",
    "a clean batch of runs is evidence, not proof: schedules and histories are sampled",
]

MODES = {
    "postgresql": {"enum_mode": [None, "TYPE", "RELATION"], "array_mode": [None, "ARRAY", "JSON"], "struct_mode": [None, "TYPE", "JSON"]},
    "mysql": {"enum_mode": [None, "INLINE", "RELATION"], "array_mode": [None, "JSON"], "struct_mode": [None, "JSON"]},
    "mssql": {"enum_mode": [None, "RELATION"], "array_mode": [None, "JSON"], "struct_mode": [None, "JSON"]},
    "oracle": {"enum_mode": [None, "RELATION"], "array_mode": [None, "JSON"], "struct_mode": [None, "JSON"]},
    "redshift": {"enum_mode": [None], "array_mode": [None], "struct_mode": [None]},
}


def gen_options(rng: random.Random, dialect: str, *, check: float = 0.0) -> dict:
    o: dict = {}
    for k, vals in MODES[dialect].items():
        v = rng.choice(vals)
        if v is not None:
            o[k] = v
    if rng.random() < check:
        o["enum_mode"] = "CHECK"
    if rng.random() < 0.1:
        o["foreign_constraints"] = False
    if rng.random() < 0.2:
        o["initialize_tables"] = True
    return o


def options(o: dict, namespaces: dict) -> env.GeneratorOptions:
    kw: dict = dict(o)
    mut = kw.pop("synchronization", None)
    for k, e in (("enum_mode", env.EnumMode), ("array_mode", env.ArrayMode), ("struct_mode", env.StructMode)):
        if kw.get(k) is not None:
            kw[k] = e[kw[k]]
    if mut is not None:
        kw["synchronization"] = env.MutatorOptions(**mut)
    return env.GeneratorOptions(namespaces=namespaces, **kw)


def enum_lists(rng: random.Random, g, opts: dict) -> None:
    "Lists of enumeration values become relationships to lookup tables in some of the runs."
    if g.rich and opts.get("enum_mode") == "RELATION" and rng.random() < 0.5:
        g.types = [t for t in g.types if t not in ("li", "ls")]
        g.enum_lists = True
        opts["array_mode"] = "RELATION"


LAT = [(0.0005, 0.001, 0.002, 0.005), (0.0,), (0.001, 0.5, 5.0), (0.01,)]


def entity_types(modules: list) -> list[type]:
    from pysqlsync.formation.inspection import get_entity_types

    return get_entity_types(modules)


def setup_world(ctx, plan: dict) -> None:
    ctx.world.latencies = LAT[plan.get("lat", 0) % len(LAT)]
    ctx.world.shuffle = bool(plan.get("shuffle"))


def effective_foreign(plan_opts: dict) -> bool:
    return plan_opts.get("foreign_constraints", True)


def own_key(dialect: str, ns: str, db: str = "db") -> typing.Callable[[tuple], bool]:
    "Predicate on object keys: those that live in namespace `ns` (empty for the default schema)."
    if getattr(ns, "aux", None) is not None:
        one, two = own_key(dialect, str(ns), db), own_key(dialect, ns.aux, db)
        return lambda k: one(k) or two(k)
    if dialect in ("postgresql", "mssql", "redshift"):
        name = ns or {"mssql": "dbo"}.get(dialect, "public")
        return lambda k: k[0] == name
    sch = {"mysql": db, "oracle": "APP"}[dialect]
    if not ns:
        return lambda k: k[0] == sch and (k[1] is None or "__" not in k[1])
    return lambda k: k[0] == sch and (k[1] is None or k[1].startswith(ns + "__"))


__all__ = ["REAL", "STUB", "ASSUMPTIONS", "gen_options", "options", "schema", "env"]
