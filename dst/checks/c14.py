"""
C14: discovery reports exactly the database it looks at.

Workload: databases built by other means (plain DDL): several namespaces with look-alike names, tables of the same or similar names in each, names with
quotes and wildcard characters, columns of many types with defaults, identities, comments, composite primary, unique and foreign keys within and
across namespaces, enumerations and composite types. One or two explorers ask, again and again, whether tables and columns exist, list tables, and read tables
and namespaces (or discover several of them into the connection's model), while tables and columns come and go in between. The server returns rows in any order unless told otherwise; catalog queries fail, stall,
get lost or cancelled at arbitrary points, and the same explorer goes on asking afterwards where its connection allows.
Oracle: the server's catalog at the time. What exists, exists; what does not, does not; names are the names of the tables; a model read is recreated from scratch
on a twin of the server without the original objects, and the twin's catalog must not differ. A call that was hit by a fault fails or gives the exact answer,
and the answers that follow are exact.
"""

import ast
import asyncio
import copy
import random
import re
import typing

from .. import common, schema
from ..env import Ctx, Violation, root_cause
from ..server import DB, DbError
from ..sqlparse import parse_script

QUICK = 5000
THOROUGH = 30000
RULE = "at least one namespace or table with objects was read, or a fault hit a catalog query"
REAL = common.REAL
STUB = common.STUB
ASSUMPTIONS = common.ASSUMPTIONS + [
    "one fault at a time: a probe that the server rejects twice in a row, while other catalog views can be read, counts as a missing feature",
    "Redshift discovery is not simulated; Trino shows columns only (first column is taken for the key), types without length; MSSQL has no comments; Oracle offers no existence checks and treats names with $ as system objects",
    "check constraints are not discovered (recorded under C01)",
    "column types are limited to those pysqlsync models",
]

DIALECTS = ["postgresql", "mysql", "mssql", "oracle", "postgresql", "mysql", "mssql", "oracle", "trino"]
SYSTEM = {"spt_values", "MLOG$_x"}  # objects of the database software
NS = {
    "trino": ["ns", "n_s", "nxs", "ns2", "it's"],
    "postgresql": ["ns", "n_s", "nxs", "ns2", "NS", "n%s", "it's", "public"],
    "mssql": ["ns", "n_s", "nxs", "ns2", "n%s", "dbo"],
    "mysql": ["ns", "n_s", "nxs", "ns2", "n~s", "n%s", ""],
    "oracle": ["ns", "n_s", "nxs", "ns2", "n~s", "NS", ""],
}
TABLES = {
    "trino": ["item", "item_", "itemX", "it%m", "it'em", "user"],
    "postgresql": ["item", "item_", "itemX", "Item", "it%m", "it'em", 'it"em', "user"],
    "mssql": ["item", "item_", "itemX", "it%m", "user", "other", "spt_values"],
    "mysql": ["item", "item_", "itemX", "it%m", "it'em", "user", "other", "snow", "a__b", "_s"],
    "oracle": ["item", "item_", "itemX", "Item", "user", "other", "snow", "a__b", "_s", "MLOG$_x"],
}
COLS = ["id", "name", "code", "order", "a_b", "aXb", "Value", "x y", "note", "ref", "ref2"]
TYPES = {
    "trino": [("bigint", []), ("integer", []), ("smallint", []), ("boolean", []), ("double precision", []), ("real", []), ("date", [])],
    "postgresql": [("bigint", ["0", "42", "-7"]), ("integer", ["82"]), ("smallint", ["1"]), ("boolean", ["true", "false"]), ("double precision", ["1.5"]), ("real", []), ("numeric(10,2)", ["9.50"]), ("varchar(80)", ["'x'", "'it''s'"]), ("text", ["'some text'"]), ("bytea", []), ("timestamp", ["'2020-01-02 03:04:05'"]), ("timestamp with time zone", []), ("timestamp(3)", []), ("char(3)", ["'abc'"]), ("time with time zone", []), ("time(3)", []), ("date", []), ("time", []), ("uuid", []), ("jsonb", []), ("inet", []), ("bigint[]", []), ("text[]", []), ("ENUM", []), ("ENUM[]", []), ("STRUCT", [])],
    "mysql": [("bigint", ["0", "42"]), ("int", ["82"]), ("smallint", ["1"]), ("tinyint", ["1", "0"]), ("double", ["1.5"]), ("float", []), ("decimal(10,2)", ["9.50"]), ("varchar(80)", ["'x'", "'it''s'"]), ("mediumtext", []), ("varbinary(16)", []), ("binary(16)", []), ("datetime(6)", []), ("datetime", []), ("date", []), ("time", []), ("json", []), ("enum('a','b''c')", [])],
    "mssql": [("bigint", ["0", "42"]), ("integer", ["82"]), ("smallint", ["1"]), ("bit", ["1"]), ("double precision", ["1.5"]), ("real", []), ("decimal(10,2)", ["9.50"]), ("varchar(80)", ["'x'", "'it''s'"]), ("varchar(max)", []), ("varbinary(16)", []), ("datetime2", []), ("date", []), ("time", [])],
    "oracle": [("number", ["0", "42"]), ("varchar2(80)", ["'x'", "'it''s'"]), ("clob", []), ("blob", []), ("raw(16)", []), ("timestamp", []), ("date", [])],
}
COMMENTS = [None, None, "Plain words.", "It's quoted.", 'With "double" quotes.']


def generate(rng: random.Random, tier: str) -> dict:
    clients = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        d = rng.choice(DIALECTS)
        spaces = rng.sample(NS[d], rng.randrange(1, 4))
        tables = []
        for _ in range(rng.randrange(0, 7)):
            tables.append(gen_table(rng, d, spaces, len(tables)))
        ops = []
        for _ in range(rng.randrange(2, 9)):
            kind = rng.choice(["has_table", "has_table", "has_column", "has_column", "names", "get_table", "get_table", "namespace", "namespace", "namespace", "discover", "current", "add_table", "drop_table", "add_column", "drop_column", "new_explorer"])
            o = {"op": kind, "ns": rng.choice(NS[d] + spaces * 3), "name": rng.choice(TABLES[d]), "t": rng.randrange(8), "col": rng.choice(COLS), "real": rng.random() < 0.7, "unqualified": rng.random() < 0.2, "faults": [], "seed": rng.randrange(1 << 20)}
            if kind == "add_table":
                o["table"] = gen_table(rng, d, spaces, len(tables))
            if rng.random() < 0.3:
                o["faults"] = [{"k": rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 9]), "kind": rng.choice(["error", "error", "error", "lost_before", "lost_after", "stall", "cancel"]), "sub": 0, "rec": 0, "err": rng.choice(["injected", "deadlock", "permission"]), "d": rng.choice([1, 40]), "late": rng.random() < 0.5}]
            ops.append(o)
        clients.append({"_dialect": d, "spaces": spaces, "home": d in ("postgresql", "mssql") and rng.random() < 0.3, "tables": tables, "ops": ops})
    return {"clients": clients, "lat": rng.randrange(4), "shuffle": rng.random() < 0.8}


def gen_table(rng: random.Random, d: str, spaces: list, n: int) -> dict:
    names = rng.sample(COLS, rng.randrange(1, 8))
    if rng.random() < 0.04:
        names = names + [f"c{i}" for i in range(rng.randrange(6, 24))]
        rng.shuffle(names)
    cols = []
    for c in names:
        ty, defaults = rng.choice(TYPES[d])
        cols.append({"n": c, "ty": ty, "nn": rng.random() < 0.5, "d": rng.choice(defaults) if defaults and rng.random() < 0.4 else None, "doc": rng.choice(COMMENTS)})
    return {
        "ns": rng.choice(spaces), "name": rng.choice(TABLES[d]), "cols": cols,
        "pk": rng.sample(range(len(cols)), rng.randrange(1, min(len(cols), 3) + 1)) if rng.random() < 0.95 else [],
        "uq": [rng.sample(range(len(cols)), rng.randrange(1, min(len(cols), 3) + 1)) for _ in range(rng.choice([0, 0, 1, 2]))],
        "fk": [rng.randrange(8) for _ in range(rng.choice([0, 0, 1, 1, 2]))],
        "identity": rng.random() < 0.3, "doc": rng.choice(COMMENTS), "swap": rng.random() < 0.5,
    }


KEYABLE = {
    "trino": [],
    "postgresql": ["bigint", "integer", "smallint", "varchar(80)", "uuid"], "mysql": ["bigint", "int", "smallint", "varchar(80)"],
    "mssql": ["bigint", "integer", "smallint", "varchar(80)"], "oracle": ["number", "varchar2(80)"],
}


class Builder:
    "Issues plain DDL to a database and knows what it has created."

    def __init__(self, d: str, db: DB, spaces: list):
        self.d = d
        self.db = db
        self.qualified = d in ("postgresql", "mssql", "trino")
        self.count: dict[str, int] = {}
        self.tables: list[dict] = []
        self.names: dict[tuple, tuple] = {}
        if self.qualified:
            for s in spaces:
                if s not in db.state.schemas:
                    self.run(f"CREATE SCHEMA {self.q(s)};")
            if d == "postgresql":
                for s in spaces:
                    self.run(f"CREATE TYPE {self.q(s)}.{self.q('mood')} AS ENUM ('sad', 'it''s ok', 'Happy');")
                    self.run(f"CREATE TYPE {self.q(s)}.{self.q('level')} AS ENUM ('zero', 'One', 'sad'" + (", 'v9', 'v8', 'v7', 'v6', 'v5', 'v4', 'v3', 'v2', 'v1'" if len(s) % 2 else "") + ");")
                    self.run(f"CREATE TYPE {self.q(s)}.{self.q('area')} AS ({self.q('lat')} double precision, {self.q('kind')} {self.q(s)}.{self.q('level')});")
                    self.run(f"CREATE TYPE {self.q(s)}.{self.q('place')} AS ({self.q('city')} text, {self.q('zip')} integer);")
                    self.run(f"COMMENT ON TYPE {self.q(s)}.{self.q('place')} IS 'A place.';")

    def q(self, n: str) -> str:
        return "`" + n.replace("`", "``") + "`" if self.d == "mysql" else '"' + n.replace('"', '""') + '"'

    def run(self, text: str) -> None:
        s = self.db.session()
        try:
            for st, _ in parse_script(text, self.d):
                s.execute(st, None)
            s.commit()
        except DbError as e:
            if e.args and "syntax" in str(e):
                raise DbError("syntax", f"{e}: {text}")
            raise
        finally:
            s.close()

    def key(self, ns: str, name: str) -> tuple:
        default = self.db.state.default_schema
        if self.qualified:
            return (ns or default, name)
        return (default, f"{ns}__{name}" if ns else name)

    def ident(self, key: tuple) -> str:
        return f"{self.q(key[0])}.{self.q(key[1])}" if self.qualified else self.q(key[1])

    def column(self, ns: str, c: dict) -> str:
        ty = c["ty"].replace("ENUM", f"{self.q(ns)}.{self.q('mood')}").replace("STRUCT", f"{self.q(ns)}.{self.q('place')}")
        s = f"{self.q(c['n'])} {ty}"
        if self.d == "oracle":
            s += f" DEFAULT {c['d']}" if c["d"] is not None else ""
            s += " NOT NULL" if c["nn"] else ""
        else:
            s += " NOT NULL" if c["nn"] else ""
            s += f" DEFAULT {c['d']}" if c["d"] is not None else ""
        if self.d == "mysql" and c["doc"]:
            s += " COMMENT '" + c["doc"].replace("'", "''") + "'"
        return s

    def comments(self, tid: str, t: typing.Optional[dict], cols: list) -> None:
        if self.d not in ("postgresql", "oracle"):
            return
        if t is not None and t["doc"]:
            self.run(f"COMMENT ON TABLE {tid} IS '" + t["doc"].replace("'", "''") + "';")
        for c in cols:
            if c["doc"]:
                self.run(f"COMMENT ON COLUMN {tid}.{self.q(c['n'])} IS '" + c["doc"].replace("'", "''") + "';")

    def add(self, t: dict) -> bool:
        key = self.key(t["ns"], t["name"])
        if key in self.db.state.tables or not t["cols"]:
            return False
        # names of keys are unique within the schema, other schemas have keys of the same names
        n = self.count[key[0]] = self.count.get(key[0], 0) + 1
        if self.d == "trino":
            t = {**t, "pk": [], "uq": [], "fk": [], "identity": False, "cols": [{**c, "doc": None, "d": None} for c in t["cols"]]}
        cols = [dict(c) for c in t["cols"]]
        have = {c["n"] for c in cols}
        pk = list(dict.fromkeys(k for k in t["pk"] if k < len(cols)))
        uqs = [list(dict.fromkeys(k for k in u if k < len(cols))) for u in t["uq"]]
        okay = KEYABLE[self.d]
        for k in set(pk) | {k for u in uqs for k in u}:
            if cols[k]["ty"] not in okay:
                cols[k].update(ty=okay[k % len(okay)], d=None)
        for k in pk:
            cols[k].update(nn=True)
        identity = t["identity"] and len(pk) == 1
        if identity:
            cols[pk[0]].update(ty={"oracle": "number"}.get(self.d, "bigint"), d=None)
        self.tables = self.live()
        cons = []
        fks = []
        for j, f in enumerate(t["fk"]):
            cand = [x for x in self.tables if x["key"] in self.db.state.tables and x["pk"]]
            if not cand:
                break
            ref = cand[f % len(cand)]
            mine = []
            for name, ty in ref["pk"]:
                cn = f"fk{j}_{name}"
                if cn not in have:
                    have.add(cn)
                    cols.append({"n": cn, "ty": ty, "nn": False, "d": None, "doc": None})
                mine.append(cn)
            pairs = list(zip(mine, [p[0] for p in ref["pk"]]))
            if self.d == "postgresql" and t["swap"]:
                pairs.reverse()
            fks.append((f"fk_{n}_{j}" if self.d != "postgresql" else f"fk_{j}", pairs, ref["key"]))
        parts = []
        for i, c in enumerate(cols):
            s = self.column(t["ns"] or "public", c)
            if identity and i == pk[0]:
                word = {"postgresql": "GENERATED BY DEFAULT AS IDENTITY", "oracle": "GENERATED BY DEFAULT AS IDENTITY", "mssql": "IDENTITY", "mysql": "AUTO_INCREMENT"}[self.d]
                if self.d == "oracle":
                    s = f"{self.q(c['n'])} {c['ty']} {word} NOT NULL"
                elif self.d == "mysql":
                    s = f"{self.q(c['n'])} {c['ty']} NOT NULL {word}" + (" COMMENT '" + c["doc"].replace("'", "''") + "'" if c["doc"] else "")
                else:
                    s = f"{self.q(c['n'])} {c['ty']} NOT NULL {word}" if self.d == "postgresql" else f"{self.q(c['n'])} {c['ty']} {word} NOT NULL"
            parts.append(s)
        if pk:
            name = f"CONSTRAINT {self.q(f'pk_{n}')} " if self.d != "mysql" else ""
            cons.append(f"{name}PRIMARY KEY ({', '.join(self.q(cols[k]['n']) for k in pk)})")
        seen = [sorted(pk)]
        for j, u in enumerate(uqs):
            if u and sorted(u) not in seen:
                seen.append(sorted(u))
                # MySQL: names of keys are unique within their table only
                cons.append(f"CONSTRAINT {self.q(f'uq_{j}' if self.d == 'mysql' else f'uq_{n}_{j}')} UNIQUE ({', '.join(self.q(cols[k]['n']) for k in u)})")
        for name, pairs, rk in fks:
            cons.append(f"CONSTRAINT {self.q(name)} FOREIGN KEY ({', '.join(self.q(a) for a, _ in pairs)}) REFERENCES {self.ident(rk)} ({', '.join(self.q(b) for _, b in pairs)})")
        tid = self.ident(key)
        tail = " COMMENT = '" + t["doc"].replace("'", "''") + "'" if self.d == "mysql" and t["doc"] else ""
        self.run(f"CREATE TABLE {tid} ({', '.join(parts + cons)}){tail};")
        self.comments(tid, t, cols)
        self.names[key] = (t["ns"], t["name"])
        self.tables.append({"key": key, "ns": t["ns"], "name": t["name"], "pk": [(cols[k]["n"], cols[k]["ty"]) for k in pk]})
        return True

    def live(self) -> list[dict]:
        return [x for x in self.tables if x["key"] in self.db.state.tables]

    def drop(self, x: dict) -> bool:
        try:
            self.run(f"DROP TABLE {self.ident(x['key'])};")
        except DbError:
            return False
        return True

    def add_column(self, x: dict, name: str, rng: random.Random) -> None:
        t = self.db.state.tables[x["key"]]
        if any(c.name.lower() == name.lower() for c in t.live()):
            return
        ty, _ = rng.choice([y for y in TYPES[self.d] if y[0] not in ("ENUM", "ENUM[]", "STRUCT")])
        c = {"n": name, "ty": ty, "nn": False, "d": None, "doc": rng.choice(COMMENTS)}
        word = {"mssql": "ADD", "oracle": "ADD"}.get(self.d, "ADD COLUMN")
        body = self.column(x["ns"], c)
        self.run(f"ALTER TABLE {self.ident(x['key'])} {word} {body};")
        self.comments(self.ident(x["key"]), None, [c])

    def drop_column(self, x: dict, k: int) -> None:
        t = self.db.state.tables[x["key"]]
        free = [c.name for c in t.live() if not any(c.num in n.cols for n in t.cons.values()) and (self.d != "mssql" or c.default is None)]
        if not free or len(t.live()) < 2:
            return
        try:
            self.run(f"ALTER TABLE {self.ident(x['key'])} DROP COLUMN {self.q(free[k % len(free)])};")
        except DbError:
            pass


def twin_difference(d: str, db: DB, own: typing.Callable[[tuple], bool], model: typing.Any, text: str, known: typing.Container, seen: list) -> list[str]:
    "Recreates what was read on a copy of the database without the original objects and compares the catalogs."
    if d != "trino" and any(t.pk() is None for k, t in db.state.tables.items() if own(k)):
        return []  # the model has no way to say that a table has no primary key
    twin = DB(d, db.database)
    st = db.state.clone()
    if d == "postgresql":
        # other objects must not depend on the types that are recreated
        gone = [k for k in list(st.enums) + list(st.structs) if own(k)]
        for k in gone:
            st.enums.pop(k, None)
            st.structs.pop(k, None)
            st.type_oids.pop(k, None)
    for k in [k for k in st.tables if own(k)]:
        st.tables.pop(k)
    for t in st.tables.values():
        for n in [n for n, c in t.cons.items() if c.kind == "f" and own(c.ref)]:
            t.cons.pop(n)
    for s in [s for s in st.schemas if own((s, None)) and "CREATE SCHEMA" in text]:
        st.schemas.pop(s)
    twin.swap(st)
    s = twin.session()
    try:
        for tree, part in parse_script(text, d):
            s.execute(tree, None)
        s.commit()
    except DbError as e:
        if re.search(r"constraint df_.* already exists in another table", str(e)) and "mssql-default-name" in known:
            seen.append("mssql-default-name")
            return []
        return [f"what was read cannot be created again: {e}: {part}"]
    a, b = schema.observe(db, only=own), schema.observe(twin, only=own)
    for x in (a, b):
        for t in x["tables"].values():
            # names of primary keys are not part of the model
            # and not all dialects write comments along with the table; they are compared directly
            t["comment"] = None
            for c in t["cols"].values():
                c["comment"] = None
            if d == "trino":
                # the first column is taken for the primary key because the catalog shows no keys
                t["cons"] = []
                next(iter(t["cols"].values())).update(notnull=True)
            t["cons"] = sorted(repr(("p", "") + e[2:]) if e[0] == "p" else c for c in t["cons"] for e in [ast.literal_eval(c)])
    out = schema.diff(a, b)
    for k in a["tables"]:
        if k in b["tables"] and list(a["tables"][k]["cols"]) != list(b["tables"][k]["cols"]):
            out.append(f"{k}: columns in the order {list(b['tables'][k]['cols'])} instead of {list(a['tables'][k]['cols'])}")
    return out


async def client_main(ctx: Ctx, plan: dict, i: int, spec: dict) -> None:
    from pysqlsync.base import QualifiedId  # noqa: F401
    from pysqlsync.model.id_types import LocalId

    d = spec["_dialect"]
    sim, w = ctx.sim, ctx.world
    name, host = f"c{i}", f"h{i}"
    db = ctx.server(d, host).db
    if spec["home"] and spec["spaces"]:
        # the current schema of the user is not the usual one
        st = db.state.clone()
        st.default_schema = spec["spaces"][0]
        st.schemas.setdefault(st.default_schema, st.oid())
        db.swap(st)
    b = Builder(d, db, spec["spaces"])
    if d in ("mysql", "oracle"):
        # look-alikes in another schema (database, owner)
        st = db.state.clone()
        st.schemas["OTHER"] = st.oid()
        db.swap(st)
    for t in spec["tables"]:
        if t and t.get("cols"):
            b.add(t)
    if d in ("mysql", "oracle"):
        st = db.state.clone()
        twins = sorted(st.tables)[:: 1 + plan["lat"] % 2]
        for k in twins:
            t = st.tables[k].clone()
            t.key = ("OTHER", k[1])
            t.cons = {n: copy.copy(c) for n, c in t.cons.items() if c.kind in "pu" or c.kind == "f" and c.ref in twins}
            for c in t.cons.values():
                if c.kind == "f":
                    c.ref = ("OTHER", c.ref[1])
            t.comment = "elsewhere"
            for c in list(t.live())[:1]:
                c.name = c.name + "_e"
            st.tables[t.key] = t
        t = None
        db.swap(st)
    client = w.client(name)
    loop = asyncio.get_running_loop()
    state: dict = {}

    def on_cancel() -> None:
        state["cancelled"] = True
        task = state.get("task")
        if task is None:
            return
        if sim.on_loop_thread():
            loop.call_soon(task.cancel)
        else:
            loop.call_soon_threadsafe(task.cancel)

    client.on_cancel = on_cancel
    cm = conn = ex = None
    # modules stand for namespaces
    spaces = {f"dm{i}_{j}": s or None for j, s in enumerate(dict.fromkeys(spec["spaces"])) if d != "trino"}
    mods = {ctx.module(m, ""): s for m, s in spaces.items()}
    default = db.state.default_schema
    prefixed = d in ("mysql", "oracle")

    for k, op in enumerate(spec["ops"]):
        rng = random.Random(op["seed"])
        kind = op["op"]
        live = b.live()
        if d == "trino" and not spec["spaces"]:
            return
        pick = live[op["t"] % len(live)] if live else None
        if kind == "add_table":
            if op.get("table"):
                b.add({**op["table"], "ns": op["table"]["ns"] if op["table"]["ns"] in spec["spaces"] else (spec["spaces"] or [""])[0]}) if spec["spaces"] else None
            continue
        if kind in ("drop_table", "add_column", "drop_column"):
            if pick is not None:
                b.drop(pick) if kind == "drop_table" else b.add_column(pick, op["col"], rng) if kind == "add_column" else b.drop_column(pick, op["t"])
            continue
        if kind == "new_explorer":
            ex = None
            continue
        if conn is None:
            cm = ctx.connection(d, common.options({}, mods) if mods else None, user=name, host=host)
            conn = await cm.open()
            ex = None
        if ex is None:
            ex = ctx.explorer(d, conn) if d != "trino" else trino_explorer(conn)
        ns, tn = op["ns"], op["name"]
        if op["real"] and pick is not None:
            ns, tn = pick["ns"], pick["name"]
        if d == "trino" and kind == "current":
            kind, ns = "namespace", rng.choice(spec["spaces"] or ["ns"])
        if kind == "discover" and not mods:
            kind, ns = "namespace", rng.choice(spec["spaces"] or ["ns"])
        if op["unqualified"] and d != "trino":
            ns = ""
        key = b.key(ns, tn)
        tid = ex.get_qualified_id(ns or None, tn) if hasattr(ex, "get_qualified_id") else None
        tab = db.state.tables.get(key)
        st = db.state
        expect: typing.Any = None
        what = f"{name} ({d}): {kind}"
        if kind == "has_table":
            what += f" {tid}"
            call, expect = ex.has_table(tid), tab is not None
        elif kind == "has_column":
            cn = op["col"]
            if tab is not None and op["real"]:
                cn = rng.choice([c.name for c in tab.live()])
            what += f" {tid} {cn}"
            call, expect = ex.has_column(tid, LocalId(cn)), tab is not None and any(c.name == cn for c in tab.live())
        elif kind == "names":
            call, expect = ex.get_table_names(), sorted(t for t in st.tables)
        elif kind == "get_table":
            what += f" {tid}"
            call = ex.get_table(tid)
        elif kind == "current":
            call = ex.get_namespace_current()
            ns = ""
        elif kind == "discover":
            asked = [m for j, m in enumerate(mods) if op["t"] >> j & 1] or list(mods)
            what += f" {[mods[m] for m in asked]}"
            call = ex.discover(module=asked[0]) if len(asked) == 1 and op["real"] else ex.discover(modules=asked)
        else:
            ns = ns or {"postgresql": "public", "mssql": "dbo"}.get(d, "ns")
            what += f" {ns}"
            call = ex.get_namespace(LocalId(ns))
        client.arm([f for f in op["faults"] if f.get("kind")])
        state["cancelled"] = False
        n_err = len(w.driver_errors)
        task = state["task"] = loop.create_task(call)
        res, err = None, None
        try:
            res = await task
        except GeneratorExit:
            raise
        except BaseException as e:
            err = e
        state["task"] = None
        client.disarm()
        ctx.check_hygiene()
        fired = [f["kind"] for _, f in client.fired]
        broken = any(x in ("error", "lost_before", "lost_after") for x in fired)
        if fired:
            ctx.nontrivial = True
        sim.event(f"{what} -> {type(err).__name__ if err else 'value'}")
        ctx.counts[kind] += 1
        if isinstance(err, asyncio.CancelledError):
            if not state["cancelled"]:
                raise Violation("spurious-cancel", f"{what}: cancelled out of nowhere")
        elif err is not None:
            if not isinstance(err, Exception):
                raise err
            if d == "oracle" and isinstance(err, NotImplementedError) and kind in ("has_table", "has_column", "names"):
                pass
            elif kind == "get_table" and tab is None:
                pass
            elif broken:
                chain: list = []
                x: typing.Optional[BaseException] = err
                while x is not None and x not in chain:
                    chain.append(x)
                    x = x.__cause__ or x.__context__
                if not any(c is e for c in chain for e in w.driver_errors[n_err:]):
                    raise Violation("wrong-error", f"{what}: the error is not the one of the driver: {root_cause(err)}")
            else:
                raise Violation("failed", f"{what}: {root_cause(err)}")
        elif kind in ("has_table", "has_column"):
            if bool(res) != expect or not isinstance(res, (bool, int)):
                raise Violation("wrong-answer", f"{what}: the answer is {res!r}, tables are {sorted(st.tables)}" + (f", columns are {[c.name for c in tab.live()]}" if tab else ""))
        elif kind == "names":
            got = sorted((r.scope_id, r.local_id) for r in res if r.scope_id not in ("pg_catalog", "information_schema"))
            if got != expect:
                raise Violation("wrong-answer", f"{what}: {got} instead of {expect}")
        elif kind == "get_table":
            if tab is None:
                raise Violation("invented", f"{what}: there is no such table but a model was returned: {res.create_stmt()}")
            ctx.nontrivial = True
            text = "\n".join(x for x in (res.create_stmt(), res.add_constraints_stmt()) if x)
            check_table(d, st, tab, res, what, b.names)
            bad = twin_difference(d, db, lambda q: q == key and q in st.tables, res, text, ctx.findings, ctx.known)
            if bad:
                raise Violation("wrong-table", f"{what}: {bad[0]}\n{text}")
        else:
            names = [ns] if kind != "discover" else [mods[m] or "" for m in asked]

            def everything(q: tuple, names: list = names) -> bool:
                if not prefixed:
                    return q[0] in [n or default for n in names]
                return q[0] == default and q[1] is not None and any(q[1].startswith(n + "__") if n else "__" not in q[1] for n in names)

            def own(q: tuple, everything: typing.Callable[[tuple], bool] = everything) -> bool:
                return everything(q) and (q[1] is None or q[1].rpartition("__")[2] not in SYSTEM)

            found = [res] if kind != "discover" else list(conn.connection.generator.state.namespaces.values())
            key_of = lambda t: (t.name.scope_id if not prefixed and t.name.scope_id else default, t.name.local_id)
            want = sorted(q for q in st.tables if own(q))
            got = sorted(key_of(t) for n in found for t in n.tables.values())
            if got != want:
                raise Violation("wrong-namespace", f"{what}: tables {got} instead of {want}")
            if want:
                ctx.nontrivial = True
            for t in [t for n in found for t in n.tables.values()]:
                check_table(d, st, st.tables[key_of(t)], t, what, b.names)
            if d == "postgresql":
                if kind != "discover":
                    check_types(st, ns or default, res, what)
                else:
                    have = {n.name.local_id or default: n for n in found}
                    for n in names:
                        if n not in have:
                            raise Violation("wrong-namespace", f"{what}: namespaces {sorted(have)}")
                        check_types(st, n, have[n], what)
            text = "\n".join(x for x in [n.create_stmt() for n in found] + [n.add_constraints_stmt() for n in found] if x)
            if want or any(own(q) for q in list(st.enums) + list(st.structs)):
                full = {q[0] for q in [*want, *st.enums, *st.structs]}
                bad = twin_difference(d, db, lambda q: own(q) and (q[1] is not None or q[0] in full), res, text, ctx.findings, ctx.known)
                if bad:
                    raise Violation("wrong-namespace", f"{what}: {bad[0]}\n{text}")
        if not client.conns[-1].is_open:
            await cm.close()
            conn = None
    if conn is not None:
        await cm.close()


def check_types(st: typing.Any, ns: str, res: typing.Any, what: str) -> None:
    "Enumerations and composite types with the order of their members."
    for label, want, got in (
        ("enumerations", {k[1]: list(v) for k, v in st.enums.items() if k[0] == ns}, {e.name.local_id: list(e.values) for e in res.enums.values()}),
        ("composite types", {k[1]: [m[0] for m in v["members"]] for k, v in st.structs.items() if k[0] == ns}, {s.name.local_id: [m.name.local_id for m in s.members.values()] for s in res.structs.values()}),
    ):
        if got != want:
            raise Violation("wrong-types", f"{what}: {label} {got} instead of {want}")


def trino_explorer(conn: typing.Any) -> typing.Any:
    "The explorer of Trino with the method that it leaves to be defined."
    from pysqlsync.dialect.trino.discovery import TrinoExplorer

    class Concrete(TrinoExplorer):
        async def get_namespace(self, namespace_id: typing.Any) -> typing.Any:
            return await self.get_namespace_qualified(namespace_id)

        async def get_namespace_current(self) -> typing.Any:
            return await self.get_namespace_qualified()

    return Concrete(conn)


def check_table(d: str, st: typing.Any, tab: typing.Any, res: typing.Any, what: str, names: dict) -> None:
    "Keys of a table, independent of the text generated from the model."
    cols = [c.name.local_id for c in res.columns.values()]
    if cols != [c.name for c in tab.live()]:
        raise Violation("wrong-columns", f"{what}: {tab.key}: columns {cols} instead of {[c.name for c in tab.live()]}")
    pk = tab.pk()
    want = (tab.live()[0].name,) if d == "trino" else tuple(tab.cols[n].name for n in pk.cols) if pk else ()
    got = tuple(c.local_id for c in res.primary_key)
    if got != want:
        raise Violation("wrong-key", f"{what}: {tab.key}: primary key {got} instead of {want}")
    for c in tab.live():
        m = res.columns[c.name]
        if bool(m.nullable) == c.notnull:
            raise Violation("wrong-columns", f"{what}: {tab.key}.{c.name}: nullable={m.nullable}")
        if bool(m.identity) != bool(c.identity):
            raise Violation("wrong-columns", f"{what}: {tab.key}.{c.name}: identity={m.identity}")
        if d != "mssql" and (m.description or None) != (c.comment or None):
            raise Violation("wrong-columns", f"{what}: {tab.key}.{c.name}: description {m.description!r} instead of {c.comment!r}")
    if d != "mssql" and (res.description or None) != (tab.comment or None):
        raise Violation("wrong-table", f"{what}: {tab.key}: description {res.description!r} instead of {tab.comment!r}")
    want_f = sorted((c.name, tuple(tab.cols[n].name for n in c.cols), c.ref[1], tuple(st.tables[c.ref].cols[n].name for n in c.refcols)) for c in tab.cons.values() if c.kind == "f")
    got_f = sorted((c.name.local_id, tuple(x.local_id for x in c.foreign_columns), c.reference.table.local_id, tuple(x.local_id for x in c.reference.columns)) for c in res.constraints.values() if hasattr(c, "foreign_columns"))
    for c in res.constraints.values():
        ref = getattr(c, "reference", None)
        ns, name = names.get((tab.key[0], ref.table.local_id), ("", "")) if ref and d in ("mysql", "oracle") else ("", "")
        if ns and (ref.table.namespace, ref.table.id) != (ns, name):
            raise Violation("wrong-key", f"{what}: {tab.key}: foreign key to {ref.table!r} instead of {(ns, name)}")
    # the pairs count, not their order
    norm = lambda f: [(n, t, sorted(zip(a, b))) for n, a, t, b in f]
    if norm(got_f) != norm(want_f):
        raise Violation("wrong-key", f"{what}: {tab.key}: foreign keys {got_f} instead of {want_f}")
    want_u = sorted((c.name, tuple(tab.cols[n].name for n in c.cols)) for c in tab.cons.values() if c.kind == "u")
    got_u = sorted((c.name.local_id, tuple(x.local_id for x in c.unique_columns)) for c in res.constraints.values() if hasattr(c, "unique_columns"))
    if got_u != want_u:
        raise Violation("wrong-key", f"{what}: {tab.key}: unique keys {got_u} instead of {want_u}")


def execute(ctx: Ctx, plan: dict) -> None:
    common.setup_world(ctx, plan)

    async def main() -> None:
        loop = asyncio.get_running_loop()
        tasks = [loop.create_task(client_main(ctx, plan, i, c)) for i, c in enumerate(plan["clients"])]
        for t in tasks:
            await t

    ctx.sim.run(main())
