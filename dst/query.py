"""
Evaluates SELECT statements (catalog queries and plain reads of user tables) of the simulated servers by materialising
the relations they mention in an in-memory SQLite database.
"""

import re
import sqlite3
import typing

from .server import DB, DbError, Result, State, Table
from .sqlparse import SqlSyntax, Tok, tokenize

_REL_KW = {"WHERE", "INNER", "LEFT", "RIGHT", "FULL", "CROSS", "JOIN", "ON", "ORDER", "GROUP", "LIMIT", "UNION", "HAVING", "USING", "OFFSET", "FETCH", "NATURAL", "OUTER", "FOR", "WITH", "AS", "SET"}


# ------------------------------------------------------------------------------------------------ PostgreSQL catalog

_PG_BUILTIN = {
    "boolean": ("bool", 16), "smallint": ("int2", 21), "integer": ("int4", 23), "bigint": ("int8", 20), "decimal": ("numeric", 1700),
    "real": ("float4", 700), "double": ("float8", 701), "text": ("text", 25), "varchar": ("varchar", 1043), "char": ("bpchar", 1042),
    "timestamp": ("timestamp", 1114), "timestamp with time zone": ("timestamptz", 1184), "date": ("date", 1082), "time": ("time", 1083),
    "time with time zone": ("timetz", 1266), "json": ("json", 114), "jsonb": ("jsonb", 3802), "uuid": ("uuid", 2950),
    "bytea": ("bytea", 17), "inet": ("inet", 869), "interval": ("interval", 1186),
}


def _pgq(name: str) -> str:
    return name if re.fullmatch(r"[a-z_][a-z0-9_]*", name) else '"' + name.replace('"', '""') + '"'


def pg_format_type(s: State, ty: tuple) -> str:
    n = ty[0]
    a = ty[1:]
    if n == "array":
        return pg_format_type(s, ty[1]) + "[]"
    if n == "udt":
        ns, name = ty[1]
        return _pgq(name) if ns == s.default_schema else f"{_pgq(ns)}.{_pgq(name)}"
    if n == "varchar":
        return f"character varying({a[0]})" if a else "character varying"
    if n == "char":
        return f"character({a[0]})"
    if n == "decimal":
        return f"numeric({a[0]},{a[1] if len(a) > 1 else 0})" if a else "numeric"
    if n == "double":
        return "double precision"
    if n == "timestamp" or n == "time":
        return f"{n}({a[0]}) without time zone" if a else f"{n} without time zone"
    if n.endswith("with time zone"):
        b = n.split()[0]
        return f"{b}({a[0]}) with time zone" if a else n
    return n


def pg_default(s: State, ty: tuple, e, text: str) -> str:
    if e[0] == "bool":
        return "true" if e[1] else "false"
    if e[0] == "num":
        if e[1].startswith("-"):
            return f"'{e[1]}'::{pg_format_type(s, ty[:1])}"
        return e[1]
    if e[0] == "lit" and isinstance(e[1], str):
        lit = "'" + e[1].replace("'", "''") + "'"
        base = ty[:1] if ty[0] in ("varchar", "char", "decimal") else ty
        return f"{lit}::{pg_format_type(s, base if base[0] != 'char' else ('bpchar',))}"
    return text


def _pg_tables(s: State, db: DB) -> dict[str, tuple[list[str], list[tuple]]]:
    ns = {n: 2000 + i for i, n in enumerate(sorted(s.schemas))}
    ns["pg_catalog"] = 11
    ns["information_schema"] = 12
    types: dict[tuple, int] = {}
    pg_type: list[tuple] = []
    fmts: list[str] = []

    def builtin():
        for name, (tn, oid) in _PG_BUILTIN.items():
            pg_type.append((oid, tn, 11, 0))
            pg_type.append((oid + 100000, "_" + tn, 11, oid))

    builtin()
    for key, oid in s.type_oids.items():
        if key in s.enums or key in s.structs:
            if key[0] not in ns:
                continue
            pg_type.append((oid, key[1], ns[key[0]], 0))
            pg_type.append((oid + 100000, "_" + key[1], ns[key[0]], oid))
    for key, t in s.tables.items():
        pg_type.append((t.oid + 300000, key[1], ns[key[0]], 0))
        pg_type.append((t.oid + 400000, "_" + key[1], ns[key[0]], t.oid + 300000))

    def toid(ty: tuple) -> int:
        if ty[0] == "array":
            return toid(ty[1]) + 100000
        if ty[0] == "udt":
            return s.type_oids[ty[1]]
        return _PG_BUILTIN[ty[0]][1]

    def mod(ty: tuple) -> int:
        fmts.append(pg_format_type(s, ty))
        return len(fmts) - 1

    cls: list[tuple] = [(1259, "pg_class", 11, "r"), (1247, "pg_type", 11, "r"), (13000, "tables", 12, "v"), (13001, "columns", 12, "v")]
    att: list[tuple] = []
    dfl: list[tuple] = []
    dsc: list[tuple] = []
    con: list[tuple] = []
    unn: list[tuple] = []
    conid = 500000
    for key, t in s.tables.items():
        cls.append((t.oid, key[1], ns[key[0]], "r"))
        if t.comment:
            dsc.append((t.oid, 0, t.comment))
        for sysatt, num in (("tableoid", -6), ("cmax", -5), ("ctid", -1)):
            att.append((t.oid, sysatt, num, 26, -1, 1, 0, ""))
        for c in t.cols.values():
            if c.dropped:
                att.append((t.oid, f"........pg.dropped.{c.num}........", c.num, 0, -1, 0, 0, ""))
                continue
            att.append((t.oid, c.name, c.num, toid(c.type), mod(c.type), int(c.notnull), 1 if c.type[0] == "array" else 0, "d" if c.identity else ""))
            if c.default is not None:
                dfl.append((t.oid, c.num, pg_default(s, c.type, c.default, c.default_text or "")))
            if c.comment:
                dsc.append((t.oid, c.num, c.comment))
        for k in t.cons.values():
            conid += 1
            rel = s.tables[k.ref].oid if k.kind == "f" else 0
            con.append((conid, k.kind, k.name, t.oid, rel, conid, conid if k.kind == "f" else None, ns[key[0]]))
            if k.kind != "c":
                for i, n in enumerate(k.cols):
                    unn.append((conid, n, k.refcols[i] if k.kind == "f" else None, i + 1))
            conid += 0
        pk = [k for k in t.cons.values() if k.kind in ("p", "u")]
        for i, k in enumerate(pk):
            cls.append((t.oid + 600000 + i * 100000, k.name, ns[key[0]], "i"))
        for i, c in enumerate(x for x in t.cols.values() if not x.dropped and x.identity):
            cls.append((t.oid + 1600000 + i, f"{key[1]}_{c.name}_seq", ns[key[0]], "S"))
    for key, sv in s.structs.items():
        oid = sv["oid"]
        cls.append((oid, key[1], ns[key[0]], "c"))
        if sv["comment"]:
            dsc.append((s.type_oids[key], 0, sv["comment"]))
        for i, (n, ty, cm) in enumerate(sv["members"]):
            att.append((oid, n, i + 1, toid(ty), mod(ty), 0, 1 if ty[0] == "array" else 0, ""))
            if cm:
                dsc.append((oid, i + 1, cm))
    enum: list[tuple] = []
    for key, vals in s.enums.items():
        for i, v in enumerate(vals):
            enum.append((s.type_oids[key], v, float(i + 1)))
    res = {
        "pg_catalog.pg_namespace": (["oid", "nspname"], [(v, k) for k, v in ns.items()]),
        "pg_catalog.pg_class": (["oid", "relname", "relnamespace", "relkind"], cls),
        "pg_catalog.pg_type": (["oid", "typname", "typnamespace", "typelem"], pg_type),
        "pg_catalog.pg_attribute": (["attrelid", "attname", "attnum", "atttypid", "atttypmod", "attnotnull", "attndims", "attidentity", "attisdropped"],
                                    [(*a, int(a[3] == 0)) for a in att]),
        "pg_catalog.pg_attrdef": (["adrelid", "adnum", "adbin"], dfl),
        "pg_catalog.pg_description": (["objoid", "objsubid", "description"], dsc),
        "pg_catalog.pg_constraint": (["oid", "contype", "conname", "conrelid", "confrelid", "conkey", "confkey", "connamespace"], con),
        "pg_catalog.pg_enum": (["enumtypid", "enumlabel", "enumsortorder"], enum),
        "sim$unnest": (["con", "k", "f", "ord"], unn),
        "sim$fmt": (["i", "t"], list(enumerate(fmts))),
    }
    res.update(_ansi_tables(s, db))
    return res


# ------------------------------------------------------------------------------------------------ information_schema


def _default_text(s: State, c) -> typing.Optional[str]:
    d = s.dialect
    if c.default is None:
        return None
    e = c.default
    if d == "mysql":
        if e[0] == "lit":
            return str(e[1])
        if e[0] == "bool":
            return "1" if e[1] else "0"
        if e[0] == "num":
            if c.type[0] == "decimal":
                import decimal

                return str(decimal.Decimal(e[1]).quantize(decimal.Decimal(1).scaleb(-c.type[2])))
            return e[1]
        if e[0] == "null":
            return None
        return c.default_text
    if d == "mssql":
        if e[0] == "lit":
            return "('" + str(e[1]).replace("'", "''") + "')"
        if e[0] == "num":
            return f"(({e[1]}))"
        if e[0] == "bool":
            return f"(({int(e[1])}))"
        return f"({c.default_text})"
    if d in ("postgresql", "redshift"):
        return pg_default(s, c.type, e, c.default_text or "")
    return c.default_text


_MY_NAME = {"integer": "int"}


def _my_coltype(ty: tuple) -> tuple[str, str]:
    n = ty[0]
    if n == "enum":
        return "enum", "enum(" + ",".join("'" + v.replace("'", "''") + "'" for v in ty[1]) + ")"
    b = _MY_NAME.get(n, n)
    if n == "tinyint":
        return b, "tinyint(1)"
    if n == "decimal":
        return b, f"decimal({ty[1]},{ty[2]})"
    if len(ty) > 1:
        return b, f"{b}({ty[1]})"
    return b, b


def _ansi_row(s: State, c) -> dict:
    d = s.dialect
    n = c.type[0]
    a = c.type[1:]
    out: dict = {"char": None, "prec": None, "scale": None, "dt": None}
    name = n
    if n in ("varchar", "nvarchar", "char", "varbinary", "binary", "varchar2"):
        out["char"] = -1 if a == ("max",) else (a[0] if a else None)
    if n in ("text",) and d == "mysql":
        out["char"] = 65535
    if n == "mediumtext" or n == "mediumblob":
        out["char"] = 16777215
    if n == "longtext" or n == "longblob":
        out["char"] = 4294967295
    if n == "blob" and d == "mysql":
        out["char"] = 65535
    if n in ("tinyint", "smallint", "integer", "bigint"):
        out["prec"] = {"tinyint": 3, "smallint": 5, "integer": 10, "bigint": 19}[n]
        out["scale"] = 0
        name = {"integer": "int"}.get(n, n) if d in ("mysql", "mssql") else n
    if n in ("double", "real", "float"):
        if d == "mssql":
            name = "float" if n == "double" else n
            out["prec"] = 53 if n == "double" else 24
        elif d == "mysql":
            out["prec"] = 22 if n == "double" else 12
        else:
            name = {"double": "double precision"}.get(n, n)
            out["prec"] = 53 if n == "double" else 24
    if n == "decimal":
        if a:
            out["prec"], out["scale"] = a[0], (a[1] if len(a) > 1 else 0)
        name = "decimal" if d in ("mysql", "mssql") else "numeric"
    if n in ("datetime", "datetime2", "time", "timestamp", "time with time zone", "timestamp with time zone"):
        out["dt"] = a[0] if a else {"mysql": 0, "mssql": 3 if n == "datetime" else 7}.get(d, 6)
        if n in ("timestamp", "time") and d in ("postgresql", "redshift"):
            name = n + " without time zone"
    if n == "date" and d == "mssql":
        out["dt"] = 0
    if n == "boolean":
        name = "boolean"
    if n == "array":
        name = "ARRAY"
    if n == "udt":
        name = "USER-DEFINED"
    if n == "varchar" and d in ("postgresql", "redshift"):
        name = "character varying"
    if n == "char" and d in ("postgresql", "redshift"):
        name = "character"
    out["name"] = name
    out["type"] = name
    if d == "mysql":
        out["name"], out["type"] = _my_coltype(c.type)
    return out


def _ansi_tables(s: State, db: DB) -> dict:
    d = s.dialect
    cat = "def" if d == "mysql" else db.database
    tabs, cols, tcs, kcu, refs = [], [], [], [], []
    for (ns, name), t in s.tables.items():
        tabs.append((cat, ns, name, "BASE TABLE", t.comment or ("" if d == "mysql" else None)))
        for i, c in enumerate(t.live()):
            r = _ansi_row(s, c)
            cols.append((cat, ns, name, c.name, i + 1, _default_text(s, c), "NO" if c.notnull else "YES", r["name"], r["char"], r["prec"], r["scale"],
                         r["dt"], r["type"], "auto_increment" if c.identity else "DEFAULT_GENERATED" if d == "mysql" and c.default is not None and c.default[0] not in ("lit", "bool", "num", "null") else "", c.comment or "", "YES" if c.identity else "NO"))
        for k in t.cons.values():
            cn = "PRIMARY" if d == "mysql" and k.kind == "p" else k.name
            tcs.append((cat, ns, cn, cat, ns, name, {"p": "PRIMARY KEY", "u": "UNIQUE", "f": "FOREIGN KEY", "c": "CHECK"}[k.kind]))
            for i, n in enumerate(k.cols):
                rs = rt = rc = None
                if k.kind == "f" and d == "mysql":
                    rs, rt = k.ref
                    rc = s.tables[k.ref].cols[k.refcols[i]].name
                kcu.append((cat, ns, cn, cat, ns, name, t.cols[n].name, i + 1, i + 1 if k.kind == "f" else None, rs, rt, rc))
            if k.kind == "f":
                rtab = s.tables[k.ref]
                uq = next((x for x in rtab.cons.values() if x.kind in ("p", "u") and sorted(x.cols) == sorted(k.refcols)), None)
                un = None if uq is None else "PRIMARY" if d == "mysql" and uq.kind == "p" else uq.name
                refs.append((cat, ns, cn, cat, k.ref[0], un, name, rtab.key[1]))
    return {
        "information_schema.tables": (["table_catalog", "table_schema", "table_name", "table_type", "table_comment"], tabs),
        "information_schema.columns": (
            ["table_catalog", "table_schema", "table_name", "column_name", "ordinal_position", "column_default", "is_nullable", "data_type",
             "character_maximum_length", "numeric_precision", "numeric_scale", "datetime_precision", "column_type", "extra", "column_comment", "is_identity"], cols),
        "information_schema.table_constraints": (
            ["constraint_catalog", "constraint_schema", "constraint_name", "table_catalog", "table_schema", "table_name", "constraint_type"], tcs),
        "information_schema.key_column_usage": (
            ["constraint_catalog", "constraint_schema", "constraint_name", "table_catalog", "table_schema", "table_name", "column_name", "ordinal_position",
             "position_in_unique_constraint", "referenced_table_schema", "referenced_table_name", "referenced_column_name"], kcu),
        "information_schema.referential_constraints": (
            ["constraint_catalog", "constraint_schema", "constraint_name", "unique_constraint_catalog", "unique_constraint_schema", "unique_constraint_name",
             "table_name", "referenced_table_name"], refs),
        "information_schema.schemata": (["catalog_name", "schema_name"], [(cat, n) for n in s.schemas]),
    }


def _mssql_tables(s: State, db: DB) -> dict:
    ids = {n: i + 1 for i, n in enumerate(sorted(s.schemas))}
    tabs, cols, dfs, fks = [], [], [], []
    obj = 900000
    for (ns, name), t in s.tables.items():
        tabs.append((t.oid, name, ids[ns], int(name.startswith("spt_"))))
        for c in t.live():
            dobj = 0
            if c.default is not None:
                obj += 1
                dobj = obj
                dfs.append((dobj, c.dfname or f"DF__auto__{obj}", t.oid, c.num, _default_text(s, c)))
            cols.append((t.oid, c.name, c.num, int(c.identity), dobj, int(not c.notnull)))
        for k in t.cons.values():
            if k.kind == "f":
                obj += 1
                fks.append((obj, k.name, t.oid, s.tables[k.ref].oid, ids[ns]))
    res = _ansi_tables(s, db)
    res.update({
        "sys.schemas": (["schema_id", "name"], [(v, k) for k, v in ids.items()]),
        "sys.tables": (["object_id", "name", "schema_id", "is_ms_shipped"], tabs),
        "sys.columns": (["object_id", "name", "column_id", "is_identity", "default_object_id", "is_nullable"], cols),
        "sys.default_constraints": (["object_id", "name", "parent_object_id", "parent_column_id", "definition"], dfs),
        "sys.foreign_keys": (["object_id", "name", "parent_object_id", "referenced_object_id", "schema_id"], fks),
    })
    return res


def _oracle_type(ty: tuple) -> tuple:
    "data_type, data_length, precision, scale, char_length"
    n = ty[0]
    a = ty[1:]
    if n == "number" or n == "decimal":
        return ("NUMBER", 22, a[0] if a else None, (a[1] if len(a) > 1 else 0) if a else None, 0)
    if n in ("smallint", "integer"):
        return ("NUMBER", 22, None, 0, 0)
    if n in ("varchar2", "char"):
        return ("VARCHAR2" if n == "varchar2" else "CHAR", a[0] * 1, None, None, a[0])
    if n == "clob" or n == "blob":
        return (n.upper(), 4000, None, None, 0)
    if n == "raw":
        return ("RAW", a[0], None, None, 0)
    if n == "timestamp":
        return (f"TIMESTAMP({a[0] if a else 6})", 11, None, a[0] if a else 6, 0)
    if n == "timestamp with time zone":
        return (f"TIMESTAMP({a[0] if a else 6}) WITH TIME ZONE", 13, None, a[0] if a else 6, 0)
    if n == "date":
        return ("DATE", 7, None, None, 0)
    if n == "interval day to second":
        return ("INTERVAL DAY(2) TO SECOND(6)", 11, 2, 6, 0)
    if n == "double":
        return ("FLOAT", 22, 126, None, 0)
    if n == "real":
        return ("FLOAT", 22, 63, None, 0)
    if n == "float":
        return ("FLOAT", 22, a[0] if a else 126, None, 0)
    if n == "boolean":
        return ("BOOLEAN", 1, None, None, 0)
    return (n.upper(), 0, None, None, 0)


def _oracle_tables(s: State, db: DB) -> dict:
    tabs, tcom, cols, ccom, cons, ccol = [], [], [], [], [], []
    tabs.append(("SYS", "OBJ$", "SYSTEM", "VALID", "N", "N", "NO", "NO"))
    sysno = 8000
    for (ns, name), t in s.tables.items():
        tabs.append((ns, name, "USERS", "VALID", "N", "N", "NO", "NO"))
        tcom.append((ns, name, t.comment))
        for i, c in enumerate(t.live()):
            dt, ln, pr, sc, cl = _oracle_type(c.type)
            dflt = '"APP"."ISEQ$$_%d".nextval' % t.oid if c.identity else c.default_text if c.default is not None else None
            cols.append((ns, name, c.name, dt, None, ln, pr, sc, "N" if c.notnull else "Y", dflt, cl, "YES" if c.identity else "NO", i + 1))
            ccom.append((ns, name, c.name, c.comment))
            if c.notnull:
                sysno += 1
                cons.append((ns, f"SYS_C00{sysno}", "C", name, None, None, "ENABLED"))
                ccol.append((ns, f"SYS_C00{sysno}", name, c.name, None))
        for k in t.cons.values():
            ro = rn = None
            if k.kind == "f":
                rt = s.tables[k.ref]
                ro = k.ref[0]
                rn = next(x.name for x in rt.cons.values() if x.kind in ("p", "u") and sorted(x.cols) == sorted(k.refcols))
            cons.append((ns, k.name, {"p": "P", "u": "U", "f": "R", "c": "C"}[k.kind], name, ro, rn, "ENABLED"))
            for i, n in enumerate(k.cols):
                ccol.append((ns, k.name, name, t.cols[n].name, i + 1))
    out: dict = {}
    views = {
        "tables": (["owner", "table_name", "tablespace_name", "status", "temporary", "secondary", "dropped", "read_only"], tabs),
        "tab_comments": (["owner", "table_name", "comments"], tcom),
        "tab_columns": (["owner", "table_name", "column_name", "data_type", "data_type_owner", "data_length", "data_precision", "data_scale", "nullable",
                         "data_default", "char_length", "identity_column", "column_id"], cols),
        "col_comments": (["owner", "table_name", "column_name", "comments"], ccom),
        "constraints": (["owner", "constraint_name", "constraint_type", "table_name", "r_owner", "r_constraint_name", "status"], cons),
        "cons_columns": (["owner", "constraint_name", "table_name", "column_name", "position"], ccol),
    }
    for v, (c, rows) in views.items():
        out[f"dba_{v}"] = (c, rows)
        out[f"all_{v}"] = (c, rows)
        out[f"user_{v}"] = (c[1:], [r[1:] for r in rows if r[0] == s.default_schema])
    out["dual"] = (["dummy"], [("X",)])
    return out


def _trino_tables(s: State, db: DB) -> dict:
    res = _ansi_tables(s, db)
    cols = res["information_schema.columns"]
    keep = ["table_catalog", "table_schema", "table_name", "column_name", "ordinal_position", "column_default", "is_nullable", "data_type"]
    rows = []
    for r in cols[1]:
        m = dict(zip(cols[0], r))
        rows.append(tuple(m[k] for k in keep))
    return {
        "information_schema.tables": (res["information_schema.tables"][0][:4], [r[:4] for r in res["information_schema.tables"][1]]),
        "information_schema.columns": (keep, rows),
        "information_schema.schemata": res["information_schema.schemata"],
    }


def catalog(s: State, db: DB) -> dict:
    d = s.dialect
    if d in ("postgresql", "redshift"):
        return _pg_tables(s, db)
    if d == "mssql":
        return _mssql_tables(s, db)
    if d == "oracle":
        return _oracle_tables(s, db)
    if d == "trino":
        return _trino_tables(s, db)
    return _ansi_tables(s, db)


# ------------------------------------------------------------------------------------------------ evaluation


class _Eval:
    "One SQLite database per server state version, filled on demand."

    def __init__(self, s: State, db: DB):
        self.s = s
        self.db = db
        self.conn = sqlite3.connect(":memory:", check_same_thread=False)
        self.conn.execute("PRAGMA case_sensitive_like=ON")
        self.conn.setconfig(sqlite3.SQLITE_DBCONFIG_DQS_DML, False)
        self.cat: typing.Optional[dict] = None
        self.loaded: set[str] = set()
        self.handles: list = []
        d = s.dialect
        ids = {n: i + 1 for i, n in enumerate(sorted(s.schemas))}
        f = self.conn.create_function
        f("DATABASE", 0, lambda: db.database)
        f("CURRENT_SCHEMA", 0, lambda: s.default_schema)
        f("SCHEMA_NAME", -1, lambda *a: s.default_schema if not a else next((n for n, i in ids.items() if i == a[0]), None))
        f("SCHEMA_ID", -1, lambda *a: ids.get(a[0] if a else s.default_schema))
        f("SYS_CONTEXT", 2, lambda a, b: s.default_schema if b.upper() in ("CURRENT_SCHEMA", "SESSION_USER") else None)
        f("format_type", 2, self._format_type)
        f("pg_get_expr", -1, lambda a, *r: a)
        f("quote_ident", 1, _pgq)
        if d == "mysql":
            f("CONCAT", -1, lambda *a: None if any(x is None for x in a) else "".join(str(x) for x in a))
        else:
            f("CONCAT", -1, lambda *a: "".join("" if x is None else str(x) for x in a))

    def _format_type(self, oid, m):
        assert self.cat is not None
        rows = self.cat["sim$fmt"][1]
        if m is None or m < 0 or m >= len(rows):
            return None
        return rows[m][1]

    def catalog(self) -> dict:
        if self.cat is None:
            self.cat = catalog(self.s, self.db)
        return self.cat

    def enc(self, v):
        if v is None or (isinstance(v, (int, float, str, bytes)) and not isinstance(v, bool)):
            if isinstance(v, int) and not -(2**63) <= v < 2**63:
                pass
            else:
                return v
        self.handles.append(v)
        return f"\x00h{len(self.handles) - 1}"

    def dec(self, v):
        if isinstance(v, str) and v.startswith("\x00h"):
            return self.handles[int(v[2:])]
        return v

    def load(self, name: str, columns: list[str], rows: list[tuple]) -> None:
        if name in self.loaded:
            return
        self.loaded.add(name)
        if name.startswith("cat$") and self.s.dialect in ("mysql", "oracle"):
            columns = [c.upper() for c in columns]  # the catalogs of these servers have upper-case column names
        q = lambda n: '"' + n.replace('"', '""') + '"'
        self.conn.execute(f"CREATE TABLE {q(name)} ({', '.join(q(c) for c in columns)})")
        if rows:
            self.conn.executemany(f"INSERT INTO {q(name)} VALUES ({','.join('?' * len(columns))})", [tuple(self.enc(v) for v in r) for r in rows])

    def relation(self, parts: list[tuple[str, str]]) -> str:
        "Materialises the relation and returns its mangled name."
        s = self.s
        d = s.dialect
        names = [p[1] for p in parts]
        low = [n.lower() for n in names]
        cat = self.catalog()
        if len(low) == 3 and low[0] == self.db.database.lower():
            low, names = low[1:], names[1:]
        key = ".".join(low)
        quoted_key = any(p[0] == "id" for p in parts)
        cands = [key]
        if d in ("postgresql", "redshift") and len(low) == 1:
            cands.append("pg_catalog." + key)
        if d == "oracle" and len(low) == 2 and low[0] == "sys":
            cands.append(low[1])
        for c in cands:
            if c in cat and not (quoted_key and names[-1] != names[-1].lower()):
                self.load("cat$" + c, *cat[c])
                return "cat$" + c
        # user table
        def fold(p):
            k, n = p
            if k == "id":
                return n
            if d in ("postgresql", "redshift", "trino"):
                return n.lower()
            if d == "oracle":
                return n.upper()
            return n

        folded = [fold(p) for p in parts]
        ns, tn = (s.default_schema, folded[-1]) if len(folded) == 1 else (folded[-2], folded[-1])
        t: typing.Optional[Table] = s.tables.get((ns, tn))
        if t is None:
            raise DbError("undefined_table", f'relation "{".".join(names)}" does not exist')
        live = t.live()
        m = f"tab${ns}${tn}"
        self.load(m, [c.name for c in live], [tuple(r.get(c.num) for c in live) for r in t.rows])
        return m

    # -- rewriting
    def rewrite(self, sql: str, params) -> str:
        d = self.s.dialect
        try:
            toks = tokenize(sql, d)
        except SqlSyntax as e:
            raise DbError("syntax", str(e))
        out: list[str] = []
        i = 0
        n = len(toks)
        q = lambda x: '"' + x.replace('"', '""') + '"'

        def word(k: int) -> str:
            return toks[k].val.upper() if 0 <= k < n and toks[k].kind == "word" else ""

        def op(k: int) -> str:
            return toks[k].val if 0 <= k < n and toks[k].kind == "op" else ""

        expect_rel = False
        depth_from: list[bool] = [False]
        while i < n:
            t = toks[i]
            if t.kind == "word":
                w = t.val.upper()
                if w in ("FROM", "JOIN"):
                    out.append(w)
                    expect_rel = True
                    depth_from[-1] = True
                    i += 1
                    if w == "FROM" and word(i) == "LATERAL":
                        i += 1
                    if word(i) == "LATERAL":
                        i += 1
                    continue
                if w in ("WHERE", "GROUP", "ORDER", "HAVING", "LIMIT", "UNION"):
                    depth_from[-1] = False
                if expect_rel and w == "UNNEST":
                    i = self._unnest(toks, i, out, q)
                    expect_rel = False
                    continue
            if t.kind == "op" and t.val == "," and depth_from[-1]:
                out.append(",")
                i += 1
                if word(i) == "LATERAL":
                    i += 1
                expect_rel = True
                continue
            if expect_rel and t.kind in ("word", "id"):
                parts = [(t.kind, t.val)]
                i += 1
                while op(i) == "." and i + 1 < n and toks[i + 1].kind in ("word", "id"):
                    parts.append((toks[i + 1].kind, toks[i + 1].val))
                    i += 2
                out.append(q(self.relation(parts)))
                expect_rel = False
                has_alias = word(i) == "AS" or (i < n and (toks[i].kind == "id" or (toks[i].kind == "word" and word(i) not in _REL_KW)))
                if not has_alias:
                    out.append("AS " + q(parts[-1][1]))
                continue
            expect_rel = False
            if t.kind == "op":
                if t.val == "(":
                    depth_from.append(False)
                elif t.val == ")" and len(depth_from) > 1:
                    depth_from.pop()
                if t.val == "::":
                    # skip the type of a cast
                    i += 1
                    while i < n and (toks[i].kind in ("word", "id") or op(i) in (".", "[", "]")):
                        i += 1
                        if word(i) in ("AS", "FROM", "AND", "OR", "WHERE", "ORDER", "THEN", "ELSE", "END", "IN", "IS", "JOIN", "INNER", "LEFT", "ON"):
                            break
                    continue
                if t.val == ";":
                    i += 1
                    continue
                out.append(t.val)
            elif t.kind == "str":
                out.append("'" + t.val.replace("'", "''") + "'")
            elif t.kind == "id":
                out.append(q(t.val))
            elif t.kind == "num":
                out.append(t.val)
            elif t.kind == "param":
                if params is None or t.val >= len(params):
                    raise DbError("param_count", "missing parameter")
                v = params[t.val]
                if v is None:
                    out.append("NULL")
                elif isinstance(v, bool):
                    out.append(str(int(v)))
                elif isinstance(v, (int, float)):
                    out.append(repr(v))
                else:
                    out.append("'" + str(v).replace("'", "''") + "'")
            else:
                w = t.val.upper()
                if w in ("PG_CATALOG", "INFORMATION_SCHEMA") and op(i + 1) == "." and op(i + 3) == "(":
                    i += 2
                    continue
                if w == "CURRENT_SCHEMA" and op(i + 1) != "(":
                    out.append("CURRENT_SCHEMA()")
                elif w in ("TRUE", "FALSE"):
                    out.append("1" if w == "TRUE" else "0")
                elif word(i - 1) == "AS":
                    # the name of a result column that is not quoted is folded
                    out.append(w if d == "oracle" else t.val.lower() if d in ("postgresql", "redshift", "trino") else t.val)
                else:
                    out.append(t.val)
            i += 1
        s = ""
        for piece in out:
            if piece == "." or piece == "(" or s.endswith(".") or s.endswith("("):
                s += piece
            else:
                s += " " + piece
        return s.strip().replace("@@VERSION", "'simulated'").replace("@ @ VERSION", "'simulated'")

    def _unnest(self, toks: list[Tok], i: int, out: list[str], q) -> int:
        "UNNEST(a.conkey[, a.confkey]) [WITH ORDINALITY] AS x(c1[, c2[, c3]])"
        n = len(toks)
        j = i + 2
        args: list[list[str]] = [[]]
        while toks[j].val != ")":
            if toks[j].val == ",":
                args.append([])
            elif toks[j].val != ".":
                args[-1].append(toks[j].val)
            j += 1
        j += 1
        ordn = False
        if j + 1 < n and str(toks[j].val).upper() == "WITH" and str(toks[j + 1].val).upper() == "ORDINALITY":
            ordn = True
            j += 2
        if j < n and toks[j].kind == "word" and toks[j].val.upper() == "AS":
            j += 1
        alias = toks[j].val
        j += 1
        names: list[str] = []
        if j < n and toks[j].val == "(":
            j += 1
            while toks[j].val != ")":
                if toks[j].val != ",":
                    names.append(toks[j].val)
                j += 1
            j += 1
        src = {"conkey": "k", "confkey": "f"}
        fields = []
        for k, a in enumerate(args):
            col = src.get(a[-1].lower())
            if col is None:
                raise DbError("syntax", f"cannot unnest {a}")
            fields.append((col, names[k] if k < len(names) else f"unnest{k}"))
        if ordn:
            fields.append(("ord", names[len(args)] if len(names) > len(args) else "ordinality"))
        self.load("cat$sim$unnest", *self.catalog()["sim$unnest"])
        sel = ", ".join(f"{c} AS {q(nm)}" for c, nm in fields)
        cname = q(args[0][0]) if len(args[0]) > 1 else q("con")
        prev = out[-2:] if len(out) >= 2 else []
        cond = f"{q(alias)}.sim_con = {cname}.oid"
        # a lateral join always has the constraint row in scope; express it as an ordinary join condition
        while out and out[-1].strip().upper() in ("JOIN", "CROSS", "LATERAL", ",", "INNER", "LEFT"):
            out.pop()
        del prev
        out.append(f"JOIN (SELECT con AS sim_con, {sel} FROM {q('cat$sim$unnest')}) AS {q(alias)} ON {cond}")
        if j < n and toks[j].kind == "word" and toks[j].val.upper() == "ON":
            out.append("AND")
            j += 1
        return j

    def run(self, sql: str, params) -> Result:
        text = self.rewrite(sql, params)
        try:
            cur = self.conn.execute(text)
            rows = cur.fetchall()
        except sqlite3.OperationalError as e:
            m = str(e)
            kind = "undefined_column" if "no such column" in m else "undefined_table" if "no such table" in m else "syntax"
            raise DbError(kind, f"{m} [{text}]")
        except (sqlite3.Error, sqlite3.Warning) as e:
            raise DbError("syntax", f"{e} [{text}]")
        names = [c[0] for c in cur.description or []]
        if self.s.dialect == "redshift":
            names = [c.lower() for c in names]
        conv: list[typing.Optional[typing.Callable]] = []
        d = self.s.dialect
        low = sql.lower()
        for k, nm in enumerate(names):
            f = None
            if nm.lower().startswith("is_") and d in ("postgresql", "redshift", "oracle") and all(r[k] in (0, 1, None) for r in rows):
                f = lambda v: None if v is None else bool(v)
            elif d == "postgresql" and "contype" in low and rows and all(r[k] in ("p", "u", "f", "c") for r in rows):
                f = lambda v: v.encode()
            conv.append(f)
        res = []
        for r in rows:
            res.append(tuple(self.dec(v) if f is None else f(v) for v, f in zip(r, conv)))
        return Result(len(res), names, res)


_ORDER = re.compile(r"\border\s+by\b", re.I)


def run_select(db: DB, state: State, sql: str, params=None) -> Result:
    cache = db._view_cache
    key = getattr(state, "version", None)
    ev = cache.get(key) if key is not None else None
    if ev is None or ev.s is not state:
        ev = _Eval(state, db)
        if len(cache) > 6:
            for old in list(cache):
                cache.pop(old).conn.close()
        if key is not None:
            cache[key] = ev
    return ev.run(sql, params)
