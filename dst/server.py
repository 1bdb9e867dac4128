"""
Simulated database servers: an executable model of the catalog, the constraints, the transactions and the durable state
of PostgreSQL, MySQL, SQL Server, Oracle and Redshift as far as pysqlsync's statements reach.
"""

import copy
import datetime
import decimal
import ipaddress
import re
import typing
import uuid

from .sim import SimHarnessError
from .sqlparse import parse_script


class DbError(Exception):
    "An error reported by the simulated server."

    def __init__(self, kind: str, message: str):
        super().__init__(message)
        self.kind = kind
        self.message = message


class Col:
    __slots__ = ("num", "name", "type", "notnull", "default", "default_text", "identity", "comment", "dropped", "dfname")

    def __init__(self, num, name, type, notnull=False, default=None, default_text=None, identity=False, comment=None, dfname=None):
        self.num = num
        self.name = name
        self.type = type
        self.notnull = notnull
        self.default = default
        self.default_text = default_text
        self.identity = identity
        self.comment = comment
        self.dropped = False
        self.dfname = dfname

    def clone(self):
        return copy.copy(self)


class Con:
    "Constraint: kind p(rimary), u(nique), f(oreign), c(heck)."

    __slots__ = ("kind", "name", "cols", "ref", "refcols", "expr", "text")

    def __init__(self, kind, name, cols, ref=None, refcols=None, expr=None, text=None):
        self.kind = kind
        self.name = name
        self.cols = cols
        self.ref = ref
        self.refcols = refcols
        self.expr = expr
        self.text = text


class Table:
    def __init__(self, key: tuple, oid: int):
        self.key = key
        self.oid = oid
        self.cols: dict[int, Col] = {}
        self.next_num = 1
        self.cons: dict[str, Con] = {}
        self.rows: list[dict[int, typing.Any]] = []
        self.seq = 1
        self.comment: typing.Optional[str] = None

    def clone(self) -> "Table":
        t = Table(self.key, self.oid)
        t.cols = {k: c.clone() for k, c in self.cols.items()}
        t.next_num = self.next_num
        t.cons = dict(self.cons)
        t.rows = [dict(r) for r in self.rows]
        t.seq = self.seq
        t.comment = self.comment
        return t

    def live(self) -> list[Col]:
        return [c for c in self.cols.values() if not c.dropped]

    def col(self, name: str) -> Col:
        for c in self.cols.values():
            if not c.dropped and c.name == name:
                return c
        raise DbError("undefined_column", f"column {name!r} of {self.key} does not exist")

    def has(self, name: str) -> bool:
        return any(not c.dropped and c.name == name for c in self.cols.values())

    def pk(self) -> typing.Optional[Con]:
        for c in self.cons.values():
            if c.kind == "p":
                return c
        return None

    def named_rows(self) -> list[dict[str, typing.Any]]:
        live = self.live()
        return [{c.name: r.get(c.num) for c in live} for r in self.rows]


class State:
    def __init__(self, dialect: str, default_schema: str):
        self.dialect = dialect
        self.default_schema = default_schema
        self.schemas: dict[str, int] = {default_schema: 1}
        self.tables: dict[tuple, Table] = {}
        self.enums: dict[tuple, list[str]] = {}
        self.structs: dict[tuple, dict] = {}  # key -> {"members": [[name,type,comment]], "comment":, "oid":}
        self.type_oids: dict[tuple, int] = {}
        self.next_oid = 20000
        self.version: typing.Any = None

    def clone(self) -> "State":
        s = State(self.dialect, self.default_schema)
        s.schemas = dict(self.schemas)
        s.tables = {k: t.clone() for k, t in self.tables.items()}
        s.enums = {k: list(v) for k, v in self.enums.items()}
        s.structs = copy.deepcopy(self.structs)
        s.type_oids = dict(self.type_oids)
        s.next_oid = self.next_oid
        return s

    def oid(self) -> int:
        self.next_oid += 1
        return self.next_oid

    # -- types
    def norm_type(self, ty: tuple) -> tuple:
        d = self.dialect
        n = ty[0]
        a = ty[1:]
        if n == "array":
            if d not in ("postgresql",):
                raise DbError("syntax", "array types are not supported")
            return ("array", self.norm_type(a[0]))
        if n == "udt":
            q = a[0]
            if d not in ("postgresql", "redshift"):
                raise DbError("undefined_type", f"unknown type {q}")
            key = (q[0] or self.default_schema, q[1])
            if key in self.enums or key in self.structs:
                return ("udt", key)
            raise DbError("undefined_type", f"type {key} does not exist")
        pg = d in ("postgresql", "redshift")
        if n in ("boolean", "bool"):
            if d == "mssql":
                raise DbError("undefined_type", "boolean")
            return ("tinyint",) if d == "mysql" else ("boolean",)
        if n == "bit":
            return ("bit",)
        if n == "tinyint":
            if pg:
                raise DbError("undefined_type", "tinyint")
            return ("tinyint",)
        if n in ("smallint", "int2"):
            return ("smallint",)
        if n in ("integer", "int", "int4"):
            return ("integer",)
        if n in ("bigint", "int8"):
            if d == "oracle":
                raise DbError("undefined_type", "bigint")
            return ("bigint",)
        if n in ("decimal", "numeric", "number"):
            if n == "number" and d != "oracle":
                raise DbError("undefined_type", "number")
            if d == "oracle":
                return ("number", *a)
            if d == "mysql" or d == "mssql":
                return ("decimal", *(a if len(a) == 2 else (a[0], 0) if a else ((10, 0) if d == "mysql" else (18, 0))))
            return ("decimal", *a)
        if n in ("real", "double precision", "double", "float"):
            if d == "mysql":
                return ("double",) if n != "float" or (a and a[0] > 24) else ("float",)
            if n == "double" and pg is False and d != "mysql":
                raise DbError("undefined_type", "double")
            if n == "float":
                p = a[0] if a else 53
                return ("real",) if p <= 24 else ("double",)
            return ("real",) if n == "real" else ("double",)
        if n in ("text", "clob", "mediumtext", "longtext"):
            if n in ("mediumtext", "longtext") and d != "mysql" or n == "clob" and d != "oracle":
                raise DbError("undefined_type", n)
            if n == "text" and d == "oracle":
                raise DbError("undefined_type", n)
            if n == "text" and d == "mssql":
                return ("varchar", "max")
            return (n,)
        if n in ("varchar", "varchar2", "nvarchar"):
            if n == "varchar2" and d != "oracle":
                raise DbError("undefined_type", n)
            if d in ("mysql", "oracle") and not a:
                raise DbError("syntax", "varchar needs a length")
            if d == "mssql" and not a:
                return (n, 1)
            if d == "oracle":
                return ("varchar2", *a)
            if pg and not a:
                return ("text",) if d == "redshift" else ("varchar",)
            return (n, *a)
        if n in ("char", "character"):
            return ("char", *(a or (1,)))
        if n == "datetime":
            if d not in ("mysql", "mssql"):
                raise DbError("undefined_type", n)
            return ("datetime", *(a if a and a[0] else ()))
        if n == "datetime2":
            if d != "mssql":
                raise DbError("undefined_type", n)
            return ("datetime2",)
        if n in ("timestamp", "timestamp with time zone"):
            if d == "mssql":
                raise DbError("undefined_type", n)
            if d == "oracle" and a == (6,):
                a = ()
            return (n, *a)
        if n in ("time", "time with time zone"):
            if d == "oracle":
                raise DbError("undefined_type", n)
            if d == "mssql" and a == (7,):
                a = ()
            return (n, *a)
        if n == "interval day to second":
            if d != "oracle":
                raise DbError("undefined_type", n)
            return (n,)
        if n == "date":
            return (n,)
        if n == "enum":
            if d != "mysql":
                raise DbError("undefined_type", n)
            return ty
        if n in ("binary", "varbinary", "raw", "blob", "mediumblob", "longblob", "bytea"):
            if n == "raw" and d != "oracle" or n == "bytea" and not pg or n in ("binary",) and d not in ("mysql", "mssql"):
                raise DbError("undefined_type", n)
            if n == "blob" and pg:
                raise DbError("undefined_type", n)
            return (n, *a)
        if n in ("uuid", "inet", "jsonb"):
            if d != "postgresql":
                raise DbError("undefined_type", n)
            return (n,)
        if n == "json":
            if d not in ("postgresql", "mysql"):
                raise DbError("undefined_type", n)
            return (n,)
        if n == "interval" and pg:
            return (n,)
        if n == "varbyte" and d == "redshift":
            return (n, *a)
        raise DbError("undefined_type", f"unknown type {n}")


# ---------------------------------------------------------------------------------------------- value conversion

_INT_RANGE = {"smallint": 2**15, "integer": 2**31, "bigint": 2**63}


def _bad(value, ty) -> DbError:
    return DbError("data", f"invalid value {value!r} for type {ty}")


def parse_datetime(s: str) -> datetime.datetime:
    return datetime.datetime.fromisoformat(s.strip())


# settings of the session whose statement is being executed (none: those that suit any client)
SETTINGS: dict = {}


def coerce(state: State, ty: tuple, v, *, literal: bool = False):
    """
    Converts a value bound by a driver (or a SQL literal when `literal`) to what the column stores.
    """

    if v is None:
        return None
    if not SETTINGS.get("strict", True):
        try:
            return _coerce(state, ty, v, literal)
        except DbError:
            return _adjusted(ty, v)  # with a warning that nobody reads
    if state.dialect == "oracle" and SETTINGS and type(v) is str and ty[0] in ("timestamp", "timestamp with time zone", "date"):
        fmt = SETTINGS[ty[0].split()[0]]
        if not fmt.startswith("YYYY-MM-DD HH24:MI:SS") or "." in v and "FF" not in fmt:
            raise DbError("data", f"ORA-01843: {v!r} does not match {fmt}")
    return _coerce(state, ty, v, literal)


def _adjusted(ty: tuple, v):
    "What MySQL stores instead of an invalid value outside strict mode."
    n = ty[0]
    if n in _INT_RANGE or n == "tinyint":
        r = _INT_RANGE.get(n, 128)
        try:
            return max(-r, min(r - 1, int(v)))
        except (ValueError, TypeError):
            return 0
    if n in ("real", "double", "float", "decimal", "boolean"):
        return 0
    if n == "enum":
        return ""
    if isinstance(v, (str, bytes)) and len(ty) > 1 and isinstance(ty[1], int):
        return v[:ty[1]]
    return {"date": datetime.date(1, 1, 1), "time": datetime.time()}.get(n, datetime.datetime(1, 1, 1) if n.startswith(("date", "timestamp")) else "")


def _coerce(state: State, ty: tuple, v, literal: bool):
    d = state.dialect
    pg = d == "postgresql"
    strict = pg and not literal
    n = ty[0]
    if n == "boolean" or n == "bit":
        if isinstance(v, bool):
            return v
        if strict:
            raise _bad(v, ty)
        if isinstance(v, int) and v in (0, 1):
            return bool(v)
        if isinstance(v, str) and v.lower() in ("true", "false", "t", "f", "0", "1"):
            return v.lower() in ("true", "t", "1")
        raise _bad(v, ty)
    if n in ("tinyint", "smallint", "integer", "bigint") or (n == "number" and len(ty) == 1):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, float) and not strict and v == int(v):
            v = int(v)
        if isinstance(v, decimal.Decimal) and not strict and v == int(v):
            v = int(v)
        if isinstance(v, str) and not strict:
            try:
                v = int(v)
            except ValueError:
                if n == "number":
                    try:
                        v = decimal.Decimal(v)
                    except decimal.InvalidOperation:
                        raise _bad(v, ty)
                else:
                    raise _bad(v, ty)
        if n == "number" and isinstance(v, (float, decimal.Decimal)):
            return v
        if not isinstance(v, int):
            raise _bad(v, ty)
        if n == "tinyint":
            lo, hi = (0, 255) if d == "mssql" else (-128, 127)
            if not lo <= v <= hi:
                raise _bad(v, ty)
        elif n in _INT_RANGE:
            r = _INT_RANGE[n]
            if not -r <= v < r:
                raise _bad(v, ty)
        return v
    if n in ("real", "double", "float"):
        if isinstance(v, (int, float, decimal.Decimal)) and not isinstance(v, bool):
            return float(v)
        if isinstance(v, str) and not strict:
            try:
                return float(v)
            except ValueError:
                pass
        raise _bad(v, ty)
    if n in ("decimal", "number"):
        if isinstance(v, (int, float, decimal.Decimal, str)) and not isinstance(v, bool):
            if isinstance(v, str) and strict:
                raise _bad(v, ty)
            try:
                x = decimal.Decimal(str(v) if isinstance(v, float) else v)
            except decimal.InvalidOperation:
                raise _bad(v, ty)
            if len(ty) == 3:
                q = x.quantize(decimal.Decimal(1).scaleb(-ty[2]), rounding=decimal.ROUND_HALF_UP)
                if len(q.as_tuple().digits) + q.as_tuple().exponent > ty[1] - ty[2] and q != 0:
                    raise _bad(v, ty)
                return q
            return x
        raise _bad(v, ty)
    if n in ("text", "clob", "mediumtext", "longtext", "varchar", "varchar2", "nvarchar", "char", "json", "jsonb"):
        if isinstance(v, (bytes, bytearray)) and not strict:
            try:
                v = bytes(v).decode("utf-8")
            except UnicodeDecodeError:
                raise _bad(v, ty)
        if not isinstance(v, str):
            if strict or isinstance(v, (list, dict, set)):
                raise _bad(v, ty)
            v = str(v)
        if pg and "\0" in v:
            raise _bad(v, ty)
        if n in ("varchar", "varchar2", "nvarchar", "char") and len(ty) > 1 and ty[1] != "max" and len(v) > ty[1]:
            raise DbError("too_long", f"value too long for type {ty}")
        if n in ("json", "jsonb"):
            import json

            try:
                json.loads(v)
            except ValueError:
                raise _bad(v, ty)
        if d == "oracle" and v == "":
            return None
        return v
    if n in ("timestamp", "datetime", "datetime2", "timestamp with time zone"):
        if isinstance(v, str) and not strict:
            try:
                v = parse_datetime(v)
            except ValueError:
                raise _bad(v, ty)
        if not isinstance(v, datetime.datetime):
            if isinstance(v, datetime.date) and not strict:
                v = datetime.datetime(v.year, v.month, v.day)
            else:
                raise _bad(v, ty)
        if n != "timestamp with time zone" and v.tzinfo is not None:
            if pg:
                raise _bad(v, ty)
            v = v.replace(tzinfo=None)
        if d == "mysql" and len(ty) == 1:
            if v.microsecond >= 500000:
                v = v.replace(microsecond=0) + datetime.timedelta(seconds=1)
            v = v.replace(microsecond=0)
        return v
    if n == "date":
        if isinstance(v, str) and not strict:
            try:
                v = parse_datetime(v)
            except ValueError:
                raise _bad(v, ty)
        if isinstance(v, datetime.datetime):
            if strict:
                return v.date()
            return v.date()
        if not isinstance(v, datetime.date):
            raise _bad(v, ty)
        return v
    if n in ("time", "time with time zone"):
        if isinstance(v, str) and not strict:
            try:
                v = datetime.time.fromisoformat(v)
            except ValueError:
                raise _bad(v, ty)
        if isinstance(v, datetime.timedelta) and d == "mysql":
            v = (datetime.datetime.min + v).time()
        if not isinstance(v, datetime.time):
            raise _bad(v, ty)
        if d == "mysql":
            v = v.replace(microsecond=0)
        return v
    if n in ("interval day to second", "interval"):
        if not isinstance(v, datetime.timedelta):
            raise _bad(v, ty)
        return v
    if n == "enum":
        if isinstance(v, int) and not isinstance(v, bool):
            raise _bad(v, ty)
        if not isinstance(v, str) or v not in ty[1]:
            raise DbError("data", f"data truncated: {v!r} is not in {ty}")
        return v
    if n in ("binary", "varbinary", "raw", "blob", "mediumblob", "longblob", "bytea", "varbyte"):
        if not isinstance(v, (bytes, bytearray)):
            raise _bad(v, ty)
        v = bytes(v)
        if len(ty) > 1 and len(v) > ty[1]:
            raise DbError("too_long", f"value too long for type {ty}")
        if n == "binary" and len(ty) > 1:
            v = v.ljust(ty[1], b"\0")
        return v
    if n == "uuid":
        if isinstance(v, uuid.UUID):
            return v
        if isinstance(v, str):
            try:
                return uuid.UUID(v)
            except ValueError:
                pass
        raise _bad(v, ty)
    if n == "inet":
        if isinstance(v, (ipaddress.IPv4Address, ipaddress.IPv6Address)):
            return v
        if isinstance(v, str):
            try:
                return ipaddress.ip_address(v)
            except ValueError:
                pass
        raise _bad(v, ty)
    if n == "array":
        if isinstance(v, (str, bytes)) or not isinstance(v, (list, tuple, set, frozenset)):
            raise _bad(v, ty)
        return tuple(coerce(state, ty[1], x) for x in v)
    if n == "udt":
        key = ty[1]
        if key in state.enums:
            if not isinstance(v, str):
                raise _bad(v, ty)
            if v not in state.enums[key]:
                raise DbError("data", f"invalid input value for enum {key}: {v!r}")
            return v
        if isinstance(v, tuple):
            return v
        raise _bad(v, ty)
    raise SimHarnessError(f"cannot convert to {ty}")


def implicit_default(ty: tuple):
    n = ty[0]
    if n in ("tinyint", "smallint", "integer", "bigint"):
        return 0
    if n in ("double", "float", "real"):
        return 0.0
    if n == "decimal":
        return decimal.Decimal(0)
    if n in ("text", "mediumtext", "longtext", "varchar", "char"):
        return ""
    if n == "enum":
        return ty[1][0]
    if n in ("binary",):
        return b"\0" * (ty[1] if len(ty) > 1 else 1)
    if n in ("varbinary", "blob", "mediumblob", "longblob"):
        return b""
    if n == "datetime":
        raise DbError("data", "Incorrect datetime value: '0000-00-00 00:00:00'")
    if n == "date":
        raise DbError("data", "Incorrect date value: '0000-00-00'")
    if n == "time":
        return datetime.time(0)
    if n == "json":
        return "null"
    raise SimHarnessError(f"implicit default for {ty}")


# ---------------------------------------------------------------------------------------------- execution


class Result:
    def __init__(self, rowcount: int = -1, columns: typing.Optional[list[str]] = None, rows: typing.Optional[list[tuple]] = None):
        self.rowcount = rowcount
        self.columns = columns
        self.rows = rows


_DDL = {
    "create_schema", "if_no_schema_create", "create_enum", "create_struct", "create_table", "drop_schema", "drop_type",
    "drop_table", "rename_type", "add_value", "alter_struct", "alter_table", "comment_column", "comment_table", "comment_type",
}


def handled(st: tuple, error: "DbError") -> bool:
    "Whether the exception handler of a PL/SQL block makes an error disappear."

    def passes(body: list) -> bool:
        for s in body:
            if s[0] == "raise":
                return False
            if s[0] == "if":
                if not passes(s[3] if (SQLCODE.get(error.kind, -20000) == s[2]) == (s[1] == "=") else s[4]):
                    return False
        return True

    return st[2] is not None and passes(st[2])


SQLCODE = {"undefined_table": -942, "unique": -1, "notnull": -1400, "fk": -2291, "lock_timeout": -54, "syntax": -900, "dependent": -2449}  # Oracle's numbers
_DML = {"insert", "merge", "update", "delete"}


class Exec:
    "Executes parsed statements against a State (mutating it); the caller provides statement atomicity."

    def __init__(self, s: State):
        self.s = s
        self.d = s.dialect
        self.pg = s.dialect in ("postgresql", "redshift")

    def key(self, q: tuple) -> tuple:
        return (q[0] if q[0] is not None else self.s.default_schema, q[1])

    def table(self, q: tuple) -> Table:
        t = self.s.tables.get(self.key(q))
        if t is None:
            raise DbError("undefined_table", f"table {self.key(q)} does not exist")
        return t

    # -- expressions
    def ev(self, e, row, params, tab: typing.Optional[Table] = None, aliases=None):
        """
        row: {attnum: value} for `tab`; aliases: {alias: (table-or-None, row or dict-by-name)}
        """
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "num":
            return int(e[1]) if re.fullmatch(r"-?\d+", e[1]) else decimal.Decimal(e[1]) if "e" not in e[1].lower() else float(e[1])
        if k == "null":
            return None
        if k == "bool":
            return e[1]
        if k == "param":
            if params is None or e[1] >= len(params):
                raise DbError("param_count", f"no value for parameter {e[1] + 1}")
            return params[e[1]]
        if k == "cast":
            v = self.ev(e[1], row, params, tab, aliases)
            if e[2][0] in ("varchar", "text") and v is not None and not isinstance(v, str):
                return str(v)
            return v
        if k == "col":
            q, name = e[1], e[2]
            if q is not None:
                if aliases and q in aliases:
                    at, ar = aliases[q]
                    if at is None:
                        if name not in ar:
                            raise DbError("undefined_column", f"{q}.{name}")
                        return ar[name]
                    return ar.get(at.col(name).num)
                if tab is not None and q == tab.key[1]:
                    return row.get(tab.col(name).num)
                raise DbError("undefined_column", f"{q}.{name}")
            if tab is not None:
                return row.get(tab.col(name).num)
            raise DbError("undefined_column", name)
        if k == "cmp":
            a = self.ev(e[2], row, params, tab, aliases)
            b = self.ev(e[3], row, params, tab, aliases)
            return self.compare(e[1], a, b)
        if k == "and":
            a = self.ev(e[1], row, params, tab, aliases)
            b = self.ev(e[2], row, params, tab, aliases)
            if a is False or b is False:
                return False
            return None if a is None or b is None else bool(a) and bool(b)
        if k == "or":
            a = self.ev(e[1], row, params, tab, aliases)
            b = self.ev(e[2], row, params, tab, aliases)
            if a is True or b is True:
                return True
            return None if a is None or b is None else bool(a) or bool(b)
        if k == "not":
            a = self.ev(e[1], row, params, tab, aliases)
            return None if a is None else not a
        if k == "in":
            a = self.ev(e[1], row, params, tab, aliases)
            if a is None:
                return None
            hit = any(self.compare("=", a, self.ev(x, row, params, tab, aliases)) for x in e[2])
            return hit != e[3]
        if k == "isnull":
            a = self.ev(e[1], row, params, tab, aliases)
            return (a is not None) if e[2] else (a is None)
        if k == "func" and e[1] == "VALUES" and self.d == "mysql":
            if aliases is None or "VALUES()" not in aliases:
                raise DbError("syntax", "VALUES()")
            return aliases["VALUES()"][1].get(tab.col(e[2][0][2]).num)
        raise DbError("syntax", f"unsupported expression {e!r}")

    def compare(self, op, a, b):
        if a is None or b is None:
            return None
        a, b = self.unify(a, b)
        if op == "=":
            return a == b
        if op in ("<>", "!="):
            return a != b
        try:
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        except TypeError:
            raise DbError("data", f"cannot compare {a!r} and {b!r}")

    def unify(self, a, b):
        if self.d == "mysql" and isinstance(a, str) and isinstance(b, str):
            return a, b
        if isinstance(a, str) and isinstance(b, (int, float, decimal.Decimal)) and not self.pg:
            try:
                a = type(b)(a)
            except (ValueError, decimal.InvalidOperation):
                pass
        if isinstance(b, str) and isinstance(a, (int, float, decimal.Decimal)) and not self.pg:
            try:
                b = type(a)(b)
            except (ValueError, decimal.InvalidOperation):
                pass
        if isinstance(a, uuid.UUID) and isinstance(b, str):
            b = uuid.UUID(b)
        if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
            a, b = bytes(a), bytes(b)
        return a, b

    # -- constraint checking
    def keyval(self, v):
        return v

    def check_table(self, t: Table, *, cons: typing.Optional[typing.Iterable[Con]] = None, rows=None) -> None:
        "Validates rows of a table against its own constraints."
        todo = list(t.cons.values()) if cons is None else list(cons)
        for c in todo:
            if c.kind in ("p", "u"):
                seen = set()
                for r in t.rows:
                    kv = tuple(self.keyval(r.get(n)) for n in c.cols)
                    if any(x is None for x in kv):
                        if c.kind == "p":
                            raise DbError("notnull", f"null in primary key of {t.key}")
                        if self.d == "mssql" and kv in seen:
                            raise DbError("unique", f"duplicate key {kv} in {c.name}")
                        if self.d != "mssql":
                            continue
                    if kv in seen:
                        raise DbError("unique", f"duplicate key {kv} violates {c.name}")
                    seen.add(kv)
            elif c.kind == "f" and self.d != "redshift":
                rt = self.s.tables.get(c.ref)
                if rt is None:
                    raise DbError("undefined_table", f"{c.ref}")
                have = {tuple(r.get(n) for n in c.refcols) for r in rt.rows}
                for r in t.rows:
                    kv = tuple(r.get(n) for n in c.cols)
                    if any(x is None for x in kv):
                        continue
                    if kv not in have:
                        raise DbError("fk", f"{kv} of {t.key} violates {c.name}")
            elif c.kind == "c":
                for r in t.rows:
                    if self.ev(c.expr, r, None, t) is False:
                        raise DbError("check", f"{c.name} violated in {t.key}")
        if cons is None:
            for col in t.live():
                if col.notnull:
                    for r in t.rows:
                        if r.get(col.num) is None:
                            raise DbError("notnull", f"null value in {t.key}.{col.name}")

    def check_referrers(self, t: Table) -> None:
        for o in self.s.tables.values():
            for c in o.cons.values():
                if c.kind == "f" and c.ref == t.key:
                    self.check_table(o, cons=[c])

    # -- DML
    def default_value(self, t: Table, c: Col):
        if c.default is not None:
            return coerce(self.s, c.type, self.ev(c.default, {}, None), literal=True)
        return None

    def new_row(self, t: Table, given: dict[int, typing.Any]) -> dict[int, typing.Any]:
        row: dict[int, typing.Any] = {}
        for c in t.live():
            if SETTINGS.get("auto_on_zero") and c.identity and given.get(c.num) == 0:
                given[c.num] = None
            if c.num in given and not (given[c.num] is None and c.identity and self.d == "mysql"):
                v = given[c.num]
                row[c.num] = v
                if c.identity:
                    if self.d == "mssql":
                        raise DbError("identity", f"cannot insert explicit value for identity column {c.name} (IDENTITY_INSERT is OFF)")
                    if isinstance(v, int) and self.d == "mysql":
                        t.seq = max(t.seq, v + 1)
            elif c.identity:
                row[c.num] = t.seq
                t.seq += 1
            else:
                row[c.num] = self.default_value(t, c)
                if row[c.num] is None and c.notnull and c.default is None and self.d == "mysql":
                    raise DbError("nodefault", f"Field '{c.name}' doesn't have a default value")
            if row.get(c.num) is None and c.notnull:
                raise DbError("notnull", f"null value in column {c.name} of {t.key}")
        return row

    def conflicts(self, t: Table, row: dict) -> list[tuple[Con, dict]]:
        out = []
        for c in t.cons.values():
            if c.kind in ("p", "u"):
                kv = [row.get(n) for n in c.cols]
                if any(x is None for x in kv):
                    if not (self.d == "mssql" and c.kind == "u"):
                        continue
                for r in t.rows:
                    if r is not row and [r.get(n) for n in c.cols] == kv:
                        out.append((c, r))
                        break
        return out

    def row_checks(self, t: Table, row: dict) -> None:
        for c in t.cons.values():
            if c.kind == "f" and self.d != "redshift":
                kv = [row.get(n) for n in c.cols]
                if any(x is None for x in kv):
                    continue
                rt = self.s.tables[c.ref]
                if not any([r.get(n) for n in c.refcols] == kv for r in rt.rows):
                    raise DbError("fk", f"{kv} of {t.key} violates {c.name}")
            elif c.kind == "c":
                if self.ev(c.expr, row, None, t) is False:
                    raise DbError("check", f"{c.name} violated in {t.key}")

    def insert_one(self, t: Table, given: dict, conflict, params) -> int:
        row = self.new_row(t, given)
        hits = self.conflicts(t, row)
        if hits and self.d == "redshift":
            hits = []  # informational constraints only
        if hits:
            if conflict is None:
                raise DbError("unique", f"duplicate key in {t.key}: {hits[0][0].name}")
            kind, keys, *rest = conflict
            if kind in ("nothing", "update") and keys is not None:
                want = sorted(t.col(k).num for k in keys)
                arb = [c for c in t.cons.values() if c.kind in ("p", "u") and sorted(c.cols) == want]
                if not arb:
                    raise DbError("syntax", "no unique constraint matching ON CONFLICT")
                others = [h for h in hits if h[0] not in arb]
                hits = [h for h in hits if h[0] in arb]
                if not hits:
                    raise DbError("unique", f"duplicate key in {t.key}: {others[0][0].name}")
            if kind == "nothing":
                return 0
            target = hits[0][1]
            before = dict(target)
            if kind == "update":
                al = {"EXCLUDED": (t, row), "excluded": (t, row)}
            else:
                al = {"VALUES()": (t, row)}
            new = dict(target)
            for name, e in rest[0]:
                c = t.col(name)
                new[c.num] = coerce(self.s, c.type, self.ev(e, target, params, t, al))
            self.replace(t, target, new)
            return 1 if before != new else 0
        elif conflict is not None and conflict[1] is not None:
            want = sorted(t.col(k).num for k in conflict[1])
            if not any(c.kind in ("p", "u") and sorted(c.cols) == want for c in t.cons.values()):
                raise DbError("syntax", "no unique constraint matching ON CONFLICT")
        self.row_checks(t, row)
        t.rows.append(row)
        return 1

    def replace(self, t: Table, target: dict, new: dict) -> None:
        for c in t.live():
            if c.notnull and new.get(c.num) is None:
                raise DbError("notnull", f"null value in column {c.name} of {t.key}")
        old = dict(target)
        target.clear()
        target.update(new)
        hits = self.conflicts(t, target)
        if hits and self.d != "redshift":
            raise DbError("unique", f"duplicate key in {t.key}: {hits[0][0].name}")
        self.row_checks(t, target)
        keycols = {n for c in t.cons.values() if c.kind in ("p", "u") for n in c.cols}
        if any(old.get(n) != target.get(n) for n in keycols):
            self.check_referrers(t)

    def bind(self, e, tab: typing.Optional["Table"], aliases: dict) -> None:
        "Resolves column names, as a server does before it looks at any row."
        if not isinstance(e, (tuple, list)) or not e:
            return
        if e[0] in ("lit", "num", "null", "bool", "param", "select", "exists"):
            return
        if e[0] == "col" and len(e) == 3 and isinstance(e[2], str):
            q, name = e[1], e[2]
            if q is None:
                if tab is not None:
                    tab.col(name)
            elif q in aliases:
                at = aliases[q]
                if isinstance(at, Table):
                    at.col(name)
                elif name not in at:
                    raise DbError("undefined_column", f"{q}.{name}")
            elif tab is None or q != tab.key[1]:
                raise DbError("undefined_column", f"{q}.{name}")
            return
        for x in e:
            self.bind(x, tab, aliases)

    def x_insert(self, st, params) -> int:
        _, q, cols, src, conflict = st
        t = self.table(q)
        nums = [t.col(c).num for c in cols]
        if len(set(nums)) != len(nums):
            raise DbError("syntax", "column specified more than once")
        n = 0
        if src[0] == "values":
            tuples = []
            for r in src[1]:
                if len(r) != len(nums):
                    raise DbError("syntax", "INSERT has a different number of columns and values")
                tuples.append([(self.ev(e, None, params), e[0] != "param") for e in r])
        else:
            _, distinct, items, fq, where = src
            ft = self.table(fq)
            self.bind(items, ft, {})
            self.bind(where, ft, {})
            tuples = []
            for r in list(ft.rows):
                if where is not None and not self.ev(where, r, params, ft):
                    continue
                tup = [(self.ev(e, r, params, ft), True) for e in items]
                if distinct and tup in tuples:
                    continue
                tuples.append(tup)
        for tup in tuples:
            given = {num: coerce(self.s, t.cols[num].type, v, literal=lit) for num, (v, lit) in zip(nums, tup)}
            n += self.insert_one(t, given, conflict, params)
        return n

    def x_merge(self, st, params) -> int:
        _, q, talias, salias, scols, rows, on, upd, ins = st
        t = self.table(q)
        n = 0
        updated: list[int] = []
        al = {talias: t, salias: scols}
        self.bind(on, t, al)
        if upd is not None:
            for name, e in upd:
                t.col(name)
                self.bind(e, t, al)
        if ins is not None:
            for name in ins[0]:
                t.col(name)
            self.bind(ins[1], None, al)
        for r in rows:
            if len(r) != len(scols):
                raise DbError("syntax", "MERGE source column count")
            # parameters compared and stored as the type of the column they are matched with
            src = {}
            for name, e in zip(scols, r):
                v = self.ev(e, None, params)
                if t.has(name):
                    v = coerce(self.s, t.col(name).type, v)
                src[name] = v
            matched = [x for x in t.rows if self.ev(on, x, params, t, {talias: (t, x), salias: (None, src)})]
            if matched:
                if upd is not None:
                    for x in matched:
                        if id(x) in updated:
                            raise DbError("merge", "MERGE attempted to update the same row more than once")
                        updated.append(id(x))
                        new = dict(x)
                        for name, e in upd:
                            c = t.col(name)
                            new[c.num] = coerce(self.s, c.type, self.ev(e, x, params, t, {talias: (t, x), salias: (None, src)}))
                        self.replace(t, x, new)
                        n += 1
            elif ins is not None:
                icols, ivals = ins
                if len(icols) != len(ivals):
                    raise DbError("syntax", "MERGE insert column count")
                given = {}
                for name, e in zip(icols, ivals):
                    c = t.col(name)
                    given[c.num] = coerce(self.s, c.type, self.ev(e, None, params, None, {salias: (None, src)}))
                n += self.insert_one(t, given, None, params)
        return n

    def x_update(self, st, params) -> int:
        _, q, alias, join, sets, where = st
        t = self.table(q)
        jt = self.table(join[0]) if join else None
        n = 0
        if jt is None:
            self.bind(where, t, {alias: t} if alias else {})
        for name, e in sets:
            t.col(name)
            if jt is None:
                self.bind(e, t, {alias: t} if alias else {})
        for r in t.rows:
            al: dict = {alias: (t, r)} if alias else {}
            if jt is not None:
                match = None
                for jr in jt.rows:
                    al2 = {**al, join[1]: (jt, jr)}
                    cond = join[2] if join[2] is not None else where
                    ok = self.ev(cond, r, params, t, al2) if cond is not None else True
                    if ok and join[2] is not None and where is not None:
                        ok = self.ev(where, r, params, t, al2)
                    if ok:
                        match = al2
                        break
                if match is None:
                    continue
                al = match
            elif where is not None and not self.ev(where, r, params, t, al):
                continue
            new = dict(r)
            for name, e in sets:
                c = t.col(name)
                new[c.num] = coerce(self.s, c.type, self.ev(e, r, params, t, al), literal=e[0] != "param")
            self.replace(t, r, new)
            n += 1
        return n

    def x_delete(self, st, params) -> int:
        _, q, where = st
        t = self.table(q)
        self.bind(where, t, {})
        if where is not None and where[0] == "cmp" and where[2][0] == "col" and where[3][0] == "param":
            # typed comparison with the key column
            c = t.col(where[2][2])
            v = self.ev(where[3], None, params)
            if self.d == "postgresql":
                v = coerce(self.s, c.type, v)
            keep = [r for r in t.rows if self.compare(where[1], r.get(c.num), v) is not True]
        else:
            keep = [r for r in t.rows if where is not None and not self.ev(where, r, params, t)]
        n = len(t.rows) - len(keep)
        if n:
            t.rows = keep
            self.check_referrers(t)
        return n

    # -- DDL
    def mk_col(self, t: Table, c: dict) -> Col:
        if t.has(c["name"]):
            raise DbError("duplicate_column", f"column {c['name']} of {t.key} already exists")
        ty = self.s.norm_type(c["type"])
        if c["identity"] and ty[0] not in ("smallint", "integer", "bigint", "number", "tinyint"):
            raise DbError("syntax", "identity column must be an integer")
        col = Col(t.next_num, c["name"], ty, bool(c["notnull"]) or c["identity"], c["default"], c.get("default_text"),
                  c["identity"], c["comment"], c.get("dfname"))
        t.next_num += 1
        if col.default is not None:
            self.default_value(t, col)
        t.cols[col.num] = col
        return col

    def add_con(self, t: Table, c: dict, validate: bool = True) -> None:
        k = c["kind"]
        if k == "d":
            col = t.col(c["col"])
            if col.dfname is not None:
                raise DbError("duplicate", "column already has a DEFAULT bound to it")
            self.check_con_name(t, c["name"])
            col.default, col.default_text, col.dfname = c["expr"], c["text"], c["name"]
            self.default_value(t, col)
            return
        name = c["name"]
        self.check_con_name(t, name)
        if k == "c":
            con = Con("c", name, [], expr=c["expr"], text=c["text"])
        elif k == "f":
            rk = self.key(c["ref"])
            rt = self.s.tables.get(rk)
            if rt is None:
                raise DbError("undefined_table", f"referenced table {rk} does not exist")
            cols = [t.col(n).num for n in c["cols"]]
            refcols = [rt.col(n).num for n in c["refcols"]]
            if self.d != "redshift" and not any(x.kind in ("p", "u") and sorted(x.cols) == sorted(refcols) for x in rt.cons.values()):
                raise DbError("fk_target", f"no unique constraint on referenced columns of {rk}")
            for a, b in zip(cols, refcols):
                ta, tb = t.cols[a].type, rt.cols[b].type
                if ta != tb and not (self.pg and {ta[0], tb[0]} <= {"smallint", "integer", "bigint"}) and self.d != "oracle":
                    if not (ta[0] == tb[0]):
                        raise DbError("fk_type", f"incompatible types {ta} and {tb} in {name}")
            con = Con("f", name, cols, ref=rk, refcols=refcols)
        else:
            con = Con(k, name, [t.col(n).num for n in c["cols"]])
            if k == "p":
                if t.pk() is not None:
                    raise DbError("duplicate", "multiple primary keys")
                for n in con.cols:
                    t.cols[n].notnull = True
            for n in con.cols:
                if self.d == "mysql" and t.cols[n].type[0] in ("mediumtext", "longtext", "json", "text"):
                    raise DbError("syntax", "BLOB/TEXT column used in key specification without a key length")
                if self.d == "mssql" and t.cols[n].type[1:] == ("max",):
                    raise DbError("syntax", "column of a type that is invalid for use as a key column in an index")
                if self.d == "oracle" and t.cols[n].type[0] == "clob":
                    raise DbError("syntax", "cannot create index on expression with datatype LOB")
        t.cons[name] = con
        if validate:
            self.check_table(t, cons=[con])

    def check_con_name(self, t: Table, name: str) -> None:
        scope_all = self.d in ("mssql", "oracle")
        for o in self.s.tables.values():
            if o is t or (scope_all and o.key[0] == t.key[0]):
                if name in o.cons or any(c.dfname == name and not c.dropped for c in o.cols.values()):
                    raise DbError("duplicate", f"constraint {name} already exists" + ("" if o is t else " in another table"))
            elif self.d == "mysql" and o.key[0] == t.key[0]:
                if name in o.cons and o.cons[name].kind == "f":
                    raise DbError("duplicate", f"Duplicate foreign key constraint name {name}")
            elif self.pg and o.key[0] == t.key[0]:
                # p and u constraints create an index in the schema's relation namespace
                if name in o.cons and o.cons[name].kind in ("p", "u") and (name.startswith("pk_") or name.startswith("uq_")):
                    raise DbError("duplicate", f"relation {name} already exists")

    def x_create_table(self, st, params) -> int:
        _, q, cols, cons, comment = st
        key = self.key(q)
        if key[0] not in self.s.schemas:
            raise DbError("undefined_schema", f"schema {key[0]} does not exist")
        if key in self.s.tables or key in self.s.structs or (self.pg and key in self.s.enums):
            raise DbError("duplicate_table", f"relation {key} already exists")
        t = Table(key, self.s.oid())
        t.comment = comment
        for c in cols:
            if c.get("dfname"):
                self.check_con_name(t, c["dfname"])
            self.mk_col(t, c)
        for c in cons:
            self.add_con(t, c, validate=False)
        if self.d == "mysql":
            for c in t.live():
                if c.identity and not (t.pk() and c.num in t.pk().cols):
                    raise DbError("syntax", "there can be only one auto column and it must be defined as a key")
        self.s.tables[key] = t
        return 0

    def referrers(self, key: tuple, skip=()) -> list[tuple[Table, Con]]:
        return [(o, c) for o in self.s.tables.values() if o.key not in skip for c in o.cons.values() if c.kind == "f" and c.ref == key]

    def x_drop_table(self, st, params) -> int:
        _, names, ie, casc = st
        keys = [self.key(q) for q in names]
        for k in keys:
            if k not in self.s.tables and not ie:
                raise DbError("undefined_table", f"table {k} does not exist")
        keys = [k for k in keys if k in self.s.tables]
        seq = [keys] if self.d in ("postgresql", "redshift", "mysql") else [[k] for k in keys]
        for group in seq:
            for k in group:
                refs = self.referrers(k, skip=tuple(group))
                if refs:
                    if casc:
                        for o, c in refs:
                            o.cons.pop(c.name)
                    else:
                        raise DbError("dependent", f"cannot drop table {k}: referenced by {refs[0][0].key} {refs[0][1].name}")
            for k in group:
                self.s.tables.pop(k)
        return 0

    def x_create_schema(self, st, params) -> int:
        _, n, ine = st
        if n in self.s.schemas:
            if not ine:
                raise DbError("duplicate_schema", f"schema {n} already exists")
        else:
            self.s.schemas[n] = self.s.oid()
        return 0

    def x_if_no_schema_create(self, st, params) -> int:
        if st[1] not in self.s.schemas:
            if st[2] in self.s.schemas:
                raise DbError("duplicate_schema", st[2])
            self.s.schemas[st[2]] = self.s.oid()
        return 0

    def x_drop_schema(self, st, params) -> int:
        _, n, ie, casc = st
        if n not in self.s.schemas:
            if ie:
                return 0
            raise DbError("undefined_schema", n)
        tabs = [k for k in self.s.tables if k[0] == n]
        types = [k for k in list(self.s.enums) + list(self.s.structs) if k[0] == n]
        if (tabs or types) and not casc:
            raise DbError("dependent", f"cannot drop schema {n} because other objects depend on it")
        for k in tabs:
            for o, c in self.referrers(k, skip=tuple(tabs)):
                o.cons.pop(c.name)
        for k in tabs:
            self.s.tables.pop(k)
        for k in types:
            for o in self.s.tables.values():
                for c in list(o.live()):
                    if c.type == ("udt", k) or c.type == ("array", ("udt", k)):
                        self.drop_col(o, c.name, casc=True)
            self.s.enums.pop(k, None)
            self.s.structs.pop(k, None)
        self.s.schemas.pop(n)
        return 0

    def type_users(self, key: tuple) -> list:
        out: list = []
        uses = (("udt", key), ("array", ("udt", key)))
        for o in self.s.tables.values():
            out.extend((o.key, c.name) for c in o.live() if c.type in uses)
        for sk, sv in self.s.structs.items():
            out.extend((sk, m[0]) for m in sv["members"] if m[1] in uses)
        return out

    def new_type_key(self, q) -> tuple:
        key = self.key(q)
        if key[0] not in self.s.schemas:
            raise DbError("undefined_schema", f"schema {key[0]} does not exist")
        if key in self.s.enums or key in self.s.structs or key in self.s.tables:
            raise DbError("duplicate_type", f"type {key} already exists")
        return key

    def x_create_enum(self, st, params) -> int:
        key = self.new_type_key(st[1])
        if len(set(st[2])) != len(st[2]):
            raise DbError("duplicate", "enum label already exists")
        self.s.enums[key] = list(st[2])
        self.s.type_oids[key] = self.s.oid()
        return 0

    def x_create_struct(self, st, params) -> int:
        key = self.new_type_key(st[1])
        self.s.structs[key] = {"members": [[n, self.s.norm_type(t), None] for n, t in st[2]], "comment": None, "oid": self.s.oid()}
        self.s.type_oids[key] = self.s.oid()
        return 0

    def x_drop_type(self, st, params) -> int:
        key = self.key(st[1])
        if key not in self.s.enums and key not in self.s.structs:
            raise DbError("undefined_type", f"type {key} does not exist")
        users = self.type_users(key)
        if users:
            raise DbError("dependent", f"cannot drop type {key}: used by {users[0]}")
        self.s.enums.pop(key, None)
        self.s.structs.pop(key, None)
        return 0

    def x_rename_type(self, st, params) -> int:
        key = self.key(st[1])
        if key not in self.s.enums:
            raise DbError("undefined_type", f"type {key} does not exist")
        new = (key[0], st[2])
        if new in self.s.enums or new in self.s.structs or new in self.s.tables:
            raise DbError("duplicate_type", f"{new}")
        self.s.enums[new] = self.s.enums.pop(key)
        self.s.type_oids[new] = self.s.type_oids[key]
        for o in self.s.tables.values():
            for c in o.cols.values():
                if c.type == ("udt", key):
                    c.type = ("udt", new)
                elif c.type == ("array", ("udt", key)):
                    c.type = ("array", ("udt", new))
        for sv in self.s.structs.values():
            for m in sv["members"]:
                if m[1] == ("udt", key):
                    m[1] = ("udt", new)
                elif m[1] == ("array", ("udt", key)):
                    m[1] = ("array", ("udt", new))
        return 0

    def x_add_value(self, st, params) -> int:
        key = self.key(st[1])
        if key not in self.s.enums:
            raise DbError("undefined_type", f"type {key} does not exist")
        if st[2] in self.s.enums[key]:
            raise DbError("duplicate", f"enum label {st[2]} already exists")
        self.s.enums[key].append(st[2])
        return 0

    def x_alter_struct(self, st, params) -> int:
        key = self.key(st[1])
        sv = self.s.structs.get(key)
        if sv is None:
            raise DbError("undefined_type", f"type {key} does not exist")
        users = self.column_users(key)
        for a in st[2]:
            names = [m[0] for m in sv["members"]]
            if a[0] == "drop":
                if a[1] not in names:
                    raise DbError("undefined_column", a[1])
                i = names.index(a[1])
                sv["members"] = sv["members"][:i] + sv["members"][i + 1:]
                self.remap(key, lambda v: tuple(v[:i]) + tuple(v[i + 1:]))
            elif a[0] == "add":
                if a[1] in names:
                    raise DbError("duplicate_column", a[1])
                sv["members"].append([a[1], self.s.norm_type(a[2]), None])
                self.remap(key, lambda v: tuple(v) + (None,))
            else:
                if a[1] not in names:
                    raise DbError("undefined_column", a[1])
                if users:
                    raise DbError("dependent", f"cannot alter type {key} because a column uses it")
                for m in sv["members"]:
                    if m[0] == a[1]:
                        m[1] = self.s.norm_type(a[2])
        return 0

    def column_users(self, key: tuple) -> list:
        "Columns of tables whose values have values of the type in them."
        out, seen, todo = [], set(), [key]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            for u in self.type_users(k):
                if u[0] in self.s.structs:
                    todo.append(u[0])
                else:
                    out.append(u)
        return out

    def remap(self, key: tuple, fn) -> None:
        "Applies a function to all stored values of a composite type whose definition has just changed."

        def walk(ty: tuple, v):
            if v is None:
                return None
            if ty[0] == "array":
                return type(v)(walk(ty[1], x) for x in v)
            if ty[0] == "udt" and ty[1] == key:
                return fn(v)
            if ty[0] == "udt" and ty[1] in self.s.structs:
                return tuple(walk(m[1], x) for m, x in zip(self.s.structs[ty[1]]["members"], v))
            return v

        for t in self.s.tables.values():
            for c in t.cols.values():
                if "udt" in repr(c.type):
                    for r in t.rows:
                        if r.get(c.num) is not None:
                            r[c.num] = walk(c.type, r[c.num])

    def x_comment_table(self, st, params) -> int:
        self.table(st[1]).comment = st[2] or None
        return 0

    def x_comment_type(self, st, params) -> int:
        key = self.key(st[1])
        if key in self.s.structs:
            self.s.structs[key]["comment"] = st[2] or None
        elif key not in self.s.enums:
            raise DbError("undefined_type", f"type {key} does not exist")
        return 0

    def x_comment_column(self, st, params) -> int:
        key = self.key(st[1])
        if key in self.s.structs:
            for m in self.s.structs[key]["members"]:
                if m[0] == st[2]:
                    m[2] = st[3] or None
                    return 0
            raise DbError("undefined_column", st[2])
        self.table(st[1]).col(st[2]).comment = st[3] or None
        return 0

    def drop_col(self, t: Table, name: str, casc: bool = False) -> None:
        c = t.col(name)
        d = self.d
        for con in list(t.cons.values()):
            if c.num in con.cols or (con.kind == "c" and self.mentions(con.expr, name)):
                if d == "mssql" and not casc:
                    raise DbError("dependent", f"The object '{con.name}' is dependent on column '{name}'")
                if d == "mysql":
                    if con.kind == "f":
                        raise DbError("dependent", f"Cannot drop column '{name}': needed in a foreign key constraint '{con.name}'")
                    if con.kind == "c":
                        raise DbError("dependent", f"Check constraint '{con.name}' uses column '{name}'")
                    if len(con.cols) > 1:
                        continue
                if d == "oracle" and len(con.cols) > 1:
                    raise DbError("dependent", "column is referenced in a multi-column constraint")
                if con.kind in ("p", "u"):
                    for o, fc in self.referrers(t.key):
                        if sorted(fc.refcols) == sorted(con.cols):
                            if casc:
                                o.cons.pop(fc.name)
                            else:
                                raise DbError("dependent", f"constraint {fc.name} depends on {con.name}")
                t.cons.pop(con.name)
        if d == "mssql" and c.dfname is not None:
            raise DbError("dependent", f"The object '{c.dfname}' is dependent on column '{name}'")
        if len(t.live()) == 1:
            raise DbError("syntax", "cannot drop the only column")
        c.dropped = True
        for r in t.rows:
            r.pop(c.num, None)
        if not self.pg:
            t.cols.pop(c.num)

    def mentions(self, e, name) -> bool:
        if isinstance(e, tuple):
            if len(e) == 3 and e[0] == "col" and e[2] == name:
                return True
            return any(self.mentions(x, name) for x in e if isinstance(x, (tuple, list)))
        if isinstance(e, list):
            return any(self.mentions(x, name) for x in e)
        return False

    def renamed(self, t: Table, old: str, new: str) -> None:
        "CHECK constraints follow a column that gets another name (or prevent it)."

        def sub(e):
            if isinstance(e, tuple):
                if len(e) == 3 and e[0] == "col" and e[2] == old:
                    return (e[0], e[1], new)
                return tuple(sub(x) for x in e)
            if isinstance(e, list):
                return [sub(x) for x in e]
            return e

        for name, con in list(t.cons.items()):
            if con.kind == "c" and self.mentions(con.expr, old):
                if self.d == "mysql":
                    raise DbError("dependent", f"Check constraint '{con.name}' uses column '{old}', hence column cannot be dropped or renamed.")
                text = con.text.replace(f'"{old}"', f'"{new}"')
                t.cons[name] = Con("c", con.name, con.cols, con.ref, con.refcols, sub(con.expr), text)

    def drop_con(self, t: Table, name: str) -> None:
        for c in t.live():
            if c.dfname == name:
                c.default = c.default_text = c.dfname = None
                return
        con = t.cons.get(name)
        if con is None:
            raise DbError("undefined_constraint", f"constraint {name} of {t.key} does not exist")
        if con.kind in ("p", "u"):
            for o, fc in self.referrers(t.key):
                if sorted(fc.refcols) == sorted(con.cols):
                    raise DbError("dependent", f"constraint {fc.name} of {o.key} depends on {name}")
        t.cons.pop(name)

    def add_col(self, t: Table, c: dict) -> None:
        if c.get("dfname"):
            self.check_con_name(t, c["dfname"])
        col = self.mk_col(t, c)
        if col.identity:
            for r in t.rows:
                r[col.num] = t.seq
                t.seq += 1
            if self.d == "mysql" and not (t.pk() and col.num in t.pk().cols):
                raise DbError("syntax", "there can be only one auto column and it must be defined as a key")
        else:
            if not t.rows:
                return
            v = self.default_value(t, col)
            if v is None and col.notnull:
                if self.d == "mysql":
                    v = implicit_default(col.type)
                else:
                    raise DbError("notnull", f"column {col.name} of {t.key} contains null values")
            if col.default is not None and not col.notnull and self.d == "mssql":
                v = None  # without WITH VALUES existing rows stay NULL
            for r in t.rows:
                r[col.num] = v

    def set_type(self, t: Table, c: Col, ty: tuple) -> None:
        new = self.s.norm_type(ty)
        if new == c.type:
            return
        d = self.d
        family = lambda x: x[0]
        if d == "mssql":
            same = family(new) == family(c.type)
            if c.dfname is not None and not same:
                raise DbError("dependent", f"The object '{c.dfname}' is dependent on column '{c.name}'")
            for con in list(t.cons.values()) + [fc for _, fc in self.referrers(t.key)]:
                involved = con.cols if con.name in t.cons and t.cons[con.name] is con else con.refcols
                if involved and c.num in involved and not (same and con.kind in ("u", "c", "p")):
                    raise DbError("dependent", f"The object '{con.name}' is dependent on column '{c.name}'")
        if self.pg and c.default is not None:
            pass
        num = {"tinyint", "smallint", "integer", "bigint", "decimal", "number", "real", "double", "float"}
        txt = {"text", "varchar", "varchar2", "nvarchar", "char", "clob", "mediumtext", "longtext"}
        a, b = c.type[0], new[0]
        ok = a == b or {a, b} <= num or {a, b} <= txt
        ok = ok or {a, b} <= {"timestamp", "datetime", "datetime2", "timestamp with time zone", "date"}
        ok = ok or (a == "udt" and b in txt and False)
        if d == "mysql":
            ok = ok or {a, b} <= txt | {"enum", "json"} | num
        if d == "postgresql" and {a, b} <= {"json", "jsonb"}:
            ok = True
        if d == "postgresql" and b in txt:
            ok = True
        if d == "mssql" and {a, b} <= num | {"bit"} | txt:
            ok = True
        if d == "oracle" and a != b and any(r.get(c.num) is not None for r in t.rows):
            if not ((a, b) == ("real", "double") or {a, b} <= {"varchar2", "char"} or {a, b} <= {"timestamp", "date", "timestamp with time zone"}):
                raise DbError("data", f"column {c.name} to be modified must be empty to change datatype")
            ok = True
        elif d == "oracle":
            if a != b and {a, b} & {"clob", "blob"}:
                raise DbError("data", "invalid alteration of datatype")
            ok = True
        if not ok:
            raise DbError("type_change", f"column {c.name} cannot be cast automatically from {c.type} to {new}")
        if d == "oracle" and a == b == "number" and any(r.get(c.num) is not None for r in t.rows) and len(new) > 1 and new != c.type:
            if len(c.type) == 1 or new[1] < c.type[1]:
                raise DbError("data", "column to be modified must be empty to decrease precision or scale")
        for r in t.rows:
            v = r.get(c.num)
            if v is not None:
                if b in txt and not isinstance(v, str):
                    v = str(v)
                r[c.num] = coerce(self.s, new, v, literal=True)
        c.type = new

    def x_alter_table(self, st, params) -> int:
        _, q, acts = st
        t = self.table(q)
        d = self.d
        if self.pg:
            order = {"rename": 0, "dropcol": 1, "dropcon": 1, "settype": 2, "addcol": 3, "setnn": 4, "setdef": 4, "identity": 4, "addcon": 5}
            for a in acts:
                if a[0] not in order:
                    raise DbError("syntax", f"{a[0]} is not supported")
                if a[0] == "rename" and len(acts) > 1:
                    raise DbError("syntax", "RENAME cannot be combined")
            acts = sorted(acts, key=lambda a: order[a[0]])
        elif d == "mysql":
            order = {"dropcon": 0, "dropcol": 1, "change": 2, "modify": 2, "addcol": 2, "rename": 2, "addcon": 3, "tabcomment": 4}
            for a in acts:
                if a[0] not in order:
                    raise DbError("syntax", f"{a[0]} is not supported")
            acts = sorted(acts, key=lambda a: order[a[0]])
        elif d in ("mssql", "oracle"):
            kinds = {a[0] for a in acts}
            if len(acts) > 1 and not (kinds <= {"dropcon", "dropcol"} or kinds <= {"addcon"} or kinds <= {"addcol"}):
                raise DbError("syntax", "one action per ALTER TABLE")
            if d == "mssql" and kinds & {"rename", "change", "modify", "omodify", "settype", "setnn", "setdef", "identity", "tabcomment"}:
                raise DbError("syntax", f"{kinds} is not supported")
            if d == "oracle" and kinds & {"change", "modify", "settype", "setnn", "setdef", "identity", "tabcomment", "mscol"}:
                raise DbError("syntax", f"{kinds} is not supported")
        for a in acts:
            k = a[0]
            if k == "addcol":
                self.add_col(t, a[1])
            elif k == "dropcol":
                self.drop_col(t, a[1])
            elif k == "dropcon":
                self.drop_con(t, a[1])
            elif k == "addcon":
                self.add_con(t, a[1])
            elif k == "rename":
                c = t.col(a[1])
                if t.has(a[2]):
                    raise DbError("duplicate_column", a[2])
                self.renamed(t, c.name, a[2])
                c.name = a[2]
            elif k in ("change", "modify"):
                new = a[2] if k == "change" else a[1]
                c = t.col(a[1] if k == "change" else new["name"])
                if new["name"] != c.name:
                    if t.has(new["name"]):
                        raise DbError("duplicate_column", new["name"])
                    self.renamed(t, c.name, new["name"])
                pk = t.pk()
                ty = self.s.norm_type(new["type"])
                if ty != c.type:
                    involved = [con for con in t.cons.values() if con.kind == "f" and c.num in con.cols]
                    involved += [fc for _, fc in self.referrers(t.key) if c.num in fc.refcols]
                    if involved and ty[0] != c.type[0]:
                        raise DbError("dependent", f"Cannot change column '{c.name}': used in a foreign key constraint")
                self.set_type(t, c, new["type"])
                c.name = new["name"]
                c.notnull = bool(new["notnull"]) or bool(pk and c.num in pk.cols)
                c.default, c.default_text = new["default"], new.get("default_text")
                if c.default is not None:
                    self.default_value(t, c)
                c.identity = new["identity"]
                c.comment = new["comment"] or None
                if c.notnull and any(r.get(c.num) is None for r in t.rows):
                    raise DbError("notnull", f"Invalid use of NULL value in {c.name}")
            elif k == "settype":
                self.set_type(t, t.col(a[1]), a[2])
            elif k == "setnn":
                c = t.col(a[1])
                pk = t.pk()
                if not a[2] and pk and c.num in pk.cols:
                    raise DbError("syntax", f"column {c.name} is in a primary key")
                if a[2] and any(r.get(c.num) is None for r in t.rows):
                    raise DbError("notnull", f"column {c.name} of {t.key} contains null values")
                c.notnull = a[2]
            elif k == "setdef":
                c = t.col(a[1])
                c.default, c.default_text = a[2], a[3]
                if c.default is not None:
                    self.default_value(t, c)
            elif k == "identity":
                c = t.col(a[1])
                if a[2]:
                    if c.identity:
                        raise DbError("duplicate", "column is already an identity column")
                    if not c.notnull:
                        raise DbError("syntax", "column must be declared NOT NULL before identity can be added")
                    if c.default is not None:
                        raise DbError("syntax", "column already has a default value")
                    c.identity = True
                else:
                    if not c.identity:
                        raise DbError("syntax", "column is not an identity column")
                    c.identity = False
            elif k == "mscol":
                _, name, ty, nn = a
                c = t.col(name)
                if nn and any(r.get(c.num) is None for r in t.rows):
                    raise DbError("notnull", f"Cannot insert the value NULL into column '{name}'")
                if not nn and t.pk() and c.num in t.pk().cols:
                    raise DbError("dependent", f"column {name} is part of the primary key")
                self.set_type(t, c, ty)
                c.notnull = nn
            elif k == "omodify":
                n = a[1]
                c = t.col(n["name"])
                if n["type"] is not None:
                    self.set_type(t, c, n["type"])
                if n["default"] is not None:
                    c.default, c.default_text = n["default"], n["default_text"]
                    self.default_value(t, c)
                if n.get("null_explicit"):
                    if n["notnull"] == c.notnull:
                        raise DbError("syntax", "column is already " + ("NOT NULL" if c.notnull else "NULL"))
                    if n["notnull"] and any(r.get(c.num) is None for r in t.rows):
                        raise DbError("notnull", f"cannot enable NOT NULL on {n['name']}: null values found")
                    c.notnull = n["notnull"]
                if n["identity"]:
                    raise DbError("syntax", "column to be modified is not an identity column")
                if n.get("drop_identity"):
                    c.identity = False
            elif k == "tabcomment":
                t.comment = a[1] or None
        return 0

    def run(self, st: tuple, params) -> int:
        if st[0] == "noop":
            return 0
        if st[0] == "error":
            raise DbError("syntax", st[1])
        return getattr(self, "x_" + st[0])(st, params)


# ---------------------------------------------------------------------------------------------- database and sessions


class DB:
    def __init__(self, dialect: str, database: str = "db"):
        self.dialect = dialect
        self.database = database
        default = {"postgresql": "public", "redshift": "public", "mysql": database, "mssql": "dbo", "oracle": "APP", "trino": "public"}[dialect]
        self.state = State(dialect, default)
        self.state.version = (id(self), 0)
        self.version = 0
        self.lock_owner: typing.Optional["Session"] = None
        self.sessions: list["Session"] = []
        self.open_sessions = 0
        self._view_cache: dict = {}
        # data statements with parameters as the server received them: (kind, table, records, number applied)
        self.received: typing.Optional[list] = None

    def session(self) -> "Session":
        s = Session(self)
        self.sessions.append(s)
        self.open_sessions += 1
        return s

    def swap(self, state: State) -> None:
        self.state = state
        self.version += 1
        state.version = (id(self), self.version)  # type: ignore


_wv = [0]


class Session:
    def __init__(self, db: DB):
        self.db = db
        self.autocommit = True
        self.in_txn = False
        self.work: typing.Optional[State] = None
        self.closed = False
        self.settings: dict = {}

    # -- locks and transactions
    def can_write(self) -> bool:
        return self.db.lock_owner is None or self.db.lock_owner is self

    def view(self) -> State:
        return self.work if self.work is not None else self.db.state

    def begin_write(self) -> State:
        if not self.can_write():
            raise SimHarnessError("write without lock")
        self.db.lock_owner = self
        if self.work is None:
            self.work = self.db.state.clone()
        return self.work

    def commit(self) -> None:
        if self.work is not None:
            self.db.swap(self.work)
            self.work = None
        if self.db.lock_owner is self:
            self.db.lock_owner = None
        self.in_txn = False

    def rollback(self) -> None:
        self.work = None
        if self.db.lock_owner is self:
            self.db.lock_owner = None
        self.in_txn = False

    def close(self) -> None:
        if not self.closed:
            self.closed = True
            self.rollback()
            self.db.open_sessions -= 1

    # -- statements
    def is_write(self, st: tuple) -> bool:
        return st[0] in _DDL or st[0] in _DML or st[0] == "plsql"

    def execute(self, st: tuple, params=None) -> Result:
        SETTINGS.update(self.settings)
        try:
            return self._execute(st, params)
        finally:
            SETTINGS.clear()

    def execute_many(self, st: tuple, seq: list, atomic: bool, fail_at: typing.Optional[int] = None, fail: typing.Optional[DbError] = None) -> int:
        SETTINGS.update(self.settings)
        try:
            return self._execute_many(st, seq, atomic, fail_at, fail)
        finally:
            SETTINGS.clear()

    def _execute(self, st: tuple, params=None) -> Result:
        """
        Executes one statement with statement-level atomicity inside the session's transaction.
        Commits at once in autocommit mode (and for DDL where the server commits implicitly).
        """

        if st[0] == "select":
            from .query import run_select

            return run_select(self.db, self.view(), st[1], params)
        if st[0] in ("noop", "error"):
            Exec(self.view()).run(st, params)
            return Result(0)
        if st[0] == "plsql":
            try:
                self._plsql(st[1], None)
            except DbError as e:
                if not handled(st, e):
                    raise
            return Result(0)
        d = self.db.dialect
        if st[0] in _DDL and d in ("mysql", "oracle"):
            self.commit()
        base = self.begin_write()
        trial = base.clone()
        if self.db.received is not None and params is not None and st[0] in _DML:
            self.db.received.append([st[0], st[1], [params], 0])
        try:
            n = Exec(trial).run(st, params)
        except DbError:
            if self.autocommit and not self.in_txn:
                self.rollback()
            raise
        self.work = trial
        _wv[0] += 1
        trial.version = ("w", _wv[0])  # type: ignore
        if (self.autocommit and not self.in_txn) or (st[0] in _DDL and d in ("mysql", "oracle")):
            self.commit()
        return Result(n if st[0] in _DML else 0)

    def _plsql(self, body: list, error: typing.Optional[DbError]) -> None:
        for s in body:
            if s[0] == "sql":
                self._execute(s[1])
            elif s[0] == "if":
                code = SQLCODE.get(error.kind, -20000) if error is not None else 0
                self._plsql(s[3] if (code == s[2]) == (s[1] == "=") else s[4], error)
            elif s[0] == "raise" and error is not None:
                raise error

    def _execute_many(self, st: tuple, seq: list, atomic: bool, fail_at: typing.Optional[int] = None, fail: typing.Optional[DbError] = None) -> int:
        """
        Executes one statement for a sequence of parameter rows. When a row fails, either nothing (atomic) or the rows
        before it remain in the transaction. `fail_at`/`fail` inject a failure at a row.
        """

        if self.db.dialect in ("mysql", "oracle") and st[0] in _DDL:
            raise DbError("syntax", "DDL with parameters")
        base = self.begin_write()
        own = self.autocommit and not self.in_txn

        def apply(rows: list) -> tuple[State, int, typing.Optional[DbError], int]:
            trial = base.clone()
            ex = Exec(trial)
            n = 0
            for i, r in enumerate(rows):
                try:
                    if fail_at is not None and i == fail_at and fail is not None:
                        raise fail
                    n += ex.run(st, r)
                except DbError as e:
                    return trial, n, e, i
            return trial, n, None, len(rows)

        trial, n, err, i = apply(seq)
        if self.db.received is not None:
            self.db.received.append([st[0], st[1], list(seq), 0])
        if err is not None:
            if atomic or i == 0:
                if own:
                    self.rollback()
                raise err
            trial, n, err2, _ = apply(seq[:i])
            assert err2 is None
        self.work = trial
        _wv[0] += 1
        trial.version = ("w", _wv[0])
        if own and (err is None):
            self.commit()
        if err is not None:
            raise err
        return n
