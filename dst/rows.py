"Records for entity classes: random values, their logical meaning, and a keyed-map reference model of a database's tables."

import datetime
import decimal
import ipaddress
import json
import random
import typing
import uuid

from . import schema

PYTYPE = {
    "bool": bool, "i16": int, "i32": int, "i64": int, "int": int, "f64": float, "f32": float, "dec": decimal.Decimal, "str": str, "s20": str, "s80": str,
    "dt": datetime.datetime, "date": datetime.date, "time": datetime.time, "uuid": uuid.UUID, "li": list, "ls": list,
}
RANGE = {"i16": (-1 << 15, 1 << 15), "i32": (-1 << 31, 1 << 31), "i64": (-1 << 63, 1 << 63), "int": (-1 << 63, 1 << 63)}
# further types (those of schema.RICH that hold one value); unsigned integers are stored in signed columns of the same size
RANGE.update({"i8": (-1 << 7, 1 << 7), "u8": (0, 1 << 8), "u16": (0, 1 << 15), "u32": (0, 1 << 31), "u64": (0, 1 << 63), "st2": (-1 << 15, 1 << 15), "st4": (-1 << 31, 1 << 31), "ui": (-1 << 31, 1 << 31)})
PYTYPE.update({t: int for t in RANGE})
PYTYPE.update({"f64x": float, "decp": decimal.Decimal, "dec14": decimal.Decimal, "d12": decimal.Decimal, "ip4": ipaddress.IPv4Address, "ip6": ipaddress.IPv6Address, "lit2": str,
               "dt3": datetime.datetime, "t0": datetime.time, "td": datetime.timedelta, "bytes": bytes, "si": set, "ss": set})
_SEQ = {"le": list, "se": set, "struct": dict, "lstruct": list}  # of enumeration values; structures
DECIMALS = ("dec", "decp", "dec14", "d12")
TEXTS = ["", "a", "it's", "back\\slash", "100%", "%s %d", "?", ":1", "$1", "line\nbreak", "tab\there", "été", "日本語", "NULL", "None", "null", "\\N", "a;b", ";\n", "--x", "/*c*/",
         " lead", "trail ", '"q"', "{x}", "0", "True", "|", "\r\n", "😀"]


def types(dialect: str) -> list[str]:
    "Field types whose values can be written in a dialect."
    return list(schema.SCALARS) + [t for t in schema.RICH if t in PYTYPE and dialect in schema.RICH_ONLY.get(t, (dialect,))]


def text(rng: random.Random, limit: int, dialect: str) -> str:
    k = rng.random()
    if k < 0.6:
        s = rng.choice(TEXTS)
    else:
        s = "".join(rng.choice("abcxyz 'é%0") for _ in range(rng.randrange(1, 12)))
    s = s[:limit]
    if dialect == "oracle" and s == "":
        s = "e"
    return s


def value(rng: random.Random, t: str, dialect: str):
    "A random value of a scalar field type."
    if t == "bool":
        return rng.random() < 0.5
    if t in RANGE:
        lo, hi = RANGE[t]
        return rng.choice([0, 1, max(lo, -1), rng.randrange(max(lo, -100), 100), hi - 1, lo, rng.randrange(lo, hi)])
    if t in ("f64", "f32", "f64x"):
        return rng.choice([0.0, 0.5, -1.25, 1e3, rng.randrange(-1000, 1000) / 8])
    if t == "dec":
        return decimal.Decimal(rng.randrange(-99999999, 99999999)) / 100
    if t == "dec14":
        return decimal.Decimal(rng.randrange(-(10**13), 10**13)) / 100
    if t == "d12":
        return decimal.Decimal(rng.randrange(-(10**12) + 1, 10**12))
    if t == "decp":  # no digits after the decimal point, except in PostgreSQL
        return decimal.Decimal(rng.randrange(-99999999, 99999999)) / (1000 if dialect == "postgresql" else 1)
    if t == "ip4":
        return ipaddress.IPv4Address(rng.choice([0, 0x7F000001, 0xFFFFFFFF, rng.getrandbits(32)]))
    if t == "ip6":
        return ipaddress.IPv6Address(rng.choice([0, 1, 1 << 127, rng.getrandbits(128)]))
    if t == "lit2":
        return rng.choice(["aa", "bb"])
    if t == "dt3":
        return datetime.datetime(2000, 1, 1) + datetime.timedelta(milliseconds=rng.randrange(-10**12, 10**12))
    if t == "t0":
        return datetime.time(rng.randrange(24), rng.randrange(60), rng.randrange(60))
    if t == "td":
        return datetime.timedelta(days=rng.randrange(-400, 400), seconds=rng.randrange(86400))
    if t == "bytes":
        return rng.choice([b"", b"\0", b"a\\'b", bytes(range(256)), rng.randbytes(rng.randrange(1, 20))]) if dialect != "oracle" else rng.randbytes(rng.randrange(1, 20))
    if t == "str":
        return text(rng, 200, dialect)
    if t in ("s20", "s80"):
        return text(rng, int(t[1:]), dialect)
    if t == "dt":
        return datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=rng.randrange(-10**9, 10**9))
    if t == "date":
        return datetime.date(2000, 2, 29) + datetime.timedelta(days=rng.randrange(-40000, 40000))
    if t == "time":
        return datetime.time(rng.randrange(24), rng.randrange(60), rng.randrange(60))
    if t == "uuid":
        return uuid.UUID(int=rng.getrandbits(128))
    if t == "li":
        return [rng.randrange(-9, 9) for _ in range(rng.randrange(0, 4))]
    if t == "ls":
        return [rng.choice([x for x in TEXTS if "\0" not in x]) for _ in range(rng.randrange(0, 4))]
    if t == "si":
        return {rng.randrange(-9, 9) for _ in range(rng.randrange(0, 4))}
    if t == "ss":
        return {rng.choice([x for x in TEXTS if "\0" not in x]) for _ in range(rng.randrange(0, 4))}
    raise AssertionError(t)


def logical(t: str, v):
    "The meaning of a value, given or stored, whatever its representation."
    if v is None:
        return None
    if t == "bool":
        return bool(v) if v in (0, 1) else f"<not a boolean: {v!r}>"
    if t in RANGE:
        return int(v) if isinstance(v, (int, decimal.Decimal)) and not isinstance(v, bool) and int(v) == v else f"<not an integer: {v!r}>"
    if t in ("f64", "f32", "f64x"):
        return float(v) if isinstance(v, (int, float, decimal.Decimal)) else f"<not a number: {v!r}>"
    if t in DECIMALS:
        return decimal.Decimal(v) if isinstance(v, (int, decimal.Decimal)) else f"<not a decimal: {v!r}>"
    if t in ("str", "s20", "s80", "lit2", "enum"):
        return v if isinstance(v, str) else f"<not text: {v!r}>"
    if t in ("dt", "dt3"):
        return v.replace(tzinfo=None) if isinstance(v, datetime.datetime) else f"<not a timestamp: {v!r}>"
    if t == "date":
        return v if isinstance(v, datetime.date) and not isinstance(v, datetime.datetime) else f"<not a date: {v!r}>"
    if t in ("time", "t0"):
        if isinstance(v, datetime.timedelta):
            return (datetime.datetime.min + v).time()
        return v.replace(tzinfo=None) if isinstance(v, datetime.time) else f"<not a time: {v!r}>"
    if t == "uuid":
        if isinstance(v, (bytes, bytearray)):
            return uuid.UUID(bytes=bytes(v)) if len(v) == 16 else f"<not a UUID: {v!r}>"
        return v if isinstance(v, uuid.UUID) else f"<not a UUID: {v!r}>"
    if t in ("ip4", "ip6"):
        cls, size = (ipaddress.IPv4Address, 4) if t == "ip4" else (ipaddress.IPv6Address, 16)
        if isinstance(v, (bytes, bytearray)):
            return cls(bytes(v)) if len(v) == size else f"<not an address: {v!r}>"
        return v if isinstance(v, cls) else f"<not an address: {v!r}>"
    if t == "td":
        return v if isinstance(v, datetime.timedelta) else f"<not an interval: {v!r}>"
    if t == "bytes":
        return bytes(v) if isinstance(v, (bytes, bytearray, memoryview)) else f"<not binary: {v!r}>"
    if t in ("struct", "lstruct"):
        if isinstance(v, str):
            try:
                v = json.loads(v)
            except ValueError:
                return f"<not a structure: {v!r}>"
        v = v if isinstance(v, list) else [v]
        return tuple(repr(sorted(x.items())) if isinstance(x, dict) else f"<not a structure: {x!r}>" for x in v)
    if t in ("si", "ss", "se"):
        v = sorted(v) if isinstance(v, (set, frozenset)) else logical("li", v)
        return tuple(sorted(v)) if isinstance(v, (list, tuple)) and len(set(v)) == len(v) else f"<not a set: {v!r}>"
    if t in ("li", "ls", "le"):
        if isinstance(v, str):
            try:
                v = json.loads(v)
            except ValueError:
                return f"<not a list: {v!r}>"
        return tuple(v) if isinstance(v, (list, tuple)) else f"<not a list: {v!r}>"
    raise AssertionError(t)


def sort_key(x) -> str:
    return repr(x)


class Model:
    "Reference model: every table is a map from primary key to a record of logical values."

    def __init__(self, spec: dict, dialect: str, ns: str, db):
        self.spec = spec
        self.d = dialect
        self.ns = ns
        self.db = db
        self.rows: dict[str, dict] = {t["name"]: {} for t in spec["tables"]}
        self.serial = 0

    def tab(self, name: str) -> dict:
        return next(t for t in self.spec["tables"] if t["name"] == name)

    def base_type(self, t: str) -> str:
        if t.startswith("ref:"):
            return self.tab(t[4:])["pk"]["t"]
        if t.startswith("union:"):
            return self.tab(t[6:].split("|")[0])["pk"]["t"]
        if t.startswith("enum:"):
            return "enum"
        if t.startswith("seq:"):
            return "lstruct" if ":struct:" in t else t[4] + "e"
        if t.startswith("struct:"):
            return "struct"
        return t

    def default(self, f: dict):
        if f["def"] is None:
            return None
        return logical(self.base_type(f["t"]), eval(f["def"], {"datetime": datetime, "decimal": decimal}))  # noqa: S307 - literals of this module

    # -- random records
    def new_key(self, rng: random.Random, t: dict):
        self.serial += 1
        k = t["pk"]["t"]
        if k == "s20":
            return f"k{self.serial}" + rng.choice(["", " x", "'", "é", "%"])
        if k == "uuid":
            return uuid.UUID(int=rng.getrandbits(120) * 64 + self.serial % 64)
        return self.serial * 4 + rng.randrange(4)

    def field_value(self, rng: random.Random, t: dict, f: dict):
        "A random value of a field as a user would supply it (label for enumerations, key for references)."
        bt = self.base_type(f["t"])
        if f["t"].startswith(("ref:", "union:")):
            keys = sorted({k for x in f["t"].split(":")[1].split("|") for k in self.rows[x]}, key=sort_key)
            if not keys or (f["opt"] and rng.random() < 0.2):
                return None
            return rng.choice(keys)
        if f["opt"] and rng.random() < 0.3:
            return None
        if bt in ("struct", "lstruct"):
            members = self.spec["structs"][f["t"].split(":")[-1]]["members"]
            made = [{m["n"]: value(rng, m["t"], self.d) for m in members} for _ in range(1 if bt == "struct" else rng.randrange(0, 3))]
            return made[0] if bt == "struct" else made
        if bt in _SEQ:
            values = self.spec["enums"][f["t"].split(":")[3]]
            return rng.choices(values, k=rng.randrange(0, 4)) if bt == "le" else set(rng.sample(values, rng.randrange(0, min(len(values), 3) + 1)))
        if bt == "enum":
            return rng.choice(self.spec["enums"][f["t"][5:]])
        if f["uniq"]:
            self.serial += 1
            return f"u{self.serial}" if bt in ("s20", "s80", "str") else self.serial
        return value(rng, bt, self.d)

    def possible(self, t: dict) -> bool:
        "Whether a row can be written at all (references need a target)."
        return all(f["opt"] or not f["t"].startswith(("ref:", "union:")) or any(self.rows[x] for x in f["t"].split(":")[1].split("|")) for f in t["fields"])

    def referenced(self, name: str) -> set:
        out = set()
        for t in self.spec["tables"]:
            for f in t["fields"]:
                if f["t"] == "ref:" + name:
                    out |= {r[f["n"]] for r in self.rows[t["name"]].values() if r[f["n"]] is not None}
        return out

    # -- operations
    def insert(self, name: str, key, rec: dict) -> None:
        t = self.tab(name)
        self.rows[name][key] = {f["n"]: logical(self.base_type(f["t"]), rec[f["n"]]) if f["n"] in rec else self.default(f) for f in t["fields"]}

    def upsert(self, name: str, key, rec: dict) -> None:
        if key not in self.rows[name]:
            self.insert(name, key, rec)
            return
        t = self.tab(name)
        for f in t["fields"]:
            if f["n"] in rec:
                self.rows[name][key][f["n"]] = logical(self.base_type(f["t"]), rec[f["n"]])

    def delete(self, name: str, key) -> None:
        self.rows[name].pop(key, None)

    # -- what is stored
    def labels(self, st, enum: str) -> dict:
        t = st.tables.get(schema.table_key(self.d, self.ns, enum, self.db.database))
        if t is None or not t.has("value"):
            return {}
        return {r.get(t.col("id").num): r.get(t.col("value").num) for r in t.rows}

    def stored(self, name: str, state=None) -> list[tuple]:
        "Logical content of a table: list of (key, record)."
        st = state or self.db.state
        t = self.tab(name)
        tab = st.tables[schema.table_key(self.d, self.ns, name, self.db.database)]
        out = []
        for r in tab.rows:
            key = logical(t["pk"]["t"], r.get(tab.col(t["pk"]["n"]).num))
            rec = {}
            for f in t["fields"]:
                c = tab.col(f["n"])
                v = r.get(c.num)
                if f["t"].startswith("enum:") and v is not None and c.type[0] in ("integer", "number", "bigint", "smallint"):
                    v = self.labels(st, f["t"][5:]).get(v, f"<dangling identifier {v}>")
                rec[f["n"]] = logical(self.base_type(f["t"]), v)
            out.append((key, rec))
        return out

    def difference(self, name: str, state=None) -> typing.Optional[str]:
        got = self.stored(name, state)
        want = self.rows[name]
        seen = {}
        for k, r in got:
            if k in seen:
                return f"{name}: key {k!r} is stored twice"
            seen[k] = r
        for k in want:
            if k not in seen:
                return f"{name}: row {k!r} is missing (expected {want[k]!r})"
        for k, r in seen.items():
            if k not in want:
                return f"{name}: unexpected row {k!r}: {r!r}"
            for n in r:
                if r[n] != want[k][n] or type(r[n]) is not type(want[k][n]):
                    return f"{name}[{k!r}].{n} is {r[n]!r}, expected {want[k][n]!r}"
        return None

    def adopt(self, name: str, recs: list[dict], state=None) -> typing.Optional[str]:
        "Accounts for rows whose key was assigned by the database."
        t = self.tab(name)
        new = [(k, r) for k, r in self.stored(name, state) if k not in self.rows[name]]
        want = [{f["n"]: logical(self.base_type(f["t"]), rec[f["n"]]) if f["n"] in rec else self.default(f) for f in t["fields"]} for rec in recs]
        if sorted((sorted(r.items()) for _, r in new), key=repr) != sorted((sorted(r.items()) for r in want), key=repr):
            return f"{name}: new rows are {new!r}, expected {want!r}"
        for k, r in new:
            self.rows[name][k] = r
        return None


def field_type(t: str, spec_type: str, rng: random.Random, mod, relation: bool) -> type:
    "The Python type a user declares for a record field."
    if spec_type.startswith("enum:"):
        return str
    return PYTYPE[t] if t in PYTYPE else _SEQ[t]


def source_of(kind: str, records: list, rng: random.Random, log: typing.Optional[list] = None):
    "Wraps records in one of the kinds of record sources."
    import asyncio

    if kind == "list":
        return list(records)
    if kind == "tuple":
        return tuple(records)
    if kind == "gen":
        return (r for r in records)
    if kind == "iter":
        return iter(list(records))

    async def agen():
        for r in records:
            k = rng.random()
            if k < 0.3:
                await asyncio.sleep(0)
            elif k < 0.5:
                await asyncio.sleep(rng.choice([0.001, 0.2, 3.0]))
            yield r

    return agen()


SOURCES = ["list", "list", "tuple", "gen", "iter", "async", "async"]
