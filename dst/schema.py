"""
Entity-class models as data: random schema specifications, evolution steps, the Python source text of a version, what the
database is expected to hold for it, and the observable catalog of a simulated server.
"""

import copy
import datetime
import decimal
import random
import re
import typing
import uuid
import zlib

from .server import DB, Con, DbError, Exec, State, Table, coerce

# name -> annotation
SCALARS = {
    "bool": "bool",
    "i16": "int16",
    "i32": "int32",
    "i64": "int64",
    "int": "int",
    "f64": "float",
    "f32": "float32",
    "dec": "Annotated[decimal.Decimal, Precision(10, 2)]",
    "str": "str",
    "s20": "Annotated[str, MaxLength(20)]",
    "s80": "Annotated[str, MaxLength(80)]",
    "dt": "datetime.datetime",
    "date": "datetime.date",
    "time": "datetime.time",
    "uuid": "uuid.UUID",
    "li": "list[int]",
    "ls": "list[str]",
}
# further types, used by checks that do not convert values
RICH = {
    "i8": "int8", "u8": "uint8", "u16": "uint16", "u32": "uint32", "u64": "uint64", "f64x": "float64", "decp": "decimal.Decimal",
    "dec14": "Annotated[decimal.Decimal, Precision(14, 2)]", "d12": "Annotated[decimal.Decimal, Precision(12)]", "ip4": "ipaddress.IPv4Address", "ip6": "ipaddress.IPv6Address", "si": "set[int]", "ss": "set[str]",
    "lit": 'Literal["a", "bb"]', "lit2": 'Literal["aa", "bb"]', "dt3": "Annotated[datetime.datetime, TimePrecision(3)]",
    "t0": "Annotated[datetime.time, TimePrecision(0)]", "st2": "Annotated[int, Storage(2)]", "st4": "Annotated[int, Storage(4)]", "ui": "Union[int16, int32]",
    "td": "datetime.timedelta", "bytes": "bytes",
}
RICH_ONLY = {"td": ("postgresql",), "bytes": ("postgresql", "oracle")}
WIDEN = {"i16": ["i32", "i64"], "i32": ["i64"], "f32": ["f64"], "s20": ["s80", "str"], "s80": ["str"],
         "i8": ["i16", "i32"], "u8": ["u32"], "u16": ["u32", "u64"], "st2": ["st4", "i64"], "st4": ["i64"], "dt3": ["dt"], "dec": ["dec14"]}
DEFAULTS = {
    "bool": ["True", "False"],
    "i16": ["0", "7", "-3"],
    "i32": ["0", "23", "-1"],
    "i64": ["0", "10000000000"],
    "int": ["0", "82", "-5"],
    "f64": ["0.5", "1.25"],
    "str": ["'x'", "'it\\'s'", "''", "'a b'", "'NULL'", "'0'", "'a;\\nb;'"],
    "s20": ["'q'", "'it\\'s'", "''"],
    "s80": ["'some text'", "'one;\\n two'"],
    "dt": ["datetime.datetime(2020, 1, 2, 3, 4, 5)"],
    "i8": ["0", "-5"],
    "u8": ["200"],
    "u32": ["0", "70000"],
    "f64x": ["2.5"],
    "st2": ["3"],
    "lit2": ["'aa'"],
}
FIELD_NAMES = ["name", "code", "kind", "amount", "note", "order", "user", "Value", "state", "created_at", "select", "x"]
TABLE_NAMES = ["Person", "Order", "Address", "Item", "Event", "Group", "User", "Audit"]
STRUCT_NAMES = ["Place", "Area", "Zone"]
ENUM_NAMES = ["Color", "Level", "Status"]
ENUM_VALUES = ["red", "green", "blue", "dark blue", "o'clock", "A", "b", "UPPER", "lower", "été"]
DOCS = ["A short text.", "It's quoted.", "Other words", "Some \"double\" quotes."]
TABLE_DOCS = DOCS + ["Several lines.\n\nThe first ends here;\nanother follows;", "It's long.\n\n-- not a comment;\nisn't; it?"]


class Gen:
    "Random generator of specifications and evolution steps."

    def __init__(self, rng: random.Random, dialect: str, *, docs: bool = True, max_tables: int = 4, types=None, composite: bool = True):
        self.r = rng
        self.d = dialect
        self.docs = docs
        self.max_tables = max_tables
        types = types or list(SCALARS)
        self.types = [t for t in types]
        self.composite = composite
        self.no = 0
        # the names of SQL Server defaults do not include the table (known finding)
        self.unique_defaults = dialect == "mssql"
        self.unique_enums = composite  # leaves little room for rows
        self.alter = False  # several properties of one column, and members of structures, change in one step
        self.rich = 0.0  # share of fields of further types, discriminated references and to-many relationships
        self.enum_lists = False  # lists of enumeration values are relationships to lookup tables
        self.records = False  # enumerations whose values are records, in tables of their own
        self.nested = True  # enumerations in lists and structures
        self.wide = False  # many columns and values
        self.refusable = False  # changes that synchronization may refuse
        self.fill = False  # the caller replaces NULL in columns that become required

    def doc(self) -> typing.Optional[str]:
        return self.r.choice(DOCS) if self.docs and self.r.random() < 0.35 else None

    def table_doc(self) -> typing.Optional[str]:
        return self.r.choice(TABLE_DOCS) if self.docs and self.r.random() < 0.35 else None

    def default(self, t: str) -> typing.Optional[str]:
        if t not in DEFAULTS:
            return None
        c = DEFAULTS[t]
        if self.d == "oracle":
            c = [x for x in c if x != "''"]
        return self.r.choice(c)

    def wider(self, t: str) -> list:
        c = WIDEN.get(t, [])
        if self.d == "oracle":  # Oracle cannot alter varchar2 to clob
            c = [x for x in c if x != "str"]
        if self.d == "mysql":  # a datetime has no fraction of a second there
            c = [x for x in c if x != "dt"]
        return c

    def rich_type(self, spec: dict, tab: dict) -> str:
        r = self.r
        k = r.random()
        if k < 0.15 and not self.enum_lists:
            seq = ["enum:" + e for e in sorted(spec["enums"]) if self.nested] + (["struct:" + n for n in sorted(spec["structs"])] if self.d == "postgresql" else [])
            if seq:
                x = r.choice(seq)
                return f"seq:{r.choice(['list', 'list', 'set']) if x.startswith('enum:') else 'list'}:{x}"
        elif k < 0.4:
            many = ["ref:" + t["name"] for t in spec["tables"] if not reaches(spec, t["name"], tab["name"])]
            if self.enum_lists:
                many += ["enum:" + e for e in sorted(spec["enums"])]
            if many:
                return "many:" + r.choice(["list", "list", "set"]) + ":" + r.choice(many)
        elif k < 0.6:
            ts = [t for t in spec["tables"] if not reaches(spec, t["name"], tab["name"])]
            pairs = [(a["name"], b["name"]) for a in ts for b in ts if a["name"] < b["name"] and a["pk"]["t"] == b["pk"]["t"] and a["pk"]["identity"] == b["pk"]["identity"]]
            if pairs:
                return "union:" + "|".join(r.choice(pairs))
        return r.choice([t for t in RICH if self.d in RICH_ONLY.get(t, (self.d,)) and not (self.enum_lists and RICH[t].startswith("set["))])

    def field(self, spec: dict, tab: dict, *, safe: bool = False) -> typing.Optional[dict]:
        "`safe`: can be added to a table that has rows."
        r = self.r
        used = {f["n"] for f in tab["fields"]} | {tab["pk"]["n"]}
        k = r.random()
        f: dict = {"opt": r.random() < 0.4, "def": None, "uniq": False, "doc": self.doc()}
        if spec.get("records") and r.random() < 0.2:
            f["t"] = "rec:" + r.choice(sorted(spec["records"]))
        elif self.rich and r.random() < self.rich:
            f["t"] = self.rich_type(spec, tab)
            if f["t"].startswith("many:"):
                f["opt"] = r.random() < 0.3
            elif not f["opt"] and r.random() < 0.3:
                f["def"] = self.default(f["t"])
        elif k < 0.18 and spec["tables"]:
            cands = [t["name"] for t in spec["tables"] if t["pk"]["t"] != "s20" or True]
            f["t"] = "ref:" + r.choice(cands)
            if f["t"] == "ref:" + tab["name"]:
                f["opt"] = True
        elif k < 0.33 and spec["enums"]:
            f["t"] = "enum:" + r.choice(sorted(spec["enums"]))
            if self.unique_enums and self.d != "mssql" and r.random() < 0.12:
                f["uniq"] = True
        elif k < (0.48 if self.alter else 0.38) and spec.get("structs") and self.d == "postgresql":
            f["t"] = "struct:" + r.choice(sorted(spec["structs"]))
        else:
            f["t"] = r.choice(self.types)
            if r.random() < 0.3 and not (f["opt"] and r.random() < 0.7):
                f["def"] = self.default(f["t"])
            if f["def"] is None and r.random() < 0.12 and f["t"] in ("i32", "int", "s20", "s80"):
                f["uniq"] = True
                if self.d == "mssql":
                    f["opt"] = False
        if f["def"] is not None and self.unique_defaults:
            self.no += 1
            f["n"] = f"{r.choice(FIELD_NAMES)}_{self.no}"
        else:
            names = [n for n in (FIELD_NAMES + [f"col{i}" for i in range(20)] if self.wide else FIELD_NAMES) if n not in used]
            if not names:
                return None
            f["n"] = r.choice(names)
        if safe and f["def"] is None and not f["t"].startswith("many:"):
            f["opt"] = True
            if f["uniq"] and self.d == "mssql":
                f["uniq"] = False
        if f["n"] in used:
            return None
        return f

    def table(self, spec: dict) -> typing.Optional[dict]:
        names = [n for n in TABLE_NAMES if n not in {t["name"] for t in spec["tables"]}]
        if not names:
            return None
        r = self.r
        pk = r.choice(["int", "int", "i32", "i64", "s20", "uuid"])
        t = {"name": r.choice(names), "doc": self.table_doc(), "pk": {"n": r.choice(["id", "id", "key", "Uid"]), "t": pk, "identity": False}, "fields": []}
        if pk in ("i32", "int", "i64") and r.random() < 0.25:
            t["pk"]["identity"] = True
        for _ in range(r.randrange(10, 26) if self.wide and r.random() < 0.5 else r.randrange(1, 6)):
            f = self.field(spec, t)
            if f is not None:
                t["fields"].append(f)
        h = zlib.crc32(repr(t).encode())  # a matter of how the class is written, drawn without the random stream
        if h % 5 == 0:
            t["shape"] = [("pos", "base", "abc")[h // 5 % 3], h // 15 % 4 + 1]
        return t

    def inner(self, s: dict) -> list[str]:
        "Member types that refer to other types."
        one = ["enum:" + e for e in sorted(s["enums"]) if self.nested] + ["struct:" + n for n in sorted(s["structs"])]
        return one + (["seq:list:" + x for x in one] if not self.enum_lists else [])

    def struct(self, s: dict) -> dict:
        r = self.r
        out = []
        for n in r.sample(["city", "zip", "kind", "geo"], r.randrange(1, 4)):
            inner = self.inner(s)
            out.append({"n": n, "t": r.choice(inner) if inner and r.random() < 0.5 else r.choice(["str", "i32", "f64", "int", "dt", "uuid", "bool"])})
        return {"doc": self.doc(), "members": out}

    def record(self) -> dict:
        r = self.r
        ms = [["code", "str"]] + r.sample([["rank", "i32"], ["share", "f64"], ["title", "str"], ["note", "ostr"], ["big", "int"]], r.randrange(0, 4))
        r.shuffle(ms)
        values = {"str": ["at", "Côte d'Ivoire", "x;y", "(1, 2)", "100%", "a\\b" if self.d in ("postgresql",) else "a/b"], "ostr": ["n", "it's"], "i32": [0, -1, 7, 2**31 - 1], "f64": [0.5, -2.25, 3.0], "int": [2**40, -5]}
        out: list = []
        for i in range(r.choice([1, 2, 2, 3, 9])):
            out.append([(f"{r.choice(values['str'])}{i}" if n == "code" else r.choice(values[t])) for n, t in ms])
        return {"members": ms, "rows": out}

    def spec(self) -> dict:
        r = self.r
        s: dict = {"enums": {}, "structs": {}, "tables": []}
        self.wide = self.wide or r.random() < 0.04
        for n in r.sample(ENUM_NAMES, r.randrange(0, 3)):
            s["enums"][n] = r.sample(ENUM_VALUES, r.randrange(1, 5))
            if self.wide and r.random() < 0.5:
                more = ENUM_VALUES + [f"value {i}" for i in range(12)]
                s["enums"][n] = r.sample(more, r.randrange(8, len(more) + 1))
            if self.d in ("postgresql", "oracle") and zlib.crc32(repr(s["enums"][n]).encode()) % 6 == 0:  # values that differ by case only
                s["enums"][n] += [v.upper() for v in s["enums"][n][:2] if v.upper() not in s["enums"][n]]
        if self.d == "postgresql" and self.composite and r.random() < 0.4:
            s["structs"]["Place"] = {"doc": self.doc(), "members": [{"n": "city", "t": "str"}, {"n": "zip", "t": "i32"}]}
            for n in STRUCT_NAMES[1:]:
                if r.random() < 0.3:
                    s["structs"][n] = self.struct(s)
            if r.random() < 0.5:  # classes in any order
                s["structs"] = {n: s["structs"][n] for n in r.sample(sorted(s["structs"]), len(s["structs"]))}
        if self.records:
            s["records"] = {n: self.record() for n in r.sample(["Country", "Unit"], r.choice([1, 1, 2]))}
        for _ in range(r.randrange(1, self.max_tables + 1)):
            t = self.table(s)
            if t:
                s["tables"].append(t)
        return s

    def ops(self, spec: dict, n: int, *, safe: bool = False, kinds: typing.Optional[list[str]] = None) -> list:
        "Random evolution steps, applied to a copy of the specification as they are generated."
        out: list = []
        cur = copy.deepcopy(spec)
        r = self.r
        weights = {
            "add_table": 3, "drop_table": 2, "add_field": 5, "drop_field": 4, "set_opt": 2, "set_def": 3, "widen": 3, "add_value": 2, "add_enum": 1,
            "drop_enum": 1, "add_struct": 0.7, "drop_struct": 0.5, "doc_table": 2, "doc_field": 2, "set_uniq": 2, "struct_member": 1, "rename_field": 2, "reorder": 1,
        }
        if self.alter:
            weights.update({"alter": 5, "drop_member": 1, "member_type": 1, "struct_member": 2})
        if self.refusable:
            weights.update({"drop_value": 1, "pk_identity": 1, "pk_widen": 1, "pk_rename": 0.5, "retype": 2, "retarget": 3})
        if kinds is not None:
            weights = {k: v for k, v in weights.items() if k in kinds}
        tries = 0
        added: set = set()
        dropped: set = set()  # a name is not given to a new table or field in the step that drops it: that would be an alteration
        while len(out) < n and tries < 40 * (n + 1):
            tries += 1
            k = r.choices(list(weights), list(weights.values()))[0]
            op = self.one(k, cur, safe)
            if op is None:
                continue
            if op[0] == "add_table" and op[1]["name"] in dropped or op[0] == "add_field" and (op[1], op[2]["n"]) in dropped:
                continue
            if op[0] == "add_enum" and op[1] in dropped or op[0] == "rename_field" and (op[1], op[3]) in dropped:
                continue
            if safe and len(op) > 2 and op[0] in ("set_def", "set_opt", "set_uniq", "set_type", "retype", "drop_field", "rename_field", "alter") and (op[1], op[2]) in added:
                continue
            if op[0] == "add_field":
                added.add((op[1], op[2]["n"]))
            if op[0] == "rename_field":
                added.add((op[1], op[3]))
            if op[0] == "drop_table":
                dropped.add(op[1])
                for t in cur["tables"]:
                    dropped.update((t["name"], f["n"]) for f in t["fields"] if "ref:" + op[1] in targets(f["t"]))
            elif op[0] == "drop_enum":
                dropped.add(op[1])
                for t in cur["tables"]:
                    dropped.update((t["name"], f["n"]) for f in t["fields"] if "enum:" + op[1] in targets(f["t"]))
            elif op[0] in ("drop_field", "rename_field"):
                dropped.add((op[1], op[2]))
            before = {(t["name"], f["n"]) for t in cur["tables"] for f in t["fields"]}
            if apply_op(cur, op):
                out.append(op)
                dropped |= before - {(t["name"], f["n"]) for t in sanitize(cur)["tables"] for f in t["fields"]}
        return out

    def one(self, k: str, s: dict, safe: bool) -> typing.Optional[list]:
        r = self.r
        tabs = s["tables"]
        if k == "add_table":
            if len(tabs) >= 6:
                return None
            t = self.table(s)
            return ["add_table", t] if t else None
        if k == "add_enum":
            names = [n for n in ENUM_NAMES if n not in s["enums"]]
            return ["add_enum", r.choice(names), r.sample(ENUM_VALUES, r.randrange(1, 4))] if names else None
        if k == "drop_enum":
            return ["drop_enum", r.choice(sorted(s["enums"]))] if s["enums"] else None
        if k == "add_value":
            if not s["enums"]:
                return None
            e = r.choice(sorted(s["enums"]))
            vals = [v for v in ENUM_VALUES if v not in s["enums"][e]]
            return ["add_value", e, r.choice(vals)] if vals else None
        if k == "drop_value":
            es = [e for e in sorted(s["enums"]) if len(s["enums"][e]) > 1]
            if not es:
                return None
            e = r.choice(es)
            return ["drop_value", e, r.choice(s["enums"][e])]
        if k == "add_struct":
            names = [n for n in STRUCT_NAMES if n not in s["structs"]]
            return ["add_struct", r.choice(names), self.struct(s)] if names and self.d == "postgresql" and self.composite else None
        if k == "drop_struct":
            return ["drop_struct", r.choice(sorted(s["structs"]))] if s["structs"] else None
        if k == "struct_member":
            if not s.get("structs"):
                return None
            st = r.choice(sorted(s["structs"]))
            have = {m["n"] for m in s["structs"][st]["members"]}
            n = [x for x in ("street", "lat", "lon", "alt") if x not in have]
            inner = [x for x in self.inner(s) if not (named(x) and holds(s, named(x), st))]
            return ["add_member", st, {"n": r.choice(n), "t": r.choice(["str", "f64", "int", "i16", "i32"] + inner)}] if n else None
        if k in ("drop_member", "member_type"):
            if not s.get("structs"):
                return None
            st = r.choice(sorted(s["structs"]))
            m = r.choice(s["structs"][st]["members"])
            if k == "drop_member":
                return ["drop_member", st, m["n"]]
            return ["member_type", st, m["n"], r.choice(WIDEN[m["t"]])] if m["t"] in WIDEN else None
        if not tabs:
            return None
        t = r.choice(tabs)
        if k == "drop_table":
            return ["drop_table", t["name"]] if len(tabs) > 1 else None
        if k == "doc_table":
            return ["doc_table", t["name"], self.table_doc()] if self.docs else None
        if k == "reorder":
            return ["reorder", t["name"], r.randrange(1, 5)]
        if k in ("pk_identity", "pk_widen", "pk_rename"):
            if any("ref:" + t["name"] in targets(f["t"]) for x in tabs for f in x["fields"] if f["t"].startswith(("union:", "many:"))):
                return None
            if k == "pk_identity":
                return ["pk_identity", t["name"], not t["pk"]["identity"]] if t["pk"]["t"] in ("i32", "int", "i64") else None
            if k == "pk_widen":
                return ["pk_widen", t["name"], "i64"] if t["pk"]["t"] == "i32" else None
            return ["pk_rename", t["name"], t["pk"]["n"] + "2"]
        if k == "add_field":
            f = self.field(s, t, safe=safe)
            return ["add_field", t["name"], f] if f else None
        if not t["fields"]:
            return None
        f = r.choice(t["fields"])
        if k == "drop_field":
            return ["drop_field", t["name"], f["n"]]
        many = f["t"].startswith("many:")
        if many and k in ("alter", "set_opt", "set_def", "widen", "set_uniq", "doc_field"):
            return None
        if k == "doc_field":
            return ["doc_field", t["name"], f["n"], self.doc()] if self.docs else None
        if k == "rename_field":
            return ["rename_field", t["name"], f["n"], f["n"] + "2"] if not f["n"].endswith("2") and (f["opt"] or many or not safe or f["def"] is not None) and not (
                safe and f["uniq"] and self.d == "mssql") else None
        if k == "alter":
            return self.change(t, f, safe)
        if k == "set_opt":
            if safe and f["opt"] and not self.fill:
                return None
            if f["uniq"] and self.d == "mssql" or f["t"] == "ref:" + t["name"]:
                return None
            return ["set_opt", t["name"], f["n"], not f["opt"]]
        if k == "set_def":
            if f["def"] is None:
                if self.unique_defaults and not ("_" in f["n"] and f["n"].split("_")[-1].isdigit()) or f["uniq"]:
                    return None
                d = self.default(f["t"])
            else:
                d = r.choice([None, self.default(f["t"])])
            return ["set_def", t["name"], f["n"], d] if d != f["def"] else None
        if k == "widen":
            if f["uniq"] or not self.wider(f["t"]):
                return None
            return ["set_type", t["name"], f["n"], r.choice(self.wider(f["t"]))]
        if k == "set_uniq":
            if f["t"] not in ("i32", "int", "s20", "s80") or f["def"] is not None or (self.d == "mssql" and f["opt"]):
                return None
            if safe and not f["uniq"]:
                return None
            return ["set_uniq", t["name"], f["n"], not f["uniq"]]
        if k == "retarget":  # a reference to another table
            others = [x["name"] for x in s["tables"] if "ref:" + x["name"] != f["t"] and x["name"] != t["name"] and f["t"][:4] == "ref:" and _tab(s, f["t"][4:]) and x["pk"]["t"] == _tab(s, f["t"][4:])["pk"]["t"]]
            if not f["t"].startswith("ref:") or not others:
                return None
            return ["retarget", t["name"], f["n"], "ref:" + r.choice(others)]
        if k == "retype":  # text becomes a value of an enumeration, or a number
            if f["t"] not in ("s20", "s80", "str") or f["uniq"] or f["def"] is not None:
                return None
            return ["retype", t["name"], f["n"], "enum:" + r.choice(sorted(s["enums"])) if s["enums"] and r.random() < 0.8 else "int"]
        return None

    def change(self, t: dict, f: dict, safe: bool) -> typing.Optional[list]:
        "Several properties of one column change in the same step."
        r = self.r
        ch: dict = {}
        ty = f["t"]
        if r.random() < 0.6 and not (f["uniq"] and self.d == "mssql") and ty != "ref:" + t["name"] and (self.fill or not safe or not f["opt"]):
            ch["opt"] = not f["opt"]
        if r.random() < 0.5 and not f["uniq"] and self.wider(ty):
            ch["t"] = ty = r.choice(self.wider(ty))
        if r.random() < 0.6 and not f["uniq"]:
            d = self.default(ty) if f["def"] is None else r.choice([None, self.default(ty)])
            if d != f["def"] and (d is None or not self.unique_defaults or f["n"].split("_")[-1].isdigit()):
                ch["def"] = d
        if r.random() < 0.4 and self.docs:
            d = self.doc()
            if d != f.get("doc"):
                ch["doc"] = d
        return ["alter", t["name"], f["n"], ch] if len(ch) > 1 else None


def _tab(s: dict, n: str) -> typing.Optional[dict]:
    return next((t for t in s["tables"] if t["name"] == n), None)


def _fld(t: dict, n: str) -> typing.Optional[dict]:
    return next((f for f in t["fields"] if f["n"] == n), None)


def apply_op(s: dict, op: list) -> bool:
    "Applies an evolution step in place; returns False when it does not apply."
    k = op[0]
    if k == "add_table":
        if _tab(s, op[1]["name"]):
            return False
        t = copy.deepcopy(op[1])
        t["fields"] = [f for f in t["fields"] if _valid(s, t, f)]
        s["tables"].append(t)
        return True
    if k == "drop_table":
        t = _tab(s, op[1])
        if t is None or len(s["tables"]) < 2:
            return False
        for o in s["tables"]:
            o["fields"] = [f for f in o["fields"] if "ref:" + op[1] not in targets(f["t"])]
        s["tables"] = [o for o in s["tables"] if o["name"] != op[1]]
        return True
    if k == "add_enum":
        if op[1] in s["enums"]:
            return False
        s["enums"][op[1]] = list(op[2]) or ["red"]
        return True
    if k == "drop_enum":
        if op[1] not in s["enums"]:
            return False
        del s["enums"][op[1]]
        members(s)
        for o in s["tables"]:
            o["fields"] = [f for f in o["fields"] if "enum:" + op[1] not in targets(f["t"])]
        return True
    if k == "add_struct":
        if op[1] in s["structs"]:
            return False
        s["structs"][op[1]] = copy.deepcopy(op[2])
        members(s)
        return True
    if k == "drop_struct":
        if op[1] not in s["structs"]:
            return False
        del s["structs"][op[1]]
        members(s)
        for o in s["tables"]:
            o["fields"] = [f for f in o["fields"] if named(f["t"]) != op[1]]
        return True
    if k == "add_value":
        if op[1] not in s["enums"] or op[2] in s["enums"][op[1]]:
            return False
        s["enums"][op[1]].append(op[2])
        return True
    if k == "drop_value":
        if op[2] not in s["enums"].get(op[1], []) or len(s["enums"][op[1]]) < 2:
            return False
        s["enums"][op[1]].remove(op[2])
        return True
    if k == "add_member":
        st = s.get("structs", {}).get(op[1])
        if st is None or any(m["n"] == op[2]["n"] for m in st["members"]):
            return False
        # PostgreSQL cannot alter a type some column uses in place only for attribute type changes; adding is fine
        st["members"].append(dict(op[2]))
        members(s)
        return any(m["n"] == op[2]["n"] for m in st["members"])
    if k in ("drop_member", "member_type"):
        st = s.get("structs", {}).get(op[1])
        m = next((m for m in st["members"] if m["n"] == op[2]), None) if st else None
        if m is None or k == "drop_member" and len(st["members"]) < 2:
            return False
        if k == "drop_member":
            st["members"].remove(m)
        else:
            m["t"] = op[3]
        return True
    t = _tab(s, op[1])
    if t is None:
        return False
    if k == "doc_table":
        t["doc"] = op[2]
        return True
    if k in ("pk_identity", "pk_widen", "pk_rename"):
        a = {"pk_identity": "identity", "pk_widen": "t", "pk_rename": "n"}[k]
        if t["pk"][a] == op[2] or k == "pk_rename" and _fld(t, op[2]):
            return False
        t["pk"][a] = op[2]
        return True
    if k == "reorder":
        if len(t["fields"]) < 2:
            return False
        i = op[2] % len(t["fields"])
        t["fields"] = t["fields"][i:] + t["fields"][:i]
        return True
    if k == "add_field":
        if not _valid(s, t, op[2]) or _fld(t, op[2]["n"]) or t["pk"]["n"] == op[2]["n"]:
            return False
        t["fields"].append(copy.deepcopy(op[2]))
        return True
    f = _fld(t, op[2])
    if f is None:
        return False
    if k == "drop_field":
        t["fields"].remove(f)
    elif k == "doc_field":
        f["doc"] = op[3]
    elif k == "rename_field":
        if _fld(t, op[3]):
            return False
        f["n"] = op[3]
    elif k == "set_opt":
        f["opt"] = op[3]
    elif k == "set_def":
        f["def"] = op[3]
    elif k in ("retype", "retarget") and not _valid(s, t, {"t": op[3]}):
        return False
    elif k in ("set_type", "retype", "retarget"):
        f["t"] = op[3]
        if f["def"] is not None and op[3] not in DEFAULTS:
            f["def"] = None
    elif k == "set_uniq":
        f["uniq"] = op[3]
    elif k == "alter":
        if not op[3]:
            return False
        f.update(op[3])
        if f["def"] is not None and f["t"] not in DEFAULTS:
            f["def"] = None
    else:
        return False
    return True


def targets(t: str) -> list[str]:
    "Tables and enumerations a field type refers to."
    if t.startswith("many:"):
        return [t.split(":", 2)[2]]
    if t.startswith("union:"):
        return ["ref:" + x for x in t[6:].split("|")]
    if t.startswith("seq:"):
        return [x for x in [t.split(":", 2)[2]] if x.startswith("enum:")]
    return [t] if t.startswith(("ref:", "enum:", "rec:")) else []


def named(t: str) -> typing.Optional[str]:
    "The structure that a field or member type refers to."
    x = t.split(":", 2)[2] if t.startswith("seq:") else t
    return x[7:] if x.startswith("struct:") else None


def holds(s: dict, a: str, b: str) -> bool:
    "Whether structure `a` is `b`, or has members of it."
    seen: set = set()
    todo = [a]
    while todo:
        n = todo.pop()
        if n == b:
            return True
        if n not in seen and n in s["structs"]:
            seen.add(n)
            todo += [x for m in s["structs"][n]["members"] for x in [named(m["t"])] if x]
    return False


def _hard(f: dict) -> list[str]:
    "Tables whose classes must be defined before the class with this field."
    return [x[4:] for x in targets(f["t"]) if x.startswith("ref:")] if f["t"].startswith(("many:", "union:")) else []


def reaches(s: dict, a: str, b: str) -> bool:
    "Whether table `a` is `b`, or must be defined after it."
    seen: set = set()
    todo = [a]
    while todo:
        n = todo.pop()
        if n == b:
            return True
        if n not in seen:
            seen.add(n)
            t = _tab(s, n)
            todo += [x for f in t["fields"] for x in _hard(f)] if t else []
    return False


def columns(t: dict) -> list[dict]:
    "Fields that have a column in the table of their class."
    return [f for f in t["fields"] if not f["t"].startswith("many:")]


def join_tables(s: dict) -> list[dict]:
    "The tables of to-many relationships, in the form of a specification."
    out = []
    for t in s["tables"]:
        for f in t["fields"]:
            if f["t"].startswith("many:"):
                _, how, what = f["t"].split(":", 2)
                x = what.split(":", 1)[1]
                left = f"{t['name']}_{f['n']}"
                if what.startswith("ref:"):
                    pk = _tab(s, x)["pk"]
                else:
                    pk = {"n": "id", "t": "int"}
                out.append({"name": f"{left}_{x}", "pk": {"n": "uuid", "t": "uuid", "identity": False}, "how": how, "fields": [
                    {"n": left, "t": "ref:" + t["name"]}, {"n": f"{x}_{pk['n']}", "t": "ref:" + x}]})
    return out


def _valid(s: dict, t: dict, f: dict) -> bool:
    ty = f["t"]
    if ty.startswith(("many:", "union:")):
        for x in targets(ty):
            k, n = x.split(":", 1)
            if k == "enum" and n not in s["enums"] or k == "ref" and (_tab(s, n) is None or reaches(s, n, t["name"])):
                return False
        return True
    if ty.startswith("ref:"):
        return ty[4:] == t["name"] or _tab(s, ty[4:]) is not None
    if ty.startswith("enum:"):
        return ty[5:] in s["enums"]
    if ty.startswith("rec:"):
        return ty[4:] in s.get("records", {})
    if ty.startswith("seq:enum:") or ty.startswith("seq:") and ":enum:" in ty:
        return targets(ty)[0][5:] in s["enums"]
    if named(ty):
        return named(ty) in s.get("structs", {})
    return True


def members(s: dict) -> None:
    "Removes members whose type is gone; a structure keeps at least one."
    for n, st in s.get("structs", {}).items():
        st["members"] = [m for m in st["members"] if _valid(s, {"name": ""}, {"t": m["t"]}) and not (named(m["t"]) and holds(s, named(m["t"]), n))]
        if not st["members"]:
            st["members"].append({"n": "city", "t": "str"})


def sanitize(s: dict) -> dict:
    "Makes a specification consistent after parts of it were removed."
    s = copy.deepcopy(s)
    for e in s["enums"].values():
        if not e:
            e.append("red")
    members(s)
    for t in s["tables"]:
        t["fields"] = [f for f in t["fields"] if _valid(s, t, f)]
    return s


def versions(base: dict, steps: list[list]) -> list[dict]:
    cur = sanitize(base)
    out = [copy.deepcopy(cur)]
    for ops in steps:
        for op in ops:
            apply_op(cur, op)
        out.append(copy.deepcopy(cur))
    return out


AUTO = {**{k: "0" for k in ("i8", "i16", "i32", "i64", "int", "u8", "u16", "u32", "u64", "st2", "st4", "ui")}, "bool": "False", "f64": "0.0", "f32": "0.0", "f64x": "0.0",
        "dec": "decimal.Decimal(0)", "decp": "decimal.Decimal(0)", "dec14": "decimal.Decimal(0)", "d12": "decimal.Decimal(0)", "str": "''", "s20": "''", "s80": "''",
        "dt": "datetime.datetime.min", "dt3": "datetime.datetime.min"}


def automatic(vs: list[dict], d: str, opts: dict) -> list[dict]:
    "Required fields get a default value where `auto_default` has one for them; fields for which it has no valid one become optional."
    if not opts.get("auto_default"):
        return vs
    for v in vs:
        for t in v["tables"]:
            for f in t["fields"]:
                if f["t"].startswith(("many:", "struct:", "seq:")) or f["t"] in ("li", "ls", "si", "ss") or f["def"] is not None:
                    continue
                if f["t"].startswith("enum:") and d == "postgresql" and opts.get("enum_mode") in (None, "TYPE"):
                    value = repr(v["enums"][f["t"][5:]][0])
                else:
                    value = AUTO.get(f["t"])
                if value is None or value == "''" and d == "oracle":
                    f["opt"] = True
                elif not f["opt"]:
                    f["auto"] = value
    return vs


def refusable(v1: dict, v2: dict, migrates: bool = False) -> list[str]:
    "Changes that not every database can make: synchronization may refuse them."
    out = []
    for e, values in v1["enums"].items():
        if any(v not in v2["enums"].get(e, values) for v in values):
            out.append("value")
    for t in v1["tables"]:
        u = _tab(v2, t["name"])
        if u is not None:
            out += [k for k in ("n", "t", "identity") if u["pk"][k] != t["pk"][k]]
            for f in t["fields"]:
                g = _fld(u, f["n"])
                if g is not None and f["t"].startswith("ref:") and g["t"] != f["t"]:
                    out.append("target")
                if g is not None and f["t"] in ("s20", "s80", "str") and (g["t"] == "int" or g["t"].startswith("enum:") and not migrates):
                    out.append("type")
    return out


# ---------------------------------------------------------------------------------------------- Python source

HEADER = """
import abc, dataclasses, datetime, decimal, enum, ipaddress, uuid
from typing import Annotated, Literal, Optional, Union
from strong_typing.auxiliary import MaxLength, Precision, Storage, TimePrecision, float32, float64, int8, int16, int32, int64, uint8, uint16, uint32, uint64
from pysqlsync.model.key_types import Identity, PrimaryKey, Unique
"""


def annotation(t: str) -> str:
    if t.startswith(("ref:", "enum:", "struct:", "rec:")):
        return t.split(":", 1)[1]
    if t.startswith("many:"):
        return f"{t.split(':')[1]}[{t.split(':')[3]}]"
    if t.startswith("union:"):
        return f"Union[{t[6:].replace('|', ', ')}]"
    if t.startswith("seq:"):
        return f"{t.split(':')[1]}[{t.split(':')[3]}]"
    return SCALARS.get(t) or RICH[t]


def field_annotation(f: dict, own: str) -> str:
    a = annotation(f["t"])
    if f["t"] == "ref:" + own:
        a = f'"{own}"'
    if f.get("uniq"):
        a = f"Unique[{a}]"
    if f["opt"]:
        a = f"Optional[{a}]"
    return a


def ordered_tables(s: dict) -> list[dict]:
    "Referenced tables first."
    done: list[dict] = []
    names: set = {x[4:] for t in s["tables"] for f in t["fields"] for x in targets(f["t"]) if x.startswith("ref:")} - {t["name"] for t in s["tables"]}
    todo = list(s["tables"])
    while todo:
        for t in todo:
            if all(not x.startswith("ref:") or x[4:] in names or x[4:] == t["name"] for f in t["fields"] for x in targets(f["t"])):
                done.append(t)
                names.add(t["name"])
                todo.remove(t)
                break
        else:
            # references may be circular; the classes of relationships and discriminated references are needed when the class is defined
            t = next(t for t in todo if all(x in names or x == t["name"] for f in t["fields"] for x in _hard(f)))
            done.append(t)
            names.add(t["name"])
            todo.remove(t)
    return done


def source(s: dict, elsewhere: typing.Sequence[str] = (), prefix: str = "") -> str:
    out = [HEADER]
    for n in s["enums"]:
        out.append(f"class {n}(enum.Enum):")
        for i, v in enumerate(s["enums"][n]):
            out.append(f"    m{i} = {v!r}")
    for n, x in s.get("records", {}).items():
        out.append(f"@dataclasses.dataclass\nclass {n}Values:")
        out += [f"    {m}: {'Optional[str]' if t == 'ostr' else annotation(t)}" for m, t in x["members"]]
        out.append(f"class {n}(enum.Enum):")
        out += [f"    m{i} = {n}Values({', '.join(map(repr, row))})" for i, row in enumerate(x["rows"])]
    known = set(elsewhere) | {m for st in s.get("structs", {}).values() for x in st["members"] for m in [named(x["t"])] if m and m not in s["structs"]}
    for n, st in s.get("structs", {}).items():
        out.append(f"@dataclasses.dataclass\nclass {n}:")
        if st.get("doc"):
            out.append(f"    {('' + st['doc'])!r}")
        for m in st["members"]:
            a = annotation(m["t"])
            for x in elsewhere:
                a = re.sub(rf"\b{x}\b", prefix + x, a)
            out.append(f"    {m['n']}: {a!r}" if named(m["t"]) and not {named(m["t"])} & known else f"    {m['n']}: {a}")
        known.add(n)
    ts = ordered_tables(s)
    order = {t["name"]: i for i, t in enumerate(ts)}
    for i, t in enumerate(ts):
        how, n_lead = t.get("shape") or (None, 0)
        pk = t["pk"]
        a = annotation(pk["t"])
        a = f"PrimaryKey[Identity[{a}]]" if pk["identity"] else f"PrimaryKey[{a}]"
        lines = []
        body = t["fields"]
        for f in [x for x in body if x["def"] is None] + [x for x in body if x["def"] is not None]:
            ann = field_annotation(f, t["name"])
            for x in elsewhere:
                ann = re.sub(rf"\b{x}\b", prefix + x, ann)
            if f["t"].startswith("ref:") and order.get(f["t"][4:], -1) > i:
                ann = ann.replace(f["t"][4:], f'"{f["t"][4:]}"')
            if f["def"] is not None:
                lines.append(f"    {f['n']}: {ann} = {f['def']}")
            else:
                lines.append(f"    {f['n']}: {ann}")
        # the key need not come first, and fields may be inherited (with no description: the documentation of the base class is not looked at)
        key = f"    {pk['n']}: {a}"
        lead = min(n_lead, sum(x["def"] is None for x in body))
        parent = ""
        inherited = [x["n"] for x in body if x["def"] is None][: lead if how == "base" else max(lead - 1, 0) if how == "abc" else 0]
        docs = [(f["n"], f["doc"]) for f in t["fields"] if f.get("doc") and f["n"] not in inherited]
        described = []
        if t.get("doc") or docs:
            text = (t.get("doc") or "Some table.") + "\n"
            if docs:
                text += "\n" + "".join(f":param {n}: {d}\n" for n, d in docs)
            described.append("    __doc__ = " + repr(text))
        if how == "base" and lead:  # from a class that is not an entity
            parent = f"(Common{t['name']})"
            out += [f"@dataclasses.dataclass\nclass Common{t['name']}:", *lines[:lead]]
            lines = lines[lead:]
        elif how == "abc":  # from an abstract entity
            parent = f"(Abstract{t['name']})"
            out += [f"@dataclasses.dataclass\nclass Abstract{t['name']}(abc.ABC):", key, *lines[: max(lead - 1, 0)], "    @abc.abstractmethod\n    def describe(self) -> str: ..."]
            lines = [*lines[max(lead - 1, 0) :], "    def describe(self) -> str:\n        return 'me'"]
        if how == "pos":
            lines.insert(lead, key)
        elif how != "abc":
            lines.insert(0, key)
        out += [f"@dataclasses.dataclass\nclass {t['name']}{parent}:", *described, *lines]
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------------------------------------- observable catalog


def _default_obs(db_state: State, t: Table, c) -> typing.Any:
    if c.default is None:
        return None
    try:
        v = coerce(db_state, c.type, Exec(db_state).ev(c.default, {}, None), literal=True)
        return None if v is None else repr(v)
    except DbError as e:
        return f"error {e}"


def _tyname(ty: tuple) -> str:
    return repr(ty)


def con_obs(st: State, t: Table, c: Con) -> tuple:
    if c.kind == "c":
        return ("c", c.name, str(c.text))
    cols = tuple(t.cols[n].name for n in c.cols)
    if c.kind == "f":
        rt = st.tables[c.ref]
        return ("f", c.name, cols, c.ref, tuple(rt.cols[n].name for n in c.refcols))
    return (c.kind, c.name, cols)


def observe(db: DB, state: typing.Optional[State] = None, *, only: typing.Optional[typing.Callable[[tuple], bool]] = None) -> dict:
    "The observable catalog: what a user can find out about the schema, independent of how it came about."
    st = state or db.state
    keep = only or (lambda k: True)
    tables = {}
    for key, t in sorted(st.tables.items()):
        if not keep(key):
            continue
        cols = {}
        for c in t.live():
            cols[c.name] = {
                "type": _tyname(c.type), "notnull": c.notnull, "default": _default_obs(st, t, c), "identity": c.identity, "comment": c.comment or None,
            }
        tables[f"{key[0]}.{key[1]}"] = {"cols": cols, "cons": sorted(map(repr, (con_obs(st, t, c) for c in t.cons.values()))), "comment": t.comment or None}
    return {
        "tables": tables,
        "enums": {f"{k[0]}.{k[1]}": list(v) for k, v in sorted(st.enums.items()) if keep(k)},
        "structs": {f"{k[0]}.{k[1]}": {"members": sorted((m[0], repr(m[1]), m[2] or None) for m in v["members"]), "comment": v["comment"] or None}
                    for k, v in sorted(st.structs.items()) if keep(k)},
        "schemas": sorted(n for n in st.schemas if keep((n, None))),
    }


def diff(a: typing.Any, b: typing.Any, path: str = "") -> list[str]:
    if type(a) is dict and type(b) is dict:
        out = []
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                out.append(f"{path}/{k}: only in second: {b[k]!r}")
            elif k not in b:
                out.append(f"{path}/{k}: only in first: {a[k]!r}")
            else:
                out.extend(diff(a[k], b[k], f"{path}/{k}"))
        return out
    if a != b:
        return [f"{path}: {a!r} != {b!r}"]
    return []


# ---------------------------------------------------------------------------------------------- expectation from the specification


class Home(str):
    "A namespace; some of the tables, enumerations and structures live in another one."

    aux: typing.Optional[str] = None
    names: frozenset = frozenset()
    imports: str = "from"
    first: bool = False

    def of(self, name: str) -> str:
        return self.aux if self.aux is not None and name in self.names else str(self)


def home(plan: dict, vs: list[dict]) -> Home:
    """
    The namespaces of a plan. The second one, if any, has what was picked and all that this refers to in any version, such
    that the module with its classes need not import the other one.
    """
    h = Home(plan["_ns"])
    x = plan.get("aux")
    if not x:
        return h
    names = set(x["pick"])
    while True:
        more = {x for v in vs for t in v["tables"] if t["name"] in names for f in t["fields"] for x in [named(f["t"])] if x}
        more |= {x for v in vs for n, st in v.get("structs", {}).items() if n in names for m in st["members"] for x in [named(m["t"]) or m["t"].split(":")[-1]] if ":" in m["t"]}
        more |= {y.split(":", 1)[1] for v in vs for t in v["tables"] if t["name"] in names for f in t["fields"] for y in targets(f["t"])}
        if more <= names:
            break
        names |= more
    joins = {t["name"] for v in vs for t in join_tables({**v, "tables": v["tables"]}) if t["fields"][0]["t"][4:] in names}
    h.aux, h.names, h.imports, h.first = x["ns"], frozenset(names | joins), x["imports"], x["first"]
    return h


def gen_home(rng: random.Random, plan: dict, share: float = 0.25) -> dict:
    if rng.random() < share:
        names = [t["name"] for t in plan["base"]["tables"]] + list(plan["base"]["enums"]) + list(plan["base"].get("structs", {})) + list(plan["base"].get("records", {}))
        near = plan["_ns"] + rng.choice(["2", "_x", "x"])
        plan["aux"] = {"pick": rng.sample(names, min(len(names), rng.choice([1, 1, 2]))), "ns": rng.choice(["aux", near] + ([""] if plan["_ns"] else [])), "imports": rng.choice(["from", "import"]), "first": rng.random() < 0.5}
    return plan


def modules(ctx: typing.Any, v: dict, h: Home, name: str = "vmod") -> tuple[list, dict]:
    "Defines the modules of a version; returns them in the order in which they are to be synchronized, and their namespaces."
    if h.aux is None:
        m = ctx.module(name, source(v))
        return [m], {m: str(h) or None}

    def part(inside: bool) -> dict:
        return {"enums": {k: x for k, x in v["enums"].items() if (k in h.names) is inside}, "structs": {k: x for k, x in v.get("structs", {}).items() if (k in h.names) is inside},
                "tables": [t for t in v["tables"] if (t["name"] in h.names) is inside],
                "records": {k: x for k, x in v.get("records", {}).items() if (k in h.names) is inside}}

    other = part(True)
    m2 = ctx.module(name + "x", source(other))
    here = sorted(list(other["enums"]) + list(other["structs"]) + list(other["records"]) + [t["name"] for t in other["tables"]])
    text = source(part(False), here if h.imports == "import" else [], name + "x.")
    if h.imports == "import":
        text = f"import {name}x\n" + text
    elif here:
        text = f"from {name}x import {', '.join(here)}\n" + text
    m = ctx.module(name, text)
    ms = [m2, m] if h.first else [m, m2]
    return ms, {m: str(h) or None, m2: h.aux or None}


def table_key(dialect: str, ns: str, name: str, db: str = "db") -> tuple:
    if isinstance(ns, Home):
        ns = ns.of(name)
    if dialect in ("postgresql", "mssql", "redshift"):
        return (ns or {"mssql": "dbo"}.get(dialect, "public"), name)
    if not ns:
        return ({"mysql": db, "oracle": "APP"}[dialect], name)
    return ({"mysql": db, "oracle": "APP"}[dialect], f"{ns}__{name}")


_FAMILY = {
    "bool": {"boolean", "bit", "tinyint", "number", "decimal", "smallint"},
    "i16": {"smallint", "number"}, "i32": {"integer", "number"}, "i64": {"bigint", "number"}, "int": {"bigint", "number"},
    "f64": {"double", "real", "float"}, "f32": {"real", "float", "double"}, "dec": {"decimal", "number"},
    "str": {"text", "varchar", "mediumtext", "longtext", "clob", "nvarchar", "varchar2"}, "s20": {"varchar", "varchar2", "nvarchar"},
    "s80": {"varchar", "varchar2", "nvarchar"}, "dt": {"timestamp", "datetime", "datetime2", "timestamp with time zone"}, "date": {"date"},
    "time": {"time", "timestamp", "interval day to second", "time with time zone", "varchar2"},
    "uuid": {"uuid", "binary", "raw", "char", "varbyte"},
    "u64": {"bigint", "number"}, "decp": {"decimal", "number"}, "d12": {"decimal", "number"}, "dec14": {"decimal", "number"}, "ip4": {"inet", "binary", "raw"}, "ip6": {"inet", "binary", "raw"},
    "lit": {"char", "varchar", "varchar2", "nchar"}, "lit2": {"char", "varchar", "varchar2", "nchar"},
    "td": {"interval", "interval day to second"}, "bytes": {"bytea", "blob"},
}
for _t in ("i8", "u8", "u16", "st2"):
    _FAMILY[_t] = {"tinyint", "smallint", "number"}
for _t in ("u32", "st4", "ui"):
    _FAMILY[_t] = {"integer", "number"}
_FAMILY.update({"f64x": _FAMILY["f64"], "dt3": _FAMILY["dt"], "t0": _FAMILY["time"]})


# lengths, precisions and scales as declared
_SIZES = {"dec": ("decimal", "number"), "dec14": ("decimal", "number"), "d12": ("decimal", "number"), "ip4": ("binary", "raw"), "ip6": ("binary", "raw"), "uuid": ("binary", "raw"),
          "lit": ("char",), "lit2": ("char",), "dt3": ("timestamp", "datetime"), "t0": ("time",), "s20": ("varchar", "varchar2"), "s80": ("varchar", "varchar2"), "dt": ("timestamp",)}
_SIZE = {"dec": (10, 2), "dec14": (14, 2), "d12": (12, 0), "ip4": (4,), "ip6": (16,), "uuid": (16,), "lit": (2,), "lit2": (2,), "dt3": (3,), "t0": (0,), "s20": (20,), "s80": (80,), "dt": ()}


def expected_problems(db: DB, spec: dict, dialect: str, ns: str, *, foreign: bool = True, enum_mode: typing.Optional[str] = None) -> list[str]:
    "Checks the catalog against what the entity classes say directly."
    st = db.state
    out: list[str] = []
    for t in spec["tables"]:
        key = table_key(dialect, ns, t["name"], db.database)
        tab = st.tables.get(key)
        if tab is None:
            out.append(f"table {key} is missing")
            continue
        want = {t["pk"]["n"]} | {f["n"] for f in columns(t)}
        have = {c.name for c in tab.live()}
        for n in sorted(have - want):
            out.append(f"{key}: unexpected column {n}")
        for n in sorted(want - have):
            out.append(f"{key}: missing column {n}")
        pk = tab.pk()
        if pk is None or [tab.cols[n].name for n in pk.cols] != [t["pk"]["n"]]:
            out.append(f"{key}: primary key is not ({t['pk']['n']})")
        if tab.has(t["pk"]["n"]) and tab.col(t["pk"]["n"]).identity != t["pk"]["identity"]:
            out.append(f"{key}.{t['pk']['n']}: identity is {tab.col(t['pk']['n']).identity}")
        for f in columns(t):
            if not tab.has(f["n"]):
                continue
            c = tab.col(f["n"])
            if c.notnull == f["opt"]:
                out.append(f"{key}.{f['n']}: NOT NULL is {c.notnull}, optional is {f['opt']}")
            if f["t"] in _FAMILY and c.type[0] not in _FAMILY[f["t"]]:
                out.append(f"{key}.{f['n']}: type is {c.type} for {f['t']}")
            elif c.type[0] in _SIZES.get(f["t"], ()) and tuple(c.type[1:]) != _SIZE[f["t"]]:
                out.append(f"{key}.{f['n']}: type is {c.type} for {f['t']}")
            if f["def"] is None and f.get("auto") is None:
                if c.default is not None and _default_obs(st, tab, c) is not None:
                    out.append(f"{key}.{f['n']}: unexpected default {c.default_text}")
            else:
                v = eval(f["def"] or f["auto"], {"datetime": datetime, "decimal": decimal})  # noqa: S307 - literals of this module
                w = repr(coerce(st, c.type, v, literal=True))
                if _default_obs(st, tab, c) != w:
                    out.append(f"{key}.{f['n']}: default is {_default_obs(st, tab, c)}, expected {w}")
            if (f["uniq"] and foreign) != any(k.kind == "u" and [tab.cols[n].name for n in k.cols] == [f["n"]] for k in tab.cons.values()):
                out.append(f"{key}.{f['n']}: unique should be {f['uniq']}")
            fks = [k for k in tab.cons.values() if k.kind == "f" and [tab.cols[n].name for n in k.cols] == [f["n"]]]
            if f["t"].startswith("ref:") and foreign:
                rk = table_key(dialect, ns, f["t"][4:], db.database)
                if len(fks) != 1 or fks[0].ref != rk:
                    out.append(f"{key}.{f['n']}: no foreign key to {rk}")
            elif f["t"].startswith("rec:"):
                rk = table_key(dialect, ns, f["t"][4:], db.database)
                if c.type[0] not in ("integer", "number") or foreign and (len(fks) != 1 or fks[0].ref != rk):
                    out.append(f"{key}.{f['n']}: no foreign key to {rk}")
                if rk in st.tables and sorted(x.name for x in st.tables[rk].live()) != sorted(["id"] + [m for m, _ in spec["records"][f["t"][4:]]["members"]]):
                    out.append(f"{rk}: columns are {[x.name for x in st.tables[rk].live()]}")
            elif not f["t"].startswith("enum:") and fks:
                out.append(f"{key}.{f['n']}: unexpected foreign key")
            if f["t"].startswith("enum:"):
                vals = spec["enums"][f["t"][5:]]
                if c.type[0] == "udt" and sorted(st.enums[c.type[1]]) != sorted(vals):
                    out.append(f"{key}.{f['n']}: enumeration has {st.enums[c.type[1]]}, expected {vals}")
                if c.type[0] == "enum" and sorted(c.type[1]) != sorted(vals):
                    out.append(f"{key}.{f['n']}: enumeration has {c.type[1]}, expected {vals}")
                if c.type[0] in ("integer", "number") and foreign and len(fks) != 1:
                    out.append(f"{key}.{f['n']}: no foreign key to a lookup table")
    for t in join_tables(spec):
        key = table_key(dialect, ns, t["name"], db.database)
        tab = st.tables.get(key)
        if tab is None:
            out.append(f"table {key} is missing")
            continue
        want = ["uuid"] + [f["n"] for f in t["fields"]]
        if sorted(c.name for c in tab.live()) != sorted(want):
            out.append(f"{key}: columns are {[c.name for c in tab.live()]}, expected {want}")
            continue
        if not all(c.notnull for c in tab.live()):
            out.append(f"{key}: has columns that are not required")
        pk = tab.pk()
        if pk is None or [tab.cols[n].name for n in pk.cols] != ["uuid"]:
            out.append(f"{key}: primary key is not (uuid)")
        for f in t["fields"]:
            c = tab.col(f["n"])
            rk = table_key(dialect, ns, f["t"][4:], db.database)
            fks = [k for k in tab.cons.values() if k.kind == "f" and tuple(k.cols) == (c.num,)]
            if len(fks) != 1 or fks[0].ref != rk:
                out.append(f"{key}.{f['n']}: no foreign key to {rk}")
            elif st.tables[rk].cols[fks[0].refcols[0]].type != c.type:
                out.append(f"{key}.{f['n']}: type is {c.type} for a reference to {rk}")
        u = [k for k in tab.cons.values() if k.kind == "u"]
        if [tuple(tab.cols[n].name for n in k.cols) for k in u] != ([(t["fields"][1]["n"],)] if t["how"] == "set" else []):
            out.append(f"{key}: unique constraints are {u!r}")
    return out


def unexpected_tables(db: DB, spec: dict, dialect: str, ns: str) -> list[str]:
    "Tables of a database created from scratch that no entity class, relationship or enumeration calls for."
    names = [t["name"] for t in spec["tables"]] + [t["name"] for t in join_tables(spec)] + list(spec["enums"]) + list(spec.get("records", {}))
    spaces = [str(ns)] + ([ns.aux] if isinstance(ns, Home) and ns.aux is not None else [])
    want = {table_key(dialect, n, x, db.database) for x in names for n in spaces}
    return [f"table {k} is not called for" for k in sorted(db.state.tables) if k not in want]


def initial_problems(db: DB, spec: dict, dialect: str, ns: str, initialize: bool) -> list[str]:
    "What the tables of enumerations have right after they were created."
    st = db.state
    out = []
    want = {n: [(v,) for v in vals] for n, vals in spec["enums"].items()}
    want.update({n: [tuple(v) for v in x["rows"]] for n, x in spec.get("records", {}).items()})
    for n, vals in want.items():
        tab = st.tables.get(table_key(dialect, ns, n, db.database))
        if tab is None:
            continue
        cols = [tab.col(m).num for m in ([m for m, _ in spec["records"][n]["members"]] if n in spec.get("records", {}) else ["value"])]
        have = [tuple(r.get(c) for c in cols) for r in tab.rows]
        if sorted(map(repr, have)) != sorted(map(repr, vals if initialize else [])):
            out.append(f"{n} has {have}, expected {vals if initialize else 'nothing'}")
    return out


# ---------------------------------------------------------------------------------------------- rows put directly into the database

_T0 = datetime.datetime(2021, 3, 4, 5, 6, 7)


def logical(st: State, ty: tuple, v: typing.Any) -> typing.Any:
    "Values of composite types by member."
    if v is None:
        return None
    if ty[0] == "array":
        return [logical(st, ty[1], x) for x in v]
    if ty[0] == "udt" and ty[1] in st.structs:
        return {"struct": {m[0]: logical(st, m[1], x) for m, x in zip(st.structs[ty[1]]["members"], v)}}
    return v


def sample(st: State, ty: tuple, k: int, rng: random.Random):
    n = ty[0]
    if n in ("boolean", "bit"):
        return rng.random() < 0.5
    if n == "tinyint":
        return rng.randrange(0, 2)
    if n in ("smallint", "integer", "bigint", "number"):
        if n == "number" and len(ty) > 1 and ty[1] == 1:
            return rng.randrange(0, 2)
        return k * 7 + rng.randrange(0, 7)
    if n in ("real", "double", "float"):
        return k + 0.5
    if n == "decimal":
        return decimal.Decimal(k) + (decimal.Decimal("0.25") if len(ty) != 2 and ty[2:] != (0,) else 0)
    if n in ("varchar", "varchar2", "nvarchar", "char") and len(ty) > 1 and isinstance(ty[1], int) and ty[1] < 10:
        return f"{k:0{ty[1]}}"[-ty[1]:]
    if n in ("text", "varchar", "varchar2", "nvarchar", "clob", "mediumtext", "longtext", "char"):
        return f"v{k}" + rng.choice(["", " x", "'q", "é"])
    if n in ("json", "jsonb"):
        return f"[{k}]"
    if n in ("timestamp", "datetime", "datetime2"):
        return _T0 + datetime.timedelta(hours=k)
    if n == "timestamp with time zone":
        return (_T0 + datetime.timedelta(hours=k)).replace(tzinfo=datetime.timezone.utc)
    if n == "date":
        return (_T0 + datetime.timedelta(days=k)).date()
    if n in ("time", "time with time zone"):
        return datetime.time(k % 24, 3, 4)
    if n in ("interval day to second", "interval"):
        return datetime.timedelta(seconds=k)
    if n == "enum":
        return rng.choice(ty[1])
    if n in ("binary", "varbinary", "raw") and len(ty) > 1 and ty[1] != 16:
        return (k + 1).to_bytes(ty[1], "big")
    if n in ("binary", "varbinary", "raw", "blob", "mediumblob", "longblob", "bytea", "varbyte"):
        return uuid.UUID(int=k + 1).bytes
    if n == "uuid":
        return uuid.UUID(int=k + 1)
    if n == "inet":
        return f"10.0.0.{k % 250}"
    if n == "array":
        return tuple(sample(st, ty[1], k + j, rng) for j in range(2))
    if n == "udt":
        if ty[1] in st.enums:
            return rng.choice(st.enums[ty[1]])
        return tuple(sample(st, m[1], k, rng) for m in st.structs[ty[1]]["members"])
    raise AssertionError(ty)


def allowed(t: typing.Any, name: str, rng: random.Random) -> typing.Optional[str]:
    "A value that a CHECK constraint permits for a column."
    for k in t.cons.values():
        if k.kind == "c":
            m = re.fullmatch(r'"([^"]+)" IN \((.*)\)', k.text.strip(), re.DOTALL)
            if m and m.group(1) == name:
                return rng.choice(re.findall(r"'((?:[^']|'')*)'", m.group(2))).replace("''", "'")
    return None


def populate(db: DB, rng: random.Random, n: int, *, only: typing.Optional[typing.Callable[[tuple], bool]] = None, counter: typing.Optional[list] = None) -> int:
    "Adds rows to every table, directly in the database."
    st = db.state.clone()
    ex = Exec(st)
    ctr = counter if counter is not None else [0]
    added = 0
    done: set = set()
    todo = [k for k in st.tables if (only is None or only(k))]
    while todo:
        for key in todo:
            t = st.tables[key]
            if all(c.kind != "f" or c.ref == key or c.ref in done or c.ref not in todo for c in t.cons.values()):
                break
        else:
            break
        todo.remove(key)
        done.add(key)
        is_enum = {c.name for c in t.live()} == {"id", "value"} and t.col("id").identity
        for _ in range(n):
            ctr[0] += 1
            given = {}
            fks = {c.cols[0]: c for c in t.cons.values() if c.kind == "f" and len(c.cols) == 1}
            for c in t.live():
                if c.identity and db.dialect in ("mssql",):
                    continue
                if c.identity:
                    continue
                if c.num in fks:
                    rt = st.tables[fks[c.num].ref]
                    cand = [r.get(fks[c.num].refcols[0]) for r in rt.rows]
                    cand = [x for x in cand if x is not None]
                    if not cand:
                        if c.notnull:
                            given = None
                            break
                        given[c.num] = None
                    elif not c.notnull and rng.random() < 0.3:
                        given[c.num] = None
                    else:
                        given[c.num] = rng.choice(cand)
                    if any(u.kind == "u" and c.num in u.cols for u in t.cons.values()) and any(r.get(c.num) == given[c.num] for r in t.rows):
                        given[c.num] = None if not c.notnull else given[c.num]
                    continue
                if not c.notnull and rng.random() < 0.3 and not any(u.kind == "u" and c.num in u.cols for u in t.cons.values()):
                    given[c.num] = None
                    continue
                v = f"val{ctr[0]}" if is_enum and c.name == "value" else allowed(t, c.name, rng) or sample(st, c.type, ctr[0], rng)
                given[c.num] = coerce(st, c.type, v, literal=True)
            if given is None:
                break
            try:
                ex.insert_one(t, given, None, None)
                added += 1
            except DbError:
                pass
    db.swap(st)
    return added


def fill_nulls(db: DB, old: dict, new: dict, dialect: str, ns: str, rng: random.Random) -> bool:
    "Gives a value to NULLs of columns that are about to become required, as a user has to; False if there is no valid value."
    later = {t["name"]: {f["n"]: f for f in t["fields"]} for t in new["tables"]}
    st = db.state.clone()
    for t in old["tables"]:
        tab = st.tables.get(table_key(dialect, ns, t["name"], db.database))
        for f in t["fields"]:
            g = later.get(t["name"], {}).get(f["n"])
            if tab is None or g is None or not f["opt"] or g["opt"]:
                continue
            c = tab.col(f["n"])
            fk = next((k for k in tab.cons.values() if k.kind == "f" and k.cols == [c.num] or k.kind == "f" and tuple(k.cols) == (c.num,)), None)
            uq = any(k.kind in "up" and c.num in k.cols for k in tab.cons.values())
            for i, r in enumerate(tab.rows):
                if r.get(c.num) is not None:
                    continue
                if fk is not None:
                    cand = [x.get(fk.refcols[0]) for x in st.tables[fk.ref].rows]
                    cand = [x for x in cand if x is not None and (not uq or all(y.get(c.num) != x for y in tab.rows))]
                    if not cand:
                        return False
                    r[c.num] = rng.choice(cand)
                else:
                    v = coerce(st, c.type, sample(st, c.type, 3000 + i, rng), literal=True)
                    if v is None or uq and any(y.get(c.num) == v for y in tab.rows):
                        return False
                    r[c.num] = v
    db.swap(st)
    return True


def snapshot(db: DB, state: typing.Optional[State] = None) -> dict:
    "All rows of all tables by name."
    st = state or db.state
    return {key: [dict(r) for r in t.named_rows()] for key, t in st.tables.items()}
