"""
C16: generated sample data is valid for every random stream and clock.

Workload: entity classes with random fields (every supported scalar, ranges, lengths, precisions, enumerations, literals, unions, lists, sets, structures,
references - optional, unique or neither) and a number of objects to generate, while the simulator supplies everything `random_objects` does not get as an
argument: the random stream (plain, or mixed with extreme draws), the identifiers of the operating system, the time zone and the wall clock of the process
(any year, midnights, leap days, stalled, fast, or jumping while objects are being generated). In other runs the class comes from the schema generator, and
the objects are written - directly, or through the exchange format - to a table of a simulated server.
Oracle: number of objects, distinct keys and distinct unique values, a validator for every type, a loud failure for types that are not supported and for
domains that are too small; and the content of the database compared with a keyed map of the objects.
"""

import ctypes
import datetime
import decimal
import io
import ipaddress
import os
import random
import time
import types
import typing
import uuid

from .. import common, rows, schema
from ..env import Ctx, DIALECTS, Violation, root_cause
from . import c05

from pysqlsync.data.exchange import TextReader, TextWriter, fields_to_types  # noqa: E402 (env chooses the code under test)
from pysqlsync.data import generator as subject  # noqa: E402
from pysqlsync.data.generator import DataGeneratorError, random_objects  # noqa: E402
from strong_typing.serialization import json_to_object  # noqa: E402

QUICK = 5000
THOROUGH = 150000
RULE = "at least one object was generated and examined, or the generator refused a class it cannot serve"
REAL = ["pysqlsync.data.generator, data.exchange, model.properties, formation.inspection, the write path (base, dialects) for loading", "strong_typing", "tsv2py", "CPython's random.Random"]
STUB = ["the wall clock (clock_gettime, gettimeofday and time of the process), the time zone and the random source of the operating system"] + common.STUB
ASSUMPTIONS = [
    "no key of an existing row is supplied to the generator, so references hold any value of the key's type and tables have no foreign keys (the project's own use)",
    "decimals, addresses and literals inside lists and structures are not supported by the JSON library",
    "the current time lies between 1970 and 2200; fields limited to an empty domain are out of scope",
    "a clean batch of runs is evidence, not proof: inputs, random streams and clocks are sampled",
]

HEADER = """
import dataclasses, datetime, decimal, enum, ipaddress, uuid
from typing import Annotated, Any, Literal, Optional, Union
from strong_typing.auxiliary import IntegerRange, MaxLength, MinLength, Precision, float32, float64, int16, int32, int64
from pysqlsync.model.key_types import Identity, PrimaryKey, Unique

class Color(enum.Enum):
    red = "red"
    green = "green colour"
    blue = "b"

class Single(enum.Enum):
    only = "only"

@dataclasses.dataclass
class ByInt:
    id: PrimaryKey[int]

@dataclasses.dataclass
class BySmall:
    id: PrimaryKey[int16]

@dataclasses.dataclass
class ByUuid:
    id: PrimaryKey[uuid.UUID]

@dataclasses.dataclass
class ByName:
    id: PrimaryKey[Annotated[str, MaxLength(12)]]
"""
PLAIN = {
    "bool": "bool", "int": "int", "i16": "int16", "i32": "int32", "i64": "int64", "float": "float", "f32": "float32", "dt": "datetime.datetime", "date": "datetime.date",
    "time": "datetime.time", "str": "str", "dec": "decimal.Decimal", "uuid": "uuid.UUID", "ip4": "ipaddress.IPv4Address", "ip6": "ipaddress.IPv6Address", "enum": "Color", "one": "Single",
    "lit": 'Literal["a", "b", "long value"]', "lit1": 'Literal["x"]', "refi": "ByInt", "refs": "BySmall", "refu": "ByUuid", "refn": "ByName", "refd": "Union[ByInt, ByInt2]", "self": '"Sample"',
}
UNSUPPORTED = {"bytes": "bytes", "dict": "dict[str, int]", "object": "object"}
BITS = {"i16": 15, "i32": 31, "i64": 63}
LIB = ctypes.CDLL(None)


# ------------------------------------------------------------------------------------------------------------ types


def scalar(rng: random.Random, json: bool = False) -> list:
    k = rng.random()
    if k < 0.16:
        a = rng.choice([0, 1, -5, -32768, 10**6, -(1 << 40), rng.randrange(-100, 100)])
        return ["range", a, a + rng.choice([0, 1, 2, 9, 100, 40000, 1 << 33])]
    if k < 0.34:
        lo = rng.choice([None, None, 1, 2, 5, 200, 255, 256, 300])
        hi = None if rng.random() < 0.4 else rng.choice([1, 2, 5, 20, 80, 255, 256, 400])
        if lo is not None and hi is not None and hi < lo:
            lo, hi = hi, lo
        return ["text", lo, hi]
    if k < 0.44 and not json:
        n = rng.choice([1, 2, 5, 10, 18])
        return ["prec", n, rng.choice([0, 1, n, n // 2])]
    names = [t for t in PLAIN if not (json and t in ("refi", "refs", "refu", "refn", "refd", "self", "ip4", "ip6", "lit", "lit1", "dec"))]  # as far as JSON goes
    return ["plain", rng.choice(names)]


def json_type(rng: random.Random, depth: int = 0) -> list:
    "A type for the inside of a list or a structure."
    k = rng.random()
    if depth < 2 and k < 0.12:
        return ["list", json_type(rng, depth + 1)]
    if depth < 2 and k < 0.18:
        return ["opt", scalar(rng, True)]
    return scalar(rng, True)


def domain(t: list) -> typing.Optional[int]:
    "How many different values a type has (if few)."
    k = t[0]
    if k == "range":
        return t[2] - t[1] + 1
    if k == "text":
        hi = 255 if t[2] is None else t[2]
        lo = 1 if t[1] is None else t[1]
        return 62 if max(hi, lo) == 1 else None
    if k == "prec":
        return 10 ** t[1]
    if k == "plain":
        return {"bool": 2, "enum": 3, "one": 1, "lit": 3, "lit1": 1, "time": 86399, "date": None}.get(t[1])
    return None


def generate(rng: random.Random, tier: str) -> dict:
    clock = {
        "start": rng.choice([0, 1, 86399, 404188200, 404188199, 404188201, 404179200, 404265600, rng.randrange(0, 1 << 29), rng.randrange(1 << 29, 1 << 32), 951782399, 1709164799, 4107542399, 253402300799 // 40]),
        "step": rng.choice([0, 1, 10**6, 10**9, 3600 * 10**9, 86400 * 10**9]),
        "at": rng.choice([0, 0, 1, 2, 3, 5]),
        "jump": rng.choice([-86400, -3600, 3600, 86400, -86400 * 366, -(1 << 29), 1 << 30]),
        "tz": rng.choice(["UTC", "UTC", "Pacific/Kiritimati", "America/Los_Angeles", "Europe/Budapest", "XYZ+12", "ABC-14"]),
        "minute": rng.random() < 0.3,  # shortly before midnight
    }
    plan: dict = {"clock": clock, "seed": rng.randrange(1 << 30), "extreme": rng.choice([0, 0, 0.1, 0.3]), "count": rng.choice([0, 1, 2, 3, 8, 20, 60]), "lat": rng.randrange(4)}
    if rng.random() < 0.12:
        plan["_mode"] = "parts"
        plan["calls"] = [part(rng) for _ in range(rng.choice([1, 3, 8]))]
        return plan
    if rng.random() < 0.45:
        d = rng.choice(DIALECTS)
        plan.update(_mode="table", _dialect=d, _ns="ns", batch=rng.choice([1, 2, 5, 100]), way=rng.choice(["data", "file", "file", "upsert"]), again=rng.random() < 0.3)
        opts = common.gen_options(rng, d)
        opts["foreign_constraints"] = False
        plan["opts"] = opts
        g = schema.Gen(rng, d, max_tables=3, docs=False, composite=False)
        spec = g.spec()
        spec["structs"] = {}
        for t in spec["tables"]:
            t["pk"]["identity"] = False
            if t["pk"]["t"] == "s20" and rng.random() < 0.8:
                t["pk"]["t"] = rng.choice(["int", "i32", "uuid"])
        plan["spec"] = spec
        return plan
    plan["_mode"] = "class"
    plan["_pk"] = rng.choice(["int", "int", "int32", "int64", "uuid.UUID", "Identity[int]", "Identity[int32]", "str"] if rng.random() < 0.9 else ["Annotated[str, MaxLength(20)]"])
    if plan["_pk"] == "str" and rng.random() < 0.7:
        plan["_pk"] = "int"
    structs = []
    for i in range(rng.choice([0, 0, 1, 2])):
        structs.append({"n": f"Struct{i}", "m": [[f"m{j}", json_type(rng)] for j in range(rng.choice([1, 2, 4]))]})
    plan["_structs"] = structs
    fields = []
    for i in range(rng.choice([1, 2, 3, 5, 8])):
        k = rng.random()
        if k < 0.6:
            t = scalar(rng)
        elif k < 0.75:
            t = [rng.choice(["list", "list", "set"]), ["struct", rng.randrange(len(structs))] if structs and rng.random() < 0.3 else json_type(rng, 1)]
        elif k < 0.85 and structs:
            t = ["struct", rng.randrange(len(structs))]
        elif k < 0.92:
            t = ["union", rng.choice([[["plain", "ip4"], ["plain", "ip6"]], [["plain", "int"], ["plain", "str"]], [["plain", "float"], ["plain", "date"]]])]
        elif k < 0.93:
            t = ["bad", rng.choice(list(UNSUPPORTED))]
        else:
            t = ["plain", "str"]
        f = {"n": f"f{i}", "t": t, "opt": rng.random() < 0.3 or t == ["plain", "self"], "uniq": False}
        if t[0] in ("range", "text", "prec", "plain") and rng.random() < 0.3 and t != ["plain", "self"]:
            f["uniq"] = True
            n = domain(t)
            if n is not None and n < 2 * plan["count"] + 2 and rng.random() < 0.9:
                f["uniq"] = False  # domains that are too small are rare
        fields.append(f)
    plan["fields"] = fields
    if rng.random() < 0.012:  # many objects
        plan["count"] = rng.choice([300, 700, 1100, 1500])
        plan["fields"] = fields = fields[:3]
        if rng.random() < 0.6:
            fields.append({"n": "g", "t": rng.choice([["range", -7, 3 * plan["count"]], ["prec", 4, 2], ["text", 1, 2]]), "opt": rng.random() < 0.3, "uniq": True})
        for f in fields:
            n = domain(f["t"])
            f["uniq"] = f["uniq"] or f["t"][0] in ("range", "text", "prec", "plain") and f["t"] != ["plain", "self"] and rng.random() < 0.5
            if f["uniq"] and n is not None and n < 2 * plan["count"] + 2:
                f["uniq"] = False
    return plan


MEMBERS = [0, 1, 2, 3, 5, 7]


def part(rng: random.Random) -> list:
    "A call of one of the functions samples are built from, and its arguments."
    k = rng.choice(["enum", "enum", "enum", "text", "decimal", "datetime", "date", "time", "repeat"])
    n = rng.choice([0, 1, 2, 3, 4, 6, 9])
    if k == "enum":
        form = rng.choice(["count", "min", "max", "both", "both"])
        return [k, rng.choice(MEMBERS), form, n, n + rng.choice([0, 0, 1, 3])]
    if k == "text":
        return [k, n, n + rng.choice([0, 1, 20])]
    if k == "decimal":
        return [k, n + 1, rng.randrange(0, n + 2)]
    if k in ("datetime", "date"):
        a = rng.randrange(-(10**9), 2 * 10**9)
        return [k, a, a + rng.choice([0, 1, 2, 60, 86399, 86400, 86401, 10**8])]
    if k == "time":
        a = rng.randrange(0, 86400)
        return [k, a, min(86399, a + rng.choice([0, 1, 2, 3600])), rng.choice(["both", "both", "start", "end", "none"])]
    return [k, n]


def sound_part(c: list) -> bool:
    "Whether a call has sensible arguments (minimised plans may hold others)."
    size = {"enum": 5, "text": 3, "decimal": 3, "datetime": 3, "date": 3, "time": 4, "repeat": 2}
    if len(c) == 0 or len(c) != size.get(c[0]):
        return False
    a = c[1:]
    if c[0] == "enum":
        return a[1] in ("count", "min", "max", "both") and a[2] <= a[3]
    if c[0] == "decimal":
        return a[0] > 0 and a[1] <= a[0]
    if c[0] == "time" and a[2] not in ("both", "start", "end", "none"):
        return False
    return c[0] == "repeat" or a[0] <= a[1]


def run_parts(ctx: Ctx, plan: dict) -> None:
    import enum

    utc = datetime.timezone.utc
    for i, c in enumerate(plan["calls"]):
        if not sound_part(c):
            continue
        k, a = c[0], c[1:]
        try:
            with Surroundings(ctx, plan, plan["seed"] + i):
                if k == "enum":
                    cls = enum.Enum("E", {f"m{j}": j for j in range(a[0])})
                    kw = {"count": {"count": a[2]}, "min": {"min_count": a[2]}, "max": {"max_count": a[3]}, "both": {"min_count": a[2], "max_count": a[3]}}[a[1]]
                    make = subject.random_enum_generator(cls, **kw)
                    got = [make() for _ in range(4)]
                elif k == "text":
                    got = [subject.random_alphanumeric_str(a[0], a[1]) for _ in range(3)]
                elif k == "decimal":
                    got = [subject.random_decimal(a[0], a[1]) for _ in range(3)]
                elif k == "datetime":
                    lo, hi = (datetime.datetime(2000, 1, 1, tzinfo=utc) + datetime.timedelta(seconds=x) for x in a)
                    got = [subject.random_datetime(lo, hi) for _ in range(3)]
                elif k == "date":
                    lo, hi = (datetime.date(2000, 1, 1) + datetime.timedelta(days=x // 86400) for x in a)
                    got = [subject.random_date(lo, hi) for _ in range(3)]
                elif k == "time":
                    lo, hi = ((datetime.datetime.min + datetime.timedelta(seconds=x)).time().replace(tzinfo=utc) for x in a[:2])
                    kw = {"both": {"start": lo, "end": hi}, "start": {"start": lo}, "end": {"end": hi}, "none": {}}[a[2]]
                    got = [subject.random_time(**kw) for _ in range(3)]
                    lo, hi = kw.get("start", datetime.time(0, tzinfo=utc)), kw.get("end", datetime.time(23, 59, 59, tzinfo=utc))
                else:
                    got = [subject.call_repeat(lambda x: [x], i, a[0]) for _ in range(3)]
        except Exception as e:  # noqa: BLE001
            raise Violation("fails", f"{k} {a!r}: {root_cause(e)}")
        ctx.sim.event(f"{k} {a!r} {got!r}")
        for v in got:
            if k == "enum":
                lo = a[2] if a[1] != "max" else 0
                hi = a[2] if a[1] == "count" else a[3] if a[1] != "min" else len(cls)
                good = type(v) is list and all(isinstance(x, cls) for x in v) and len(set(v)) == len(v) and min(lo, len(cls)) <= len(v) <= hi
            elif k == "text":
                good = type(v) is str and a[0] <= len(v) <= a[1] and (not v or v.isalnum() and v.isascii())
            elif k == "decimal":
                good = right(plan, None, ["prec", a[0], a[1]], v) and v >= 0
            elif k == "repeat":
                good = type(v) is list and len(v) <= a[0] and all(x == [i] for x in v)
            else:
                good = type(v) is type(lo) and lo <= v <= hi
            if not good:
                raise Violation("out-of-limits", f"{k} {a!r} gives {v!r}")
            ctx.counts[f"part-{k}"] += 1
    ctx.nontrivial = bool(plan["calls"])


def text_of(plan: dict, t: list) -> str:
    k = t[0]
    if k == "range":
        return f"Annotated[int, IntegerRange({t[1]}, {t[2]})]"
    if k == "text":
        tags = ([f"MinLength({t[1]})"] if t[1] is not None else []) + ([f"MaxLength({t[2]})"] if t[2] is not None else [])
        return f"Annotated[str, {', '.join(tags)}]" if tags else "str"
    if k == "prec":
        return f"Annotated[decimal.Decimal, Precision({t[1]}, {t[2]})]"
    if k == "plain":
        return PLAIN[t[1]]
    if k == "bad":
        return UNSUPPORTED[t[1]]
    if k == "opt":
        return f"Optional[{text_of(plan, t[1])}]"
    if k == "struct":
        return plan["_structs"][t[1]]["n"]
    if k == "union":
        return "Union[" + ", ".join(text_of(plan, x) for x in t[1]) + "]"
    return f"{k}[{text_of(plan, t[1])}]"


def source(plan: dict) -> str:
    out = [HEADER, "@dataclasses.dataclass\nclass ByInt2:\n    id: PrimaryKey[int]\n"]
    for s in plan["_structs"]:
        out.append(f"@dataclasses.dataclass\nclass {s['n']}:")
        out += [f"    {n}: {text_of(plan, t)}" for n, t in s["m"]]
    out.append(f"@dataclasses.dataclass\nclass Sample:\n    id: PrimaryKey[{plan['_pk']}]")
    for f in plan["fields"]:
        a = text_of(plan, f["t"])
        if f["uniq"]:
            a = f"Unique[{a}]"
        out.append(f"    {f['n']}: " + (f"Optional[{a}]" if f["opt"] else a))
    return "\n".join(out) + "\n"


def limits(t: list) -> tuple[int, int]:
    lo = t[1] if t[1] is not None else 0
    return lo, t[2] if t[2] is not None else 1 << 30


EXACT = {"bool": bool, "int": int, "float": float, "f32": float, "dt": datetime.datetime, "date": datetime.date, "time": datetime.time, "str": str, "dec": decimal.Decimal, "uuid": uuid.UUID,
         "ip4": ipaddress.IPv4Address, "ip6": ipaddress.IPv6Address, "refi": int, "refu": uuid.UUID, "refd": int}


def right(plan: dict, mod, t: list, v) -> bool:
    "Whether a field may hold a value."
    k = t[0]
    if k == "range":
        return type(v) is int and t[1] <= v <= t[2]
    if k == "text":
        lo, hi = limits(t)
        return type(v) is str and lo <= len(v) <= hi
    if k == "prec":
        if type(v) is not decimal.Decimal or not v.is_finite():
            return False
        n, s = t[1], t[2]
        return abs(v) < decimal.Decimal(10) ** (n - s) and v == v.quantize(decimal.Decimal(1).scaleb(-s), context=decimal.Context(prec=60))
    if k == "plain":
        n = t[1]
        if n in BITS:
            return type(v) is int and -(1 << BITS[n]) <= v < 1 << BITS[n]
        if n == "refs":
            return type(v) is int and -(1 << 15) <= v < 1 << 15
        if n == "refn":
            return type(v) is str and len(v) <= 12
        if n in ("enum", "one"):
            return isinstance(v, mod.Color if n == "enum" else mod.Single)
        if n == "lit":
            return v in ("a", "b", "long value")
        if n == "lit1":
            return v == "x"
        if n == "self":
            kind = plan["_pk"]
            return type(v) is (uuid.UUID if kind == "uuid.UUID" else str if "str" in kind else int)
        return type(v) is EXACT[n] and (n not in ("float", "f32") or v == v and abs(v) < 3e38)
    if k == "union":
        return any(right(plan, mod, x, v) for x in t[1])
    return right_json(plan, mod, t, v)


def right_json(plan: dict, mod, t: list, v) -> bool:
    "Whether a value in JSON form stands for a value of a type."
    k = t[0]
    if k == "opt":
        return v is None or right_json(plan, mod, t[1], v)
    if k in ("list", "set"):
        return type(v) is list and all(right_json(plan, mod, t[1], x) for x in v)
    if k == "struct":
        s = plan["_structs"][t[1]]
        return type(v) is dict and set(v) == {n for n, _ in s["m"]} and all(right_json(plan, mod, x, v[n]) for n, x in s["m"])
    if not isinstance(v, (bool, int, float, str)):
        return False
    if t[0] == "plain" and t[1] in ("enum", "one"):
        return v in [e.value for e in (mod.Color if t[1] == "enum" else mod.Single)]
    py = eval(text_of(plan, t), vars(mod))  # noqa: S307 - text of this module
    try:
        back = json_to_object(py, v)
    except Exception:  # noqa: BLE001
        return False
    return right(plan, mod, t, back)


def possible(plan: dict) -> bool:
    return not ("str" in plan["_pk"] or any(f["t"][0] == "bad" for f in plan["fields"]))


# ------------------------------------------------------------------------------------------------------------ surroundings


class Stream(random.Random):
    "A random stream that is as good as any other, with more extreme draws."

    def __init__(self, seed: int, p: float):
        self.own = random.Random(seed ^ 0x5EED)
        self.p = p
        super().__init__(seed)

    def random(self):
        if self.p and self.own.random() < self.p:
            return self.own.choice([0.0, 1.0 - 2.0**-53, 0.5, 2.0**-53, 0.1])
        return super().random()

    def getrandbits(self, k):
        if self.p and 0 < k <= 64 and self.own.random() < self.p:
            return self.own.choice([0, (1 << k) - 1, 1, 1 << (k - 1)])
        return super().getrandbits(k)


PATCH = ["random", "getrandbits", "randrange", "randint", "uniform", "choice", "choices", "sample", "shuffle", "triangular", "gauss", "betavariate", "expovariate", "normalvariate", "randbytes", "seed"]


class Surroundings:
    "Everything the generator reads besides its arguments."

    def __init__(self, ctx: Ctx, plan: dict, seed: int):
        self.ctx, self.plan, self.seed = ctx, plan, seed

    def __enter__(self):
        p, c = self.plan, self.plan["clock"]
        st = Stream(self.seed, p["extreme"])
        self.saved = {n: getattr(random, n) for n in PATCH}
        for n in PATCH:
            setattr(random, n, getattr(st, n))
        self.urandom = os.urandom
        ids = random.Random(self.seed ^ 0x1D5)
        os.urandom = lambda n: ids.randbytes(n)
        self.tz = os.environ.get("TZ")
        os.environ["TZ"] = c["tz"] or "UTC"
        time.tzset()
        start = c["start"] * 10**9
        if c["minute"]:
            start = (c["start"] // 86400 * 86400 + 86399) * 10**9 + 999_999_000
        LIB.dst_clock_set(ctypes.c_longlong(start), ctypes.c_longlong(c["step"]), ctypes.c_long(c["at"]), ctypes.c_longlong(c["jump"] * 10**9))
        return self

    def __exit__(self, *exc):
        calls = LIB.dst_clock_off()
        for n, f in self.saved.items():
            setattr(random, n, f)
        os.urandom = self.urandom
        if self.tz is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = self.tz
        time.tzset()
        self.ctx.counts["clock-readings"] += calls
        c = self.plan["clock"]
        if c["at"] and calls >= c["at"] and c["jump"]:
            self.ctx.sim.fault_counts["clock-jump"] += 1
        if calls and c["step"] == 0:
            self.ctx.sim.fault_counts["clock-stalled"] += 1
        if calls and c["start"] <= 404188200:
            self.ctx.sim.fault_counts["clock-in-the-past"] += 1
        if self.plan["extreme"]:
            self.ctx.sim.fault_counts["extreme-draws"] += 1
        return False


def sample(ctx: Ctx, plan: dict, cls, count: int, seed: int):
    with Surroundings(ctx, plan, seed):
        return random_objects(cls, count)


# ------------------------------------------------------------------------------------------------------------ runs


def run_class(ctx: Ctx, plan: dict) -> None:
    mod = ctx.module("smod", source(plan))
    count = plan["count"]
    try:
        objs = sample(ctx, plan, mod.Sample, count, plan["seed"])
    except DataGeneratorError as e:
        if not possible(plan):
            ctx.counts["refused-unsupported"] += 1
            ctx.nontrivial = True
            return
        tight = [f for f in plan["fields"] if f["uniq"] and (domain(f["t"]) is not None and domain(f["t"]) < 2 * count + 2 or f["t"] == ["plain", "date"] or f["t"] == ["plain", "dt"] or f["t"][0] == "text")]
        if tight:
            ctx.counts["refused-domain-too-small"] += 1
            ctx.nontrivial = True
            return
        raise Violation("refused", f"generating {count} objects of a supported class fails: {e}")
    except Exception as e:  # noqa: BLE001
        if not possible(plan):
            ctx.counts["refused-unsupported"] += 1
            ctx.nontrivial = True
            return
        raise Violation("fails", f"generating {count} objects of a supported class fails: {root_cause(e)}")
    ctx.sim.event("objects " + repr([[repr(getattr(o, f["n"])) for f in plan["fields"]] for o in objs]))
    if not isinstance(objs, list) or len(objs) != count:
        raise Violation("count", f"{len(objs)} objects instead of {count}")
    for o in objs:
        if type(o) is not mod.Sample:
            raise Violation("type", f"object of type {type(o).__name__}")
    if any(f["t"][0] == "bad" for f in plan["fields"]):
        ctx.counts["unsupported-yet-served"] += 1
        return
    keys = [o.id for o in objs]
    want = uuid.UUID if plan["_pk"] == "uuid.UUID" else str if "str" in plan["_pk"] else int
    for k in keys:
        if type(k) is not want:
            raise Violation("key-type", f"primary key {k!r} of type {plan['_pk']}")
    if len(set(keys)) != len(keys):
        raise Violation("repeated-key", f"primary keys repeat: {keys!r}")
    for f in plan["fields"]:
        vs = [getattr(o, f["n"]) for o in objs]
        for v in vs:
            if v is None and f["opt"]:
                ctx.counts["nulls"] += 1
                continue
            if not right(plan, mod, f["t"], v):
                raise Violation("wrong-value", f"field {f['n']}: {text_of(plan, f['t'])} holds {v!r}")
            ctx.counts["values"] += 1
        if f["uniq"]:
            some = [v for v in vs if v is not None]
            if len(set(some)) != len(some):
                raise Violation("repeated-value", f"unique field {f['n']}: {text_of(plan, f['t'])} repeats a value among {count} objects")
            ctx.counts["unique-fields"] += 1
    ctx.nontrivial = count > 0


def run_table(ctx: Ctx, plan: dict) -> None:
    common.setup_world(ctx, plan)
    ctx.batch_size(plan["batch"] or 1)
    d, ns, spec, opts = plan["_dialect"], plan["_ns"], plan["spec"], plan["opts"]
    if not spec["tables"]:
        return
    opts = dict(opts, foreign_constraints=False)
    srv = ctx.server(d)

    async def main() -> None:
        mod = ctx.module("vmod", schema.source(spec))
        m = rows.Model(spec, d, ns, srv.db)
        cm = ctx.connection(d, common.options(opts, {mod: ns}), user="c")
        conn = await cm.open()
        await ctx.explorer(d, conn).synchronize(module=mod)
        for i, t in enumerate(spec["tables"]):
            cls = getattr(mod, t["name"])
            for turn in range(2 if plan["again"] else 1):
                try:
                    objs = sample(ctx, plan, cls, plan["count"], plan["seed"] + i + 100 * turn)
                except Exception as e:  # noqa: BLE001
                    if t["pk"]["t"] == "s20" and isinstance(e, DataGeneratorError):
                        ctx.counts["refused-unsupported"] += 1
                        break
                    raise Violation("fails", f"generating {plan['count']} objects of {t['name']} fails: {root_cause(e)}")
                if len(objs) != plan["count"]:
                    raise Violation("count", f"{len(objs)} objects of {t['name']} instead of {plan['count']}")
                if turn:
                    keys = set(m.rows[t["name"]])
                    way = "upsert"
                    if t["pk"]["t"] == "uuid" and any(f["uniq"] for f in t["fields"]) or any(f["uniq"] for f in t["fields"]):
                        break  # would collide with the first sample
                    ctx.counts["replaced"] += len(keys & {getattr(o, t["pk"]["n"]) for o in objs})
                else:
                    way = plan["way"]
                aware = d == "postgresql" and any(f["t"] == "dt" for f in t["fields"])  # asyncpg takes no time zones for a timestamp
                if way == "data" and (aware or not c05.object_fields_ok(d, opts, m, t)):
                    way = "file"
                try:
                    if way == "data":
                        await conn.insert_data(cls, objs)
                    else:
                        names = [t["pk"]["n"]] + [f["n"] for f in t["fields"]]
                        r = random.Random(plan["seed"])
                        r.shuffle(names)
                        with io.BytesIO() as out:
                            TextWriter(out, cls, {n: "c." + n for n in names}).write_objects(objs)
                            data = out.getvalue()
                        r.shuffle(names)
                        with io.BytesIO(data) as inp:
                            reader = TextReader(inp, fields_to_types(cls, {n: "c." + n for n in names}))
                            labels = tuple(c[2:] for c in reader.columns)
                            ftypes = reader.field_types
                            records = reader.read_records()
                        fn = conn.insert_rows if way == "file" else conn.upsert_rows
                        await fn(conn.get_table(cls), field_names=labels, field_types=ftypes, records=(x for x in records))
                except Violation:
                    raise
                except Exception as e:  # noqa: BLE001
                    raise Violation("not-writable", f"objects generated for {t['name']} cannot be written ({way}): {root_cause(e)}")
                for o in objs:
                    rec = {}
                    for f in t["fields"]:
                        v = getattr(o, f["n"])
                        if f["t"].startswith("enum:") and v is not None:
                            v = v.value
                        rec[f["n"]] = v
                    key = getattr(o, t["pk"]["n"])
                    if not turn and key in m.rows[t["name"]]:
                        raise Violation("repeated-key", f"primary key {key!r} of {t['name']} repeats")
                    (m.insert if not turn else m.upsert)(t["name"], key, rec)
                bad = m.difference(t["name"])
                if bad:
                    raise Violation("not-readable", f"after writing the generated objects ({way}): {bad}")
                ctx.counts[f"written-{way}"] += 1
                if objs:
                    ctx.nontrivial = True
        await cm.close()
        ctx.counts[f"dialect-{d}"] += 1

    ctx.sim.run(main())
    ctx.check_hygiene()


def sound(t: list) -> bool:
    "Whether a type has values (minimised plans may hold others)."
    if t[0] == "range":
        return t[1] <= t[2]
    if t[0] == "text":
        return (t[1] or 1) <= (1 << 30 if t[2] is None else t[2])
    if t[0] == "prec":
        return t[1] > 0 and 0 <= t[2] <= t[1]
    if t[0] in ("list", "set", "opt"):
        return sound(t[1])
    return True


def execute(ctx: Ctx, plan: dict) -> None:
    if plan["_mode"] == "parts":
        run_parts(ctx, plan)
    elif plan["_mode"] == "class":
        if not all(sound(f["t"]) for f in plan["fields"]):
            return
        run_class(ctx, plan)
    else:
        run_table(ctx, plan)
