"""
C12: tab-separated exchange round-trips through any stream.

Workload: entity classes with random fields (one to six of every exchangeable type, optional or not) under random field mappings and orders; objects with
random contents (tabs, line ends, backslashes, empty and missing values, Unicode, extreme numbers and dates) are written in several portions; the
bytes are then read back, concurrently by several tasks, through synchronous streams (memory, buffered over a device that delivers few bytes at a time) and
asynchronous ones (asyncio.StreamReader fed piece by piece at any pace, and a line stream of its own pace), one by one, all at once, or first
some and then the rest; a stream fails while writing or reading at an arbitrary place; rows are also loaded from such a stream into a table.
Oracle: the records read are the values written, in the order of the columns; after a failure the error reaches the caller and the records obtained before
are a prefix of the data; readers agree with each other.
"""

import asyncio
import datetime
import decimal
import io
import random
import typing
import uuid

from .. import common, rows, schema
from ..env import Ctx, DIALECTS, Violation, root_cause

QUICK = 8000
THOROUGH = 200000
RULE = "at least one record was written and read back"
REAL = ["pysqlsync.data.exchange, model.properties, formation.inspection, the bulk-write path (base, dialects) for loading", "tsv2py", "asyncio.StreamReader, io.BufferedReader"]
STUB = ["the devices beneath the streams (content, pace and failures decided by the simulator)"] + common.STUB
ASSUMPTIONS = [
    "a stream object writes everything it is given or raises (buffered files); the end of a stream within a line is not a failure the reader could detect",
    "column names contain no tab or line end; times are stored in UTC and are read back without time zone (tsv2py); arrays and structures are lists and dictionaries",
    "a clean batch of runs is evidence, not proof: inputs and schedules are sampled",
]

UTC = datetime.timezone.utc
TYPES = {
    "int": "int", "float": "float", "str": "str", "s80": "Annotated[str, MaxLength(80)]", "bytes": "bytes", "bool": "bool", "dt": "datetime.datetime", "date": "datetime.date",
    "time": "datetime.time", "dec": "decimal.Decimal", "uuid": "uuid.UUID", "ip4": "ipaddress.IPv4Address", "ip6": "ipaddress.IPv6Address", "ip": "Union[ipaddress.IPv4Address, ipaddress.IPv6Address]",
    "list": "list[str]", "li": "list[int]", "enum": "Level", "lit": 'Literal["a", "b\\tc"]', "ref": "Other",
}
NAMES = ["id", "name", "value", "a_b", "Ünï", "x1"]
CHARS = ["a", "b", "Z", "0", " ", "\t", "\n", "\r", "\\", "N", "t", "n", "\x00", "\x0b", "\x0c", "\x08", "é", "\u2028", "\x85", "😀", ",", '"', "'", "\x1a", "\\N", "\r\n", "\x7f"]


class Broken(OSError):
    pass


def generate(rng: random.Random, tier: str) -> dict:
    if rng.random() < 0.2:
        return {"_mode": "load", "_dialect": rng.choice(DIALECTS), "n": rng.choice([0, 1, 3, 8, 20]), "batch": rng.choice([1, 2, 5, 100]), "fail": rng.choice([None, None, 0, 1, 2, 5, 9]), "lat": rng.randrange(4),
                "op": rng.choice(["insert_rows", "upsert_rows"]), "stream": rng.choice(["reader", "lines", "sync"]), "pace": rng.choice([[0.0], [0.0, 0.01, 2.0]]), "seed": rng.randrange(1 << 30), "cancel": rng.choice([None, None, None, 0.01, 1.0])}
    files = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice([1, 1, 2, 3, 4, 6])
        fields = [{"n": n, "t": rng.choice(list(TYPES)), "opt": rng.random() < 0.35} for n in rng.sample(NAMES, k)]
        mapping = None
        if rng.random() < 0.6:
            order = [f["n"] for f in fields]
            rng.shuffle(order)
            new = [rng.choice(["", "meta.", "ключ ", "\\N"]) + n for n in order]
            mapping = dict(zip(order, new if rng.random() < 0.7 else rng.sample(order, len(order))))
        reads = []
        for _ in range(rng.choice([1, 2, 3])):
            reads.append({"stream": rng.choice(["mem", "raw", "reader", "reader", "lines"]), "how": rng.choice(["all", "each", "mixed", "mixed"]), "take": rng.randrange(5), "chunk": rng.choice([1, 2, 7, 64, 4096]), "pace": rng.choice([[0.0], [0.0, 0.001, 5.0]]),
                          "fail": rng.choice([None, None, None, rng.randrange(60)]), "exc": rng.choice(["os", "reset", "cancel", "value"])})
        files.append({"fields": fields, "map": mapping, "n": rng.choice([0, 1, 2, 3, 5, 12]) if rng.random() < 0.997 else rng.choice([270, 1100, 4200]), "portions": rng.choice([1, 1, 2, 3]), "plain": rng.random() < 0.25, "blank": rng.random() < 0.15, "wfail": rng.choice([None, None, None, None, rng.randrange(8)]), "trim": rng.random() < 0.2, "reads": reads, "seed": rng.randrange(1 << 30)})
        if files[-1]["n"] > 12:
            files[-1]["reads"] = [{**x, "chunk": 4096} for x in reads[:2]]
    return {"_mode": "files", "files": files}


def text(rng: random.Random, plain: bool) -> str:
    n = rng.choice([0, 0, 1, 2, 5, 20])
    if rng.random() < 0.02:
        n = 3000
    return "".join(rng.choice(CHARS[:4] if plain else CHARS) for _ in range(n))


def value(rng: random.Random, t: str, mod, plain: bool):
    import ipaddress

    if t == "int":
        return rng.choice([0, 1, -1, rng.randrange(-1000, 1000), 2**31, -(2**63), 2**64 + 1])
    if t == "float":
        return rng.choice([0.0, 0.1, -1.5, 1e300, 5e-324, float(rng.randrange(1000)), rng.random()])
    if t in ("str", "s80"):
        return text(rng, plain)[: 80 if t == "s80" else None]
    if t == "bytes":
        return bytes(rng.choice([0, 9, 10, 13, 92, 78, 255, 128, 65]) for _ in range(rng.choice([0, 1, 2, 9])))
    if t == "bool":
        return rng.random() < 0.5
    if t == "dt":
        x = rng.choice([datetime.datetime(1970, 1, 1), datetime.datetime(2024, 2, 29, 23, 59, 59), datetime.datetime(1989, 10, 23, 1, 0, 0, 123456), datetime.datetime(2, 1, 2), datetime.datetime(9998, 12, 31)])
        z = rng.choice([None, None, UTC, datetime.timezone(datetime.timedelta(hours=5, minutes=30)), datetime.timezone(-datetime.timedelta(hours=11))])
        return x.replace(tzinfo=z)
    if t == "date":
        return rng.choice([datetime.date(1, 1, 1), datetime.date(9999, 12, 31), datetime.date(2024, 2, 29), datetime.date(1989, 10, 23)])
    if t == "time":
        return rng.choice([datetime.time(0, 0), datetime.time(23, 59, 59, 999999), datetime.time(1, 2, 3)])
    if t == "dec":
        return decimal.Decimal(rng.choice(["0", "-1.50", "1E+5", "123456789012345678901234567890.123456789", "0.000001"]))
    if t == "uuid":
        return uuid.UUID(int=rng.getrandbits(128))
    if t == "ip4":
        return ipaddress.IPv4Address(rng.getrandbits(32))
    if t == "ip6":
        return ipaddress.IPv6Address(rng.getrandbits(128))
    if t == "ip":
        return value(rng, rng.choice(["ip4", "ip6"]), mod, plain)
    if t == "list":
        return [text(rng, plain) for _ in range(rng.randrange(4))]
    if t == "li":
        return [rng.randrange(-9, 99) for _ in range(rng.randrange(4))]
    if t == "enum":
        return rng.choice(list(mod.Level))
    if t == "lit":
        return rng.choice(["a", "b\tc"])
    return rng.randrange(1000)  # key of another object


def stored(v):
    "What is expected to be read for a value."
    if hasattr(v, "_name_"):
        return v.value
    if isinstance(v, datetime.datetime) and v.tzinfo is not None:
        return v.astimezone(UTC).replace(tzinfo=None)
    return v


def source(fields: list) -> str:
    out = ["import datetime, decimal, enum, ipaddress, uuid", "from dataclasses import dataclass", "from typing import Annotated, Literal, Optional, Union", "from strong_typing.auxiliary import MaxLength", "from pysqlsync.model.key_types import PrimaryKey", "",
           "class Level(enum.Enum):", "    low = 'low'", "    high = 'hi\\tgh'", "    none = ''", "", "@dataclass", "class Other:", "    id: PrimaryKey[int]", "", "@dataclass", "class Rec:"]
    for f in fields:
        t = TYPES[f["t"]]
        out.append(f"    {f['n']}: " + (f"Optional[{t}]" if f["opt"] else t))
    return "\n".join(out) + "\n"


class Writable(io.BytesIO):
    "A file that fails at the k-th write."

    def __init__(self, fail: typing.Optional[int]):
        super().__init__()
        self.fail = fail
        self.n = 0
        self.exc: typing.Optional[BaseException] = None

    def write(self, data):
        if self.fail is not None and self.n >= self.fail:
            self.exc = Broken(28, "No space left on device")
            raise self.exc
        self.n += 1
        return super().write(data)


class Device(io.RawIOBase):
    "A device that delivers a few bytes at a time and may fail."

    def __init__(self, sim, data: bytes, chunk: int, fail: typing.Optional[int], exc: BaseException):
        self.sim, self.data, self.pos, self.chunk, self.fail, self.exc = sim, data, 0, max(chunk, 1), fail, exc

    def readable(self):
        return True

    def readinto(self, b):
        if self.fail is not None and self.pos >= self.fail:
            raise self.exc
        n = min(1 + self.sim.chooser.choose(self.chunk), len(b), len(self.data) - self.pos)
        if self.fail is not None:
            n = min(n, max(self.fail - self.pos, 0)) or (1 if self.pos < len(self.data) and self.fail > self.pos else 0)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Lines:
    "A stream that delivers line by line at its own pace."

    def __init__(self, sim, data: bytes, pace, fail: typing.Optional[int], exc: BaseException):
        self.sim = sim
        self.lines = data.split(b"\n")
        self.lines = [x + b"\n" for x in self.lines[:-1]] + ([self.lines[-1]] if self.lines[-1] else [])
        self.pace, self.fail, self.exc, self.n = pace, fail, exc, 0
        self.busy = False
        self.after_fail = 0

    async def readline(self, limit: int = -1) -> bytes:
        assert not self.busy
        self.busy = True
        try:
            d = self.pace[self.sim.chooser.choose(len(self.pace))]
            if d:
                await asyncio.sleep(d)
            if self.fail is not None and self.n >= self.fail:
                self.after_fail += 1
                raise self.exc
            if self.n >= len(self.lines):
                return b""
            self.n += 1
            return self.lines[self.n - 1]
        finally:
            self.busy = False


def failure(kind: str) -> BaseException:
    return {"reset": ConnectionResetError("reset by peer"), "value": ValueError("Separator is not found, and chunk exceed the limit"), "cancel": ConnectionAbortedError("aborted")}.get(kind) or Broken(5, "Input/output error")


async def feed(ctx: Ctx, sr: asyncio.StreamReader, data: bytes, chunk: int, pace, fail, exc) -> None:
    "The network beneath a stream reader."
    pos = 0
    while pos < len(data):
        d = pace[ctx.sim.chooser.choose(len(pace))]
        if d:
            await asyncio.sleep(d)
        n = 1 + ctx.sim.chooser.choose(max(chunk, 1))
        if fail is not None and pos + n > fail:
            if fail > pos:
                sr.feed_data(data[pos:fail])
            # (asyncio reports data and the loss of a connection in different turns of the event loop)
            await asyncio.sleep(d)
            await asyncio.sleep(0)
            sr.set_exception(exc)
            return
        sr.feed_data(data[pos:pos + n])
        pos += n
        if not d:
            await asyncio.sleep(0)
    if fail is not None and fail >= len(data):
        await asyncio.sleep(1)
        sr.set_exception(exc)
    else:
        sr.feed_eof()


async def read(ctx: Ctx, who: str, data: bytes, types_: dict, columns: tuple, expected: list, r: dict) -> None:
    from pysqlsync.data.exchange import AsyncTextReader, TextReader

    exc = failure(r["exc"])
    pace = tuple(float(x) for x in r["pace"]) or (0.0,)
    fail = r["fail"]
    got: list = []
    out: typing.Optional[BaseException] = None
    header = False
    feeder = None
    aio = r["stream"] in ("reader", "lines")
    if r["stream"] == "lines" and fail is not None:
        fail = fail % (len(expected) + 2)
    if r["stream"] == "mem":
        fail = None
    try:
        if aio:
            if r["stream"] == "reader":
                st: typing.Any = asyncio.StreamReader(limit=1 << 20)
                feeder = asyncio.get_running_loop().create_task(feed(ctx, st, data, r["chunk"], pace, fail, exc))
            else:
                st = Lines(ctx.sim, data, pace, fail, exc)
            rd: typing.Any = AsyncTextReader(st, types_)
            await rd.read_header()
        else:
            st = io.BytesIO(data) if r["stream"] == "mem" else io.BufferedReader(Device(ctx.sim, data, r["chunk"], fail, exc), buffer_size=rng_size(r))
            rd = TextReader(st, types_)
        header = True
        if rd.columns != columns:
            raise Violation("columns", f"{who}: columns are {rd.columns}, expected {columns}")
        if rd.field_types != tuple(types_[c] for c in columns):
            raise Violation("field-types", f"{who}: field types are {rd.field_types}")
        how = r["how"]
        if how in ("each", "mixed"):
            k = 0
            if aio:
                async for x in rd.records():
                    got.append(x)
                    ctx.sim.event(f"{who}: record {len(got)}")
                    k += 1
                    if how == "mixed" and k >= r["take"]:
                        break
            else:
                for x in rd.records():
                    got.append(x)
                    k += 1
                    if how == "mixed" and k >= r["take"]:
                        break
                    await asyncio.sleep(0)
            if how == "mixed":
                got.extend(await rd.read_records() if aio else rd.read_records())
        else:
            got.extend(await rd.read_records() if aio else rd.read_records())
    except (Violation, GeneratorExit, asyncio.CancelledError):
        raise
    except BaseException as e:
        out = e
    if feeder is not None:
        await feeder
    ctx.sim.event(f"{who}: {len(got)} records of {len(data)} bytes, {type(out).__name__}")
    if fail is not None:
        ctx.sim.fault_counts["stream-failure"] += 1
        ctx.counts["failed-reads"] += 1
        if out is None and not (r["stream"] == "raw" and fail >= len(data) + 0 and got == expected) and not (r["stream"] == "reader" and False):
            raise Violation("failure-lost", f"{who}: the stream failed but reading ended normally with {len(got)} of {len(expected)} records")
        if out is not None and out is not exc:
            raise Violation("wrong-error", f"{who}: the stream failed with {exc!r} but reading raised {root_cause(out)}")
    elif out is not None:
        raise Violation("read-failed", f"{who}: reading {'the header' if not header else 'records'} raised {root_cause(out)}; data {data[:200]!r}")
    same(who, got, expected, fail is None)
    if got:
        ctx.nontrivial = True


def rng_size(r: dict) -> int:
    return {1: 16, 2: 16, 7: 64}.get(r["chunk"], 8192)


def same(who: str, got: list, expected: list, complete: bool) -> None:
    for i, (a, b) in enumerate(zip(got, expected)):
        if tuple(a) != b or [type(x) for x in a] != [type(x) for x in b]:
            raise Violation("record", f"{who}: record {i} is {a!r}, expected {b!r}")
    if len(got) > len(expected):
        raise Violation("extra-records", f"{who}: {len(got)} records instead of {len(expected)}: {got[len(expected)]!r}")
    if complete and len(got) < len(expected):
        raise Violation("lost-records", f"{who}: only {len(got)} of {len(expected)} records were read; the first one missing is {expected[len(got)]!r}")


async def one_file(ctx: Ctx, i: int, f: dict) -> None:
    from pysqlsync.data.exchange import TextWriter, fields_to_types

    rng = random.Random(f["seed"])
    fields = f["fields"]
    if not fields:
        return
    mod = ctx.module(f"exmod{i}", source(fields))
    mapping = f["map"]
    if mapping is not None and (set(mapping) != {x["n"] for x in fields} or len(set(mapping.values())) != len(mapping) or not all(mapping.values())):
        mapping = None
    objs = []
    for _ in range(f["n"]):
        objs.append(mod.Rec(**{x["n"]: None if x["opt"] and rng.random() < 0.3 else "" if f["blank"] and x["t"] in ("str", "s80") else value(rng, x["t"], mod, f["plain"]) for x in fields}))
    order = list(mapping) if mapping else [x["n"] for x in fields]
    columns = tuple(mapping.values()) if mapping else tuple(order)
    expected = [tuple(stored(getattr(o, n)) for n in order) for o in objs]
    who = f"file {i}"
    ws = Writable(f["wfail"])
    out: typing.Optional[BaseException] = None
    try:
        wr = TextWriter(ws, mod.Rec, mapping)
        k = max(f["portions"], 1)
        for p in range(k):
            wr.write_objects(objs[p * len(objs) // k:(p + 1) * len(objs) // k])
            await asyncio.sleep(0)
    except (Violation, GeneratorExit):
        raise
    except BaseException as e:
        out = e
    if ws.exc is not None:
        ctx.counts["failed-writes"] += 1
        ctx.sim.fault_counts["write-failure"] += 1
        ctx.sim.event(f"{who}: write {ws.n} failed")
        if out is not ws.exc:
            raise Violation("failure-lost", f"{who}: writing failed with {ws.exc!r} but the caller got {out!r}")
        return
    if out is not None:
        raise Violation("write-failed", f"{who}: writing raised {root_cause(out)}")
    data = ws.getvalue()
    if f["trim"] and data.endswith(b"\n") and objs and not data.endswith(b"\n\n"):
        data = data[:-1]  # the last line is not terminated
    types_ = fields_to_types(mod.Rec, mapping)
    if set(types_) != set(columns):
        raise Violation("types", f"{who}: types for {sorted(types_)}, columns are {columns}")
    tasks = [asyncio.get_running_loop().create_task(read(ctx, f"{who} read {j} ({r['stream']}, {r['how']})", data, types_, columns, expected, r)) for j, r in enumerate(f["reads"])]
    for t in tasks:
        await t


async def load(ctx: Ctx, plan: dict) -> None:
    "Loads a table from a stream."
    from pysqlsync.data.exchange import AsyncTextReader, TextReader, TextWriter, fields_to_types

    rng = random.Random(plan["seed"])
    d = plan["_dialect"]
    srv = ctx.server(d)
    cand = [{"n": "note", "t": "str", "opt": True}, {"n": "name", "t": "s80"}, {"n": "flag", "t": "bool"}, {"n": "uid", "t": "uuid", "opt": True}, {"n": "level", "t": "enum:Level"}]
    sp = {"enums": {"Level": ["low", "high", "it's"]}, "structs": {}, "tables": [{"name": "Rec", "doc": None, "pk": {"n": "id", "t": "int", "identity": False}, "fields": [
        {"opt": False, "def": None, "uniq": False, "doc": None, **c} for c in [{"n": "amount", "t": "i32"}] + rng.sample(cand, rng.randrange(0, 4))]}]}
    t = sp["tables"][0]
    mod = ctx.module("vmod", schema.source(sp))
    m = rows.Model(sp, d, "ns", srv.db)
    cm = ctx.connection(d, common.options({}, {mod: "ns"}), user="c1")
    w = ctx.world
    async with cm as conn:
        await conn.create_objects([mod.Rec])
        objs, recs = [], []
        for _ in range(plan["n"]):
            key = m.new_key(rng, t)
            rec = {f["n"]: m.field_value(rng, t, f) for f in t["fields"]}
            if rng.random() < 0.3 and "note" in rec and d != "oracle":
                rec["note"] = "".join(rng.choice(CHARS[:12]) for _ in range(4))
            recs.append((key, rec))
            objs.append(mod.Rec(id=key, **{n: (mod.Level(v) if n == "level" else v) for n, v in rec.items()}))
        buf = io.BytesIO()
        order = ["id"] + [f["n"] for f in t["fields"]]
        rng.shuffle(order)
        TextWriter(buf, mod.Rec, {n: n for n in order}).write_objects(objs)
        data = buf.getvalue()
        exc = failure("reset")
        pace = tuple(float(x) for x in plan["pace"]) or (0.0,)
        fail = plan["fail"]
        feeder = None
        types_ = fields_to_types(mod.Rec, None)
        if plan["stream"] == "sync":
            fail = None
            rd: typing.Any = TextReader(io.BytesIO(data), types_)
        else:
            if plan["stream"] == "reader":
                st: typing.Any = asyncio.StreamReader(limit=1 << 20)
                if fail is not None:
                    fail = min(len(data), data.index(b"\n") + 1 + fail * 9)
                feeder = asyncio.get_running_loop().create_task(feed(ctx, st, data, 64, pace, fail, exc))
            else:
                if fail is not None:
                    fail = 1 + fail % (len(objs) + 1)
                st = Lines(ctx.sim, data, pace, fail, exc)
            rd = AsyncTextReader(st, types_)
            try:
                await rd.read_header()
            except ConnectionResetError:
                await feeder
                return
        table = conn.get_table(mod.Rec)
        fn = conn.insert_rows if plan["op"] == "insert_rows" else conn.upsert_rows
        out = None
        task = asyncio.get_running_loop().create_task(fn(table, rd.records(), field_types=rd.field_types, field_names=rd.columns))
        if plan["cancel"]:
            asyncio.get_running_loop().call_later(float(plan["cancel"]), task.cancel)
        try:
            await task
        except GeneratorExit:
            raise
        except BaseException as e:
            out = e
        if feeder is not None:
            await feeder
        who = f"load ({d}, {plan['stream']}, {plan['op']})"
        cancelled = isinstance(out, asyncio.CancelledError)
        if fail is not None and not cancelled:
            ctx.counts["failed-loads"] += 1
            x = out
            while x is not None and x is not exc:
                x = x.__cause__
            if x is None:
                raise Violation("failure-lost", f"{who}: the stream failed but loading {'ended normally' if out is None else 'raised ' + root_cause(out)}")
        elif out is not None and not cancelled:
            raise Violation("load-failed", f"{who}: {root_cause(out)}")
        n = len(m.stored("Rec"))
        if out is None and n != len(recs):
            raise Violation("lost-records", f"{who}: {n} rows in the table after {len(recs)} were loaded")
        for key, rec in recs[:n]:
            m.insert("Rec", key, rec)
        bad = m.difference("Rec")
        if bad:
            raise Violation("record", f"{who}: {bad}")
        if n:
            ctx.nontrivial = True
    del w


def execute(ctx: Ctx, plan: dict) -> None:
    if plan["_mode"] == "load":
        common.setup_world(ctx, plan)
        ctx.batch_size(max(plan["batch"], 1))
        ctx.sim.run(load(ctx, plan))
        ctx.check_hygiene()
        return

    async def main() -> None:
        tasks = [asyncio.get_running_loop().create_task(one_file(ctx, i, f)) for i, f in enumerate(plan["files"])]
        for t in tasks:
            await t

    ctx.sim.run(main())
