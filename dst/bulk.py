"Bulk writes: a small random schema, records for it, and instrumented record sources."

import asyncio
import random
import types
import typing

from . import rows, schema

OPS = ["insert_rows", "upsert_rows", "delete_rows", "insert_data", "upsert_data", "delete_data", "execute_all"]


def spec(rng: random.Random) -> dict:
    fields = [{"n": "amount", "t": "i32", "opt": False, "def": None, "uniq": False, "doc": None}]
    cand = [
        {"n": "name", "t": "s80"}, {"n": "note", "t": "str", "opt": True}, {"n": "uid", "t": "uuid", "opt": True}, {"n": "tags", "t": "li"},
        {"n": "level", "t": "enum:Level"}, {"n": "mood", "t": "enum:Level", "opt": True}, {"n": "flag", "t": "bool"}, {"n": "at", "t": "dt", "opt": True},
        {"n": "ip", "t": "ip4", "opt": True}, {"n": "price", "t": "dec", "opt": True}, {"n": "due", "t": "date", "opt": True}, {"n": "tiny", "t": "u8"},
    ]
    for c in rng.sample(cand, rng.randrange(0, 5)):
        fields.append({"opt": False, "def": None, "uniq": False, "doc": None, **c})
    return {"enums": {"Level": ["low", "mid", "high", "it's"]}, "structs": {},
            "tables": [{"name": "Rec", "doc": None, "pk": {"n": "id", "t": rng.choice(["int", "int", "s20", "uuid"]), "identity": False}, "fields": fields}]}


def record(rng: random.Random, m: rows.Model, key) -> dict:
    t = m.spec["tables"][0]
    return {f["n"]: m.field_value(rng, t, f) for f in t["fields"]}


class SourceError(Exception):
    "Raised by a record source."


class Feed:
    "What a record source observed."

    def __init__(self, sim, items: list, *, fail_at: typing.Optional[int] = None, exc: typing.Optional[BaseException] = None, on_take=None, on_request=None, pace=(0.0,)):
        self.sim = sim
        self.items = items
        self.fail_at = fail_at
        self.exc = exc if exc is not None else SourceError("source failed")
        self.taken = 0
        self.iterations = 0
        self.after_end = 0
        self.ended = False
        self.failed = False
        self.slept = 0.0
        self.problems: list[str] = []
        self.on_take = on_take
        self.on_request = on_request
        self.pace = pace
        self._busy = False

    def take(self):
        "The next record; raises IndexError at the end."
        if self.failed:
            self.problems.append("a record was requested after the source had failed")
        if self.on_request is not None:
            self.on_request(self.taken)
        if self.ended:
            self.after_end += 1
            raise IndexError
        i = self.taken
        if self.fail_at is not None and i == self.fail_at:
            self.failed = True
            self.sim.event(f"source fails at record {i}")
            raise self.exc
        if i >= len(self.items):
            self.ended = True
            raise IndexError
        self.taken += 1
        if self.on_take is not None:
            self.on_take(i)
        return self.items[i]

    def sized(self):
        feed = self

        class Sized:
            def __len__(self):
                return len(feed.items)

            def __iter__(self):
                feed.iterations += 1
                if feed.iterations > 1:
                    feed.problems.append("the source was iterated more than once")
                return feed.iterator()

        return Sized()

    def iterable(self):
        feed = self

        class It:
            def __iter__(self):
                feed.iterations += 1
                if feed.iterations > 1:
                    feed.problems.append("the source was iterated more than once")
                return feed.iterator()

        return It()

    def iterator(self):
        feed = self

        class Iterator:
            def __iter__(self):
                return self

            def __next__(self):
                try:
                    return feed.take()
                except IndexError:
                    raise StopIteration

        return Iterator()

    def generator(self):
        while True:
            try:
                x = self.take()
            except IndexError:
                return
            yield x

    def aiterator(self):
        feed = self

        class AIterator:
            def __aiter__(self):
                feed.iterations += 1
                if feed.iterations > 1:
                    feed.problems.append("the source was iterated more than once")
                return self

            async def __anext__(self):
                if feed._busy:
                    feed.problems.append("a record was requested while another one was being produced")
                feed._busy = True
                try:
                    d = feed.pace[feed.sim.chooser.choose(len(feed.pace))]
                    if d:
                        feed.slept += d
                        await asyncio.sleep(d)
                    try:
                        return feed.take()
                    except IndexError:
                        raise StopAsyncIteration
                finally:
                    feed._busy = False

        return AIterator()

    async def agenerator(self):
        while True:
            d = self.pace[self.sim.chooser.choose(len(self.pace))]
            if d:
                self.slept += d
                await asyncio.sleep(d)
            try:
                x = self.take()
            except IndexError:
                return
            yield x

    def open(self, kind: str):
        return {"sized": self.sized, "iterable": self.iterable, "iterator": self.iterator, "gen": self.generator, "aiter": self.aiterator, "agen": self.agenerator}[kind]()


SYNC = ["sized", "iterable", "iterator", "gen"]
ANY = SYNC + ["aiter", "agen", "aiter", "agen"]


def supports(op: str, d: str, opts: dict, sp: dict) -> bool:
    "Whether objects of the class can be written (values that need a server look-up cannot be supplied as objects)."
    if op in ("insert_data", "upsert_data"):
        relation = opts.get("enum_mode", {"postgresql": "TYPE", "mysql": "INLINE"}.get(d, "RELATION")) == "RELATION"
        return not (relation and any(f["t"].startswith("enum:") for f in sp["tables"][0]["fields"]))
    return True


def layout(op: str, sp: dict, rng: random.Random) -> list:
    "Positions of a record: the key, fields, and omitted positions (None)."
    t = sp["tables"][0]
    cols: list = ["id"] + [f["n"] for f in t["fields"]]
    if op in ("insert_rows", "upsert_rows"):
        rng.shuffle(cols)
        if rng.random() < 0.4:
            cols.insert(rng.randrange(len(cols) + 1), None)
    return cols


def items_for(op: str, mod, sp: dict, cols: list, pairs: list) -> list:
    "The elements of the source for (key, record) pairs."
    from .checks.c05 import make_object

    t = sp["tables"][0]
    cls = getattr(mod, t["name"])
    if op in ("delete_rows", "delete_data"):
        return [k for k, _ in pairs]
    if op in ("insert_data", "upsert_data"):
        return [make_object(cls, mod, sp, t, k, r) for k, r in pairs]
    if op == "execute_all":
        return [(k, r["amount"]) for k, r in pairs]
    return [tuple(k if c == "id" else None if c is None else r[c] for c in cols) for k, r in pairs]


async def call(conn, op: str, mod, m: rows.Model, cols: list, src, stmt: typing.Optional[str] = None) -> None:
    t = m.spec["tables"][0]
    cls = getattr(mod, t["name"])
    table = conn.get_table(cls)
    if op == "delete_rows":
        await conn.delete_rows(table, rows.PYTYPE[t["pk"]["t"]], src)
    elif op == "delete_data":
        await conn.delete_data(cls, src)
    elif op == "insert_data":
        await conn.insert_data(cls, src)
    elif op == "upsert_data":
        await conn.upsert_data(cls, src)
    elif op == "execute_all":
        await conn.execute_all(stmt, src)
    else:
        by = {f["n"]: f for f in t["fields"]}
        types_ = tuple(types.NoneType if c is None else rows.PYTYPE[t["pk"]["t"]] if c == "id" else rows.field_type(m.base_type(by[c]["t"]), by[c]["t"], None, mod, True) for c in cols)
        names = tuple("" if c is None else c for c in cols)
        await (conn.insert_rows if op == "insert_rows" else conn.upsert_rows)(table, src, field_types=types_, field_names=names)


def update_stmt(conn, d: str, mod) -> str:
    "A hand-written statement with two parameters."
    gen = conn.connection.generator
    table = conn.get_table(mod.Rec)
    return f"INSERT INTO {table.name} ({table.columns['id'].name}, {table.columns['amount'].name}) VALUES ({gen.placeholder(1)}, {gen.placeholder(2)});"


def main_batches(received: list, d: str, ns: str, db: str) -> list:
    "Batches of records that reached the table of interest."
    key = schema.table_key(d, ns, "Rec", db)
    return [b for b in received if b[1] is not None and b[1][1] == key[1]]
