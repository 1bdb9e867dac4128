"""
C15: connections in one process do not interfere with each other.

Workload: two to four clients with random dialects, options, entity classes and programs (creation, synchronization, discovery, schema
evolution, bulk writes, queries, offline generation of statements, dropping) whose connections are open and active at the same time under
a seeded schedule; several clients share a server, an entity module, or even the very same options object; some clients run into errors,
lost connections, stalls and cancellation.
Oracle: each client that meets no fault is also run alone, in a process of its own (forked before anything else happened), and must send
exactly the same statements, get the same results, leave the same content and hold the same model of the database.
"""

import asyncio
import copy
import os
import pickle
import random
import typing

from .. import common, env, rows, schema
from ..env import Ctx, DIALECTS, Violation, root_cause
from . import c05

QUICK = 1000
THOROUGH = 30000
RULE = "at least two clients without faults did something while another connection was active"
REAL = common.REAL
STUB = common.STUB
ASSUMPTIONS = common.ASSUMPTIONS + [
    "clients use distinct namespaces: what they read and write does not depend on each other by design",
    "rows of unordered queries come in the same order with and without other clients",
    "the batch size of bulk writes is one setting for the process",
]

OPS = ["insert_rows", "upsert_rows", "insert_data", "upsert_data", "delete_rows", "delete_data", "explore", "explore", "count", "offline", "offline", "reconnect", "evolve", "resync", "drop"]
WRITES = ["insert_rows", "upsert_rows", "upsert_rows", "insert_data", "upsert_data"]


def generate(rng: random.Random, tier: str) -> dict:
    bases: list[dict] = []
    clients: list[dict] = []
    # clients with tables of the same name and equal settings in databases of their own
    alike = rng.random() < 0.25
    # the clients have a namespace of the same name, each in a database of its own
    same_ns = rng.random() < 0.3
    for i in range(rng.choice([2, 2, 3, 4])):
        j = rng.randrange(len(clients)) if clients and rng.random() < (0.9 if alike else 0.6) else None
        prev = clients[j] if j is not None else None
        d = prev["_dialect"] if prev and rng.random() < 0.5 else rng.choice(DIALECTS)
        like = j if prev and d == prev["_dialect"] and rng.random() < 0.5 else None
        if alike and prev:
            d, like = prev["_dialect"], j
        opts = common.gen_options(rng, d)
        opts.pop("foreign_constraints", None)
        if alike and rng.random() < 0.7:
            opts["enum_mode"] = "RELATION"
        if prev and (like is not None or rng.random() < 0.7):
            base = prev["base"]
        else:
            g = schema.Gen(rng, rng.choice([d, "oracle"]), max_tables=rng.choice([1, 2, 3]), docs=rng.random() < 0.3, types=rows.types("mysql"), composite=False)
            g.unique_defaults = True
            spec = g.spec()
            if alike and not spec["enums"]:
                spec = g.spec()
            spec["structs"] = {}
            base = len(bases)
            bases.append(spec)
        ops = []
        for _ in range(rng.randrange(1, 6)):
            ops.append({"op": rng.choice(WRITES if alike and rng.random() < 0.7 else OPS), "seed": rng.randrange(1 << 30), "t": rng.randrange(6), "n": rng.choice([1, 1, 2, 3, 5]), "src": rng.choice(rows.SOURCES), "order": rng.choice([0, 0, 1, 2]),
                        "skip": 0, "fresh": rng.random(), "_d": rng.choice(DIALECTS), "wait": rng.choice([0, 0, 0.001, 0.01, 1])})
        faults = []
        if rng.random() < 0.3:
            faults = [{"k": rng.randrange(0, 30), "kind": rng.choice(["error", "error", "lost_before", "lost_after", "stall", "cancel"]), "sub": 0, "rec": 0, "err": rng.choice(["injected", "deadlock", "permission"]), "d": 2, "late": rng.random() < 0.5}]
        clients.append({"_dialect": d, "opts": opts, "base": base, "own_host": rng.random() < 0.4, "nowhere": rng.random() < 0.12, "like": like, "start": rng.choice([0, 0, 0, 0.005, 3]),
                        "attach": rng.choice(["sync", "sync", "create"]), "ops": ops, "faults": faults})
    return {"_bases": bases, "_same_ns": same_ns, "clients": clients, "batch": rng.choice([1, 2, 3, 100]), "lat": rng.randrange(4)}


class Client:
    "A client and what it observed."

    def __init__(self, ctx: Ctx, plan: dict, i: int, modules: dict, shared: dict):
        c = plan["clients"][i]
        self.i = i
        self.name = f"c{i}"
        root = i
        seen = set()
        while plan["clients"][root].get("like") is not None and root not in seen and plan["clients"][root]["like"] < root:
            seen.add(root)
            root = plan["clients"][root]["like"]
        self.root = root
        r = plan["clients"][root]
        self.d = c["_dialect"]
        if r["_dialect"] != self.d:
            r, root = c, i
        self.opts = r["opts"]
        self.base = r["base"]
        self.ns = "ns" if plan.get("_same_ns") else f"ns{root}"
        if r.get("nowhere"):
            self.ns = ""  # the current schema of its database
        # clients that are alike have the same namespace, hence different servers
        self.host = f"{self.d}-own{i}" if root != i or c["own_host"] or not self.ns or plan.get("_same_ns") else f"{self.d}-common"
        self.ops = c["ops"]
        self.c = c
        self.spec = plan["_bases"][self.base]
        if self.base not in modules:
            modules[self.base] = ctx.module(f"vmod{self.base}", schema.source(self.spec))
        self.mod = modules[self.base]
        self.alone_with_module = sum(1 for x in plan["clients"] if x["base"] == self.base) == 1 and all(x.get("like") != i for x in plan["clients"]) and root == i
        if root not in shared:
            o = common.options(self.opts, {self.mod: self.ns or None})
            shared[root] = (o, repr(o))
        self.options = shared[root][0]
        self.db = ctx.server(self.d, self.host).db
        self.log: list[str] = []
        self.conn: typing.Any = None
        self.cm: typing.Any = None
        self.cancelled = False
        self.task: typing.Any = None

    def note(self, text: str) -> None:
        self.log.append(text)

    def model(self) -> str:
        st = self.conn.connection.generator.state
        if st is None:
            return "no model"
        return "\n".join(x for x in (st.create_stmt(), *(t.add_constraints_stmt() for n in st.namespaces.values() for t in n.tables.values())) if x)

    async def run(self, ctx: Ctx) -> None:
        loop = asyncio.get_running_loop()
        self.task = asyncio.current_task()
        client = ctx.world.client(self.name)

        def on_cancel() -> None:
            self.cancelled = True
            if ctx.sim.on_loop_thread():
                loop.call_soon(self.task.cancel)
            else:
                loop.call_soon_threadsafe(self.task.cancel)

        client.on_cancel = on_cancel
        client.arm([f for f in self.c["faults"] if f.get("kind")])
        try:
            await self.program(ctx)
            self.note("finished")
        except GeneratorExit:
            raise
        except Violation as e:
            self.note(f"unexpected result: {e}")
        except asyncio.CancelledError:
            if not self.cancelled:
                self.note("cancelled")
        except Exception as e:
            self.note(f"error {type(e).__name__}: {root_cause(e)}")
        finally:
            client.disarm()
            if self.cm is not None:
                try:
                    await self.cm.close()
                except Exception as e:
                    self.note(f"closing: {type(e).__name__}: {root_cause(e)}")
        self.fired = [f["kind"] for _, f in client.fired]

    async def open(self, ctx: Ctx) -> None:
        self.cm = ctx.connection(self.d, self.options, user=self.name, host=self.host)
        self.conn = await self.cm.open()

    async def reopen(self, ctx: Ctx) -> None:
        cm, self.cm = self.cm, None
        await cm.close()
        await self.open(ctx)

    async def program(self, ctx: Ctx) -> None:
        from pysqlsync.model.id_types import LocalId

        if self.c["start"]:
            await asyncio.sleep(self.c["start"])
        await self.open(ctx)
        if self.c["attach"] == "create":
            await self.conn.create_objects(common.entity_types([self.mod]))
        else:
            await ctx.explorer(self.d, self.conn).synchronize(module=self.mod)
        m = rows.Model(self.spec, self.d, self.ns, self.db)
        counts = [0]
        self.note(self.model())
        for op in self.ops:
            kind, rng = op["op"], random.Random(op["seed"])
            if op["wait"]:
                await asyncio.sleep(op["wait"])
            if kind in c05.OPS and "_" in kind:
                before = counts[0]
                await c05.run_op(ctx, self.conn, self.mod, m, op, {"_dialect": self.d, "opts": self.opts}, counts)
                self.note(f"{kind} {counts[0] - before}")
            elif kind == "explore":
                ex = ctx.explorer(self.d, self.conn)
                ns = await (ex.get_namespace(LocalId(self.ns)) if self.ns else ex.get_namespace_current())
                self.note("\n".join(x for x in (ns.create_stmt(), ns.add_constraints_stmt()) if x))
            elif kind == "count":
                t = m.spec["tables"][op["t"] % len(m.spec["tables"])]
                cls = getattr(self.mod, t["name"])
                name = self.conn.get_table(cls).name
                res = await self.conn.query_all(int, f"SELECT COUNT(*) FROM {name}")
                self.note(f"count {res!r}")
            elif kind == "offline":
                d = op["_d"]
                o = common.options(common.gen_options(rng, d), {self.mod: "off"})
                try:
                    gen = env.get_dialect(d).create_generator(o)
                    text = gen.create(modules=[self.mod])
                    cls = common.entity_types([self.mod])[op["t"] % len(m.spec["tables"])]
                    text = f"{text}\n{gen.get_dataclass_upsert_stmt(cls)}\n{gen.get_dataclass_insert_stmt(cls)}"
                except Exception as e:
                    text = f"{type(e).__name__}: {root_cause(e)}"
                self.note(f"{d}: {text}")
            elif kind == "reconnect":
                await self.reopen(ctx)
                await ctx.explorer(self.d, self.conn).synchronize(module=self.mod)
            elif kind == "resync":
                await ctx.explorer(self.d, self.conn).synchronize(module=self.mod)
            elif kind == "evolve":
                if not self.alone_with_module:
                    continue
                g = schema.Gen(rng, self.d, docs=False, composite=False)
                g.unique_defaults = True
                steps = g.ops(self.spec, 2, safe=True, kinds=["add_field", "drop_field", "reorder", "add_value", "widen", "rename_field"])
                self.spec = schema.versions(self.spec, [steps])[-1]
                self.mod = ctx.module(self.mod.__name__, schema.source(self.spec))
                serial = m.serial
                m = rows.Model(self.spec, self.d, self.ns, self.db)
                m.serial = serial
                await self.reopen(ctx)
                await ctx.explorer(self.d, self.conn).synchronize(module=self.mod)
                for t in m.spec["tables"]:
                    m.rows[t["name"]] = dict(m.stored(t["name"]))
            elif kind == "drop":
                await self.conn.drop_objects()
                self.note(self.model())
                self.note(repr(sorted(k for k in self.db.state.tables if common.own_key(self.d, self.ns)(k))))
                return
            ctx.counts[kind] += 1
            self.note(self.model())
            for t in m.spec["tables"]:
                self.note(f"{t['name']}: " + repr(sorted(m.stored(t["name"]).items(), key=lambda x: rows.sort_key(x[0]))))
            ctx.sim.event(f"{self.name} {kind}")


def together(ctx: Ctx, plan: dict, which: list[int]) -> dict:
    "Runs in a child process."
    common.setup_world(ctx, plan)
    ctx.world.shuffle = False
    ctx.world.record_statements = True
    ctx.batch_size(plan["batch"] or 1)
    modules: dict = {}
    shared: dict = {}
    clients = [Client(ctx, plan, i, modules, shared) for i in which]
    out: dict = {"hang": None, "violation": None}

    async def main() -> None:
        loop = asyncio.get_running_loop()
        tasks = [loop.create_task(c.run(ctx)) for c in clients]
        for t in tasks:
            await t

    try:
        ctx.sim.run(main())
        if ctx.world.problems:
            out["violation"] = ("driver-protocol", ctx.world.problems[0])
        for o, text in shared.values():
            if repr(o) != text:
                out["violation"] = ("options-altered", f"the options are {o!r}, they were {text}")
    except env.SimHang as e:
        out["hang"] = str(e)
    st = ctx.world.statements
    out["clients"] = {c.i: {"log": c.log, "sent": [t for n, t in st if n == c.name], "fired": getattr(c, "fired", []), "what": f"{c.d} namespace {c.ns} on {c.host}"} for c in clients}
    sim = ctx.sim
    out["sim"] = {"log": list(sim.chooser.log), "trace": list(sim.trace), "steps": sim.steps, "now": sim.now, "faults": dict(sim.fault_counts), "counts": dict(ctx.counts)}
    return out


def forked(fn: typing.Callable[[], typing.Any]) -> typing.Any:
    "Calls a function in a child process, in which nothing has happened yet."
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn()))
            except BaseException as e:  # noqa
                import traceback

                data = pickle.dumps(("failed", "".join(traceback.format_exception(e, limit=-8))[-4000:]))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise env.SimHarnessError("child process died")
    state, value = pickle.loads(data)
    if state != "ok":
        raise env.SimHarnessError("in a child process: " + value)
    return value


def execute(ctx: Ctx, plan: dict) -> None:
    n = len(plan["clients"])
    if not n:
        return
    for c in plan["clients"]:
        if not plan["_bases"][c["base"]]["tables"]:
            return
    both = forked(lambda: together(ctx, plan, list(range(n))))
    s = both["sim"]
    ctx.sim.chooser.log[:] = s["log"]
    ctx.sim.trace[:] = s["trace"]
    ctx.sim.steps = s["steps"]
    ctx.sim.now = s["now"]
    ctx.sim.fault_counts.update(s["faults"])
    ctx.counts.update(s["counts"])
    if both["hang"]:
        raise Violation("hang", both["hang"])
    if both["violation"]:
        raise Violation(*both["violation"])
    good = 0
    for i in range(n):
        a = both["clients"][i]
        if plan["clients"][i]["faults"] and a["fired"]:
            continue

        def solo() -> dict:
            c2 = Ctx(1)
            p = copy.deepcopy(plan)
            p["clients"][i]["faults"] = []
            return together(c2, p, [i])

        alone = forked(solo)
        b = alone["clients"][i]
        if alone["hang"]:
            raise Violation("hang", "alone: " + alone["hang"])
        for what in ("log", "sent"):
            x, y = a[what], b[what]
            if x != y:
                k = next((k for k in range(min(len(x), len(y))) if x[k] != y[k]), min(len(x), len(y)))
                label = {"log": "result", "sent": "statement"}[what]
                raise Violation(f"other-{label}", f"client {i} ({a['what']}): with other connections, {label} {k} is\n{(x[k:] or ['missing'])[0]}\n--- alone it is\n{(y[k:] or ['missing'])[0]}")
        ctx.counts["compared"] += 1
        good += len(b["log"]) > 3
    ctx.nontrivial = good >= 2
