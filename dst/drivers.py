"""
Stand-ins for the database drivers (asyncpg, aiomysql, pyodbc, oracledb, redshift_connector, aiotrino) that talk to the
simulated servers under the simulator: every latency, lock wait, fault and loss is decided by the simulator.
"""

import asyncio
import collections
import datetime
import decimal
import ssl as ssl_module
import re
import typing

from .server import DB, DbError, Result, Session, handled
from .sim import ClientCrash, Sim, SimHarnessError
from .sqlparse import SqlSyntax, parse_script, tokenize

LATENCIES = (0.0005, 0.001, 0.003, 0.01, 0.05)
LOCK_TIMEOUT = 50.0


class Server:
    def __init__(self, world: "World", dialect: str, host: str, database: str):
        self.world = world
        self.dialect = dialect
        self.host = host
        self.database = database
        self.db = DB(dialect, database)
        self.tls: typing.Any = True  # True, False (not offered), "broken" (the handshake fails), "denied" (no account may use it)
        self.cert = "ok"  # or "untrusted", "wrong-host"
        self.plain = True
        self.password: typing.Optional[str] = None
        self.refuse = False


class Client:
    "A simulated client process (identified by the user name it connects with)."

    def __init__(self, name: str):
        self.name = name
        self.rt = 0
        self.faults: dict[int, dict] = {}
        self.fired: list[tuple[int, dict]] = []
        self.crashed = False
        self.conns: list["Conn"] = []
        self.active = 0
        self.labels: list[str] = []

    def arm(self, faults: typing.Iterable[dict]) -> None:
        "Schedules faults relative to the current round trip."
        self.faults = {}
        for f in faults:
            self.faults.setdefault(self.rt + f["k"], f)
        self.fired = []
        self.base = self.rt
        self.labels = []

    def disarm(self) -> None:
        self.faults = {}


class World:
    def __init__(self, sim: Sim):
        self.sim = sim
        sim.world = self  # type: ignore
        self.servers: dict[tuple[str, str], Server] = {}
        self.clients: dict[str, Client] = {}
        self.latencies = LATENCIES
        self.shuffle = False
        self.driver_errors: list[BaseException] = []
        self.problems: list[str] = []  # protocol violations observed by the drivers
        self.attempts: list[dict] = []  # connection attempts
        self.on_roundtrip: typing.Optional[typing.Callable] = None
        self.statements: list[tuple[str, str]] = []  # (client, text)
        self.record_statements = False
        self.calls: list[dict] = []
        self.cursor_seq = 0

    def server(self, dialect: str, host: str, database: str = "db") -> Server:
        k = (dialect, host)
        if k not in self.servers:
            self.servers[k] = Server(self, dialect, host, database)
        return self.servers[k]

    def client(self, name: str) -> Client:
        if name not in self.clients:
            self.clients[name] = Client(name)
        return self.clients[name]

    def latency(self) -> float:
        return self.latencies[self.sim.chooser.choose(len(self.latencies))]

    def crash(self, c: Client) -> None:
        c.crashed = True
        self.sim.event(f"{c.name}: process dies")
        for conn in c.conns:
            conn.kill("process died")


def world() -> World:
    w = getattr(Sim.current(), "world", None)
    if w is None:
        raise SimHarnessError("no simulated world")
    return w


# effects yielded by driver logic
SLEEP = "sleep"
LOCK = "lock"


class Conn:
    """
    Driver-independent part of a client connection. Driver logic is written as generators that yield effects; they are
    run either on the event loop (asynchronous drivers) or on the calling thread (blocking drivers).
    """

    blocking = False

    def __init__(self, srv: Server, client: Client):
        self.w = srv.world
        self.srv = srv
        self.client = client
        self.session: typing.Optional[Session] = None
        self.dead: typing.Optional[str] = None
        self.closed = False
        self.close_calls = 0
        self.busy: typing.Optional[str] = None
        self.tls: typing.Optional[dict] = None
        client.conns.append(self)

    # -- to be provided by drivers
    def err(self, e: DbError) -> BaseException:
        raise NotImplementedError

    def conn_err(self, msg: str) -> BaseException:
        raise NotImplementedError

    def iface_err(self, msg: str) -> BaseException:
        raise NotImplementedError

    def _raise(self, exc: BaseException) -> typing.NoReturn:
        self.w.driver_errors.append(exc)
        raise exc

    @property
    def is_open(self) -> bool:
        return self.session is not None and not self.closed and self.dead is None

    def kill(self, why: str) -> None:
        if self.dead is None:
            self.dead = why
        if self.session is not None:
            self.session.close()

    # -- running generators
    def drive_sync(self, gen):
        sim = self.w.sim
        if sim.on_loop_thread():
            sim.note("driver-call-on-loop-thread")
        c = self.client
        c.active += 1
        call = {"client": c.name, "start": sim.now, "end": None, "t": "sync"}
        self.w.calls.append(call)
        try:
            val = None
            while True:
                try:
                    eff = gen.send(val)
                except StopIteration as s:
                    return s.value
                val = None
                if eff[0] == SLEEP:
                    sim.thread_sleep(eff[1])
                else:
                    val = self._wait_lock_sync()
                if c.crashed:
                    gen.close()
                    raise ClientCrash()
        finally:
            c.active -= 1
            call["end"] = sim.now
            self.busy = None

    def _wait_lock_sync(self) -> bool:
        sim = self.w.sim
        s = self.session
        if s.can_write():
            return True
        deadline = sim.now + LOCK_TIMEOUT
        while not s.can_write():
            if sim.now >= deadline:
                return False
            sim.thread_sleep(0.01 if sim.now + 0.01 > sim.now else 1)
            sim.steps += 1
            if s.closed:
                return False
        return True

    async def drive_async(self, gen):
        sim = self.w.sim
        c = self.client
        c.active += 1
        call = {"client": c.name, "start": sim.now, "end": None, "t": "async"}
        self.w.calls.append(call)
        try:
            val = None
            while True:
                try:
                    eff = gen.send(val)
                except StopIteration as s:
                    return s.value
                val = None
                try:
                    if eff[0] == SLEEP:
                        await asyncio.sleep(eff[1])
                    else:
                        deadline = sim.now + LOCK_TIMEOUT
                        val = True
                        while not self.session.can_write():
                            if sim.now >= deadline or self.session.closed:
                                val = False
                                break
                            await asyncio.sleep(0.01)
                except asyncio.CancelledError:
                    self.on_cancel()
                    gen.close()
                    raise
                if c.crashed:
                    gen.close()
                    raise ClientCrash()
        finally:
            c.active -= 1
            call["end"] = sim.now
            self.busy = None

    def on_cancel(self) -> None:
        "The task was cancelled while waiting for the server."

    # -- connecting
    dest: dict = {}  # what the connection is made with

    def g_connect(self, tls: typing.Optional[dict]):
        w, srv, c = self.w, self.srv, self.client
        att = {"client": c.name, "tls": tls, "ok": False, "host": srv.host, "conn": self, **self.dest}
        w.attempts.append(att)
        f = self._begin("connect")
        yield (SLEEP, w.latency())
        yield from self._stall(f)
        if f and f["kind"] in ("lost_before", "lost_after", "error", "refuse"):
            self._fire(f)
            self._raise(self.refused("connection refused"))
        if f and f["kind"].startswith("crash"):
            self._fire(f)
            w.crash(c)
            raise ClientCrash()
        if srv.refuse:
            self._raise(self.refused("connection refused"))
        return att

    def handshake(self, tls: dict) -> typing.Optional[BaseException]:
        "What a client with the given TLS settings makes of the certificate of the server."
        srv = self.srv
        if srv.tls == "broken":
            return ssl_module.SSLError(1, "[SSL: TLSV1_ALERT_PROTOCOL_VERSION] tlsv1 alert protocol version")
        if tls["verify"] and srv.cert == "untrusted":
            return ssl_module.SSLCertVerificationError(1, "certificate verify failed: self-signed certificate")
        if tls["hostname"] and srv.cert == "wrong-host":
            return ssl_module.SSLCertVerificationError(1, "certificate verify failed: hostname mismatch")
        return None

    def abandon(self) -> None:
        "The driver itself drops a connection that is being opened."
        self.closed = True
        if self.session is not None:
            self.session.close()

    def accept(self, att: dict) -> None:
        att["ok"] = True
        self.session = self.srv.db.session()
        self.w.sim.event(f"{self.client.name}: connected to {self.srv.dialect}:{self.srv.host} tls={bool(att['tls'])}")

    def refused(self, msg: str) -> BaseException:
        return ConnectionRefusedError(msg)

    # -- round trips
    def _begin(self, label: str) -> typing.Optional[dict]:
        c = self.client
        if c.crashed:
            raise ClientCrash()
        if self.busy is not None:
            self.w.problems.append(f"{c.name}: connection used for {label!r} while {self.busy!r} is in progress")
            self._raise(self.iface_err("another operation is in progress"))
        if self.dead is not None or self.closed:
            self._raise(self.iface_err("connection is closed"))
        self.busy = label
        n = c.rt
        c.rt += 1
        c.labels.append(label)
        self.w.sim.event(f"{c.name}#{n}: {label[:100]}")
        if self.w.on_roundtrip is not None:
            self.w.on_roundtrip(self, n, label)
        return c.faults.get(n)

    def _fire(self, f: dict) -> None:
        c = self.client
        c.fired.append((c.rt - 1, f))
        c.faults.pop(c.rt - 1, None)
        self.w.sim.fault_counts[f["kind"]] += 1
        self.w.sim.event(f"{c.name}: FAULT {f['kind']} at round trip {c.rt - 1} ({self.busy})")

    def _stall(self, f: typing.Optional[dict]):
        if f and f["kind"] == "stall":
            self._fire(f)
            yield (SLEEP, float(f.get("d", 30)))
        if f and f["kind"] == "cancel":
            # the harness cancels the task while the request is under way
            self._fire(f)
            cb = f.get("cb") or getattr(self.client, "on_cancel", None)
            if cb is not None:
                cb()
            yield (SLEEP, 0.0)

    def g_roundtrip(self, label: str, nsub: int, needs_lock: bool, run: typing.Callable[[int], typing.Any], on_abort: typing.Callable[[], None]):
        """
        One exchange with the server: `run(j)` performs the j-th statement on the server.
        Returns (list of results, index of the failing statement or None, DbError or None).
        """

        w = self.w
        sim = w.sim
        f = self._begin(label)
        kind = f["kind"] if f else None
        sub = (f.get("sub", 0) % max(nsub, 1)) if f else 0
        if kind == "cancel" and f.get("late"):
            pass
        else:
            yield from self._stall(f)
        yield (SLEEP, w.latency())
        if kind == "lost_before" and sub == 0:
            self._fire(f)
            self.kill("connection lost")
            self._raise(self.conn_err("connection lost before the request was processed"))
        if kind == "crash_before" and sub == 0:
            self._fire(f)
            w.crash(self.client)
            raise ClientCrash()
        if self.dead is not None:
            self._raise(self.conn_err("connection lost"))
        out: list = []
        failed: typing.Optional[int] = None
        error: typing.Optional[DbError] = None
        for j in range(nsub):
            if kind in ("lost_before", "crash_before") and sub == j and j > 0:
                self._fire(f)
                if kind == "crash_before":
                    w.crash(self.client)
                    raise ClientCrash()
                self.kill("connection lost")
                self._raise(self.conn_err("connection lost while the request was processed"))
            if needs_lock and not self.session.can_write():
                sim.note("lock-wait")
                ok = yield (LOCK,)
                if self.dead is not None:
                    self._raise(self.conn_err("connection lost"))
                if not ok:
                    failed, error = j, DbError("lock_timeout", "lock wait timeout exceeded")
                    break
            if kind == "error" and sub == j:
                self._fire(f)
                failed, error = j, DbError(f.get("err", "injected"), "injected failure")
                break
            try:
                out.append(run(j))
            except DbError as e:
                failed, error = j, e
                break
        if error is not None:
            on_abort()
        if kind in ("lost_after", "crash_after"):
            self._fire(f)
            if error is None:
                self.g_done()
            if kind == "crash_after":
                w.crash(self.client)
                raise ClientCrash()
            self.kill("connection lost")
            self._raise(self.conn_err("connection lost before the response arrived"))
        if error is None:
            self.g_done()
        if kind == "cancel" and f.get("late"):
            yield from self._stall(f)
        yield (SLEEP, w.latency())
        if self.dead is not None:
            self._raise(self.conn_err("connection lost"))
        return out, failed, error

    def g_fetch(self):
        "Requests the next rows of a large result."
        out, failed, error = yield from self.g_roundtrip("FETCH", 1, False, lambda j: None, lambda: None)
        if error is not None:
            self._raise(self.err(error))

    def g_done(self) -> None:
        "Called when all statements of a request were accepted (implicit commit goes here)."

    def g_close(self):
        self.close_calls += 1
        if self.close_calls > 1:
            self.w.problems.append(f"{self.client.name}: connection closed {self.close_calls} times")
        if not self.closed:
            if self.dead is None and not self.client.crashed:
                n = self.client.rt
                self.client.rt += 1
                self.client.labels.append("close")
                if self.w.on_roundtrip is not None:
                    self.w.on_roundtrip(self, n, "close")
                f = self.client.faults.get(n)
                try:
                    yield (SLEEP, self.w.latency())
                    yield from self._stall(f)
                except GeneratorExit:
                    # cancelled: the driver drops the connection
                    self.abandon()
                    raise
                if f and f["kind"] in ("error", "lost_before", "lost_after"):
                    self.busy = "close"
                    self._fire(f)
                    self.busy = None
                    self.abandon()
                    self._raise(self.conn_err("connection lost while closing"))
            self.closed = True
            if self.session is not None:
                self.session.close()
            self.w.sim.event(f"{self.client.name}: disconnected")

    # -- statements
    def parse(self, text: str) -> list:
        if self.w.record_statements:
            self.w.statements.append((self.client.name, text))
        return list(parse_script(text, self.srv.dialect))

    def select_result(self, r: Result, text: str) -> Result:
        if self.w.shuffle and r.rows and len(r.rows) > 1:
            tail = text[text.rfind(")") + 1:] if ")" in text else text
            if "order by" not in tail.lower() and any(k in text.lower() for k in ("pg_catalog", "information_schema", "sys.", "dba_")):
                k = self.w.sim.chooser.choose(4)
                rows = r.rows
                if k == 1:
                    rows = rows[::-1]
                elif k == 2:
                    rows = rows[1:] + rows[:1]
                elif k == 3:
                    rows = rows[1::2] + rows[::2]
                return Result(r.rowcount, r.columns, rows)
        return r


def nparams(text: str, dialect: str) -> int:
    try:
        ps = [t.val for t in tokenize(text, dialect) if t.kind == "param"]
    except SqlSyntax as e:
        raise DbError("syntax", str(e))
    return max(ps) + 1 if ps else 0


def writes(session: Session, trees: list) -> bool:
    return any(session.is_write(t[0]) for t in trees)


# ---------------------------------------------------------------------------------------------- PostgreSQL (asyncpg)

import asyncpg  # noqa: E402
import asyncpg.connect_utils  # noqa: E402

_PG_ERR = {
    "syntax": asyncpg.PostgresSyntaxError, "undefined_type": asyncpg.UndefinedObjectError, "undefined_table": asyncpg.UndefinedTableError,
    "undefined_column": asyncpg.UndefinedColumnError, "undefined_schema": asyncpg.InvalidSchemaNameError,
    "undefined_constraint": asyncpg.UndefinedObjectError, "duplicate": asyncpg.DuplicateObjectError, "duplicate_table": asyncpg.DuplicateTableError,
    "duplicate_type": asyncpg.DuplicateObjectError, "duplicate_schema": asyncpg.DuplicateSchemaError, "duplicate_column": asyncpg.DuplicateColumnError,
    "unique": asyncpg.UniqueViolationError, "notnull": asyncpg.NotNullViolationError, "fk": asyncpg.ForeignKeyViolationError,
    "fk_target": asyncpg.InvalidForeignKeyError, "fk_type": asyncpg.DatatypeMismatchError, "check": asyncpg.CheckViolationError,
    "data": asyncpg.DataError, "too_long": asyncpg.StringDataRightTruncationError, "dependent": asyncpg.DependentObjectsStillExistError,
    "type_change": asyncpg.DatatypeMismatchError, "lock_timeout": asyncpg.LockNotAvailableError, "injected": asyncpg.DiskFullError,
    "deadlock": asyncpg.DeadlockDetectedError, "permission": asyncpg.InsufficientPrivilegeError, "canceled": asyncpg.QueryCanceledError,
}

ServerVersion = collections.namedtuple("ServerVersion", "major minor micro releaselevel serial")


class PgRecord:
    __slots__ = ("_keys", "_vals")

    def __init__(self, keys, vals):
        self._keys = keys
        self._vals = vals

    def items(self):
        return iter(zip(self._keys, self._vals))

    def keys(self):
        return iter(self._keys)

    def values(self):
        return iter(self._vals)

    def __iter__(self):
        return iter(self._vals)

    def __len__(self):
        return len(self._vals)

    def __getitem__(self, k):
        if isinstance(k, str):
            return self._vals[self._keys.index(k)]
        return self._vals[k]

    def get(self, k, default=None):
        return self._vals[self._keys.index(k)] if k in self._keys else default

    def __contains__(self, k):
        return k in self._keys

    def __repr__(self):
        return f"<Record {dict(zip(self._keys, self._vals))}>"


class PgTransaction:
    "An explicit transaction block (nested blocks are savepoints, which are not modelled)."

    def __init__(self, conn):
        self.conn = conn
        self.outer = False

    async def start(self):
        if self.conn.tx is not None:
            self.outer = True
            return

        def begin():
            self.conn.tx = "open"

        await self.conn.g_tx("BEGIN", begin)

    async def commit(self):
        if self.outer:
            return

        def done():
            (self.conn.session.commit if self.conn.tx == "open" else self.conn.session.rollback)()
            self.conn.tx = None

        await self.conn.g_tx("COMMIT", done)

    async def rollback(self):
        if self.outer:
            return

        def done():
            self.conn.session.rollback()
            self.conn.tx = None

        await self.conn.g_tx("ROLLBACK", done)

    async def __aenter__(self):
        await self.start()
        return self

    async def __aexit__(self, et, ev, tb):
        if et is None:
            await self.commit()
        else:
            await self.rollback()


class PgStatement:
    def __init__(self, conn, query):
        self.conn, self.query = conn, query

    async def fetch(self, *args, timeout=None):
        return await self.conn.fetch(self.query, *args)

    async def fetchrow(self, *args, timeout=None):
        return await self.conn.fetchrow(self.query, *args)

    async def fetchval(self, *args, column=0, timeout=None):
        return await self.conn.fetchval(self.query, *args, column=column)

    async def executemany(self, args, *, timeout=None):
        await self.conn.executemany(self.query, args)


class PgConn(Conn):
    def err(self, e):
        x = _PG_ERR.get(e.kind, asyncpg.PostgresError)(e.message)
        x.sim = e  # type: ignore
        return x

    def conn_err(self, msg):
        return asyncpg.ConnectionDoesNotExistError(msg)

    def iface_err(self, msg):
        return asyncpg.InterfaceError(msg)

    def get_server_version(self):
        return ServerVersion(16, 4, 0, "final", 0)

    def get_settings(self):
        return type("Settings", (), {"server_version": "16.4"})()

    def is_closed(self):
        return self.closed or self.dead is not None

    def _lockfree(self, trees):
        return not writes(self.session, trees)

    tx: typing.Optional[str] = None  # state of the explicit transaction, if any

    def g_done(self):
        if self.tx is None:
            self.session.commit()

    def _abort(self):
        if self.tx is not None:
            self.tx = "failed"
        self.session.rollback()

    def transaction(self, *, isolation=None, readonly=False, deferrable=False):
        return PgTransaction(self)

    def is_in_transaction(self):
        return self.tx is not None

    async def g_tx(self, label, fn):
        def g():
            out, failed, error = yield from self.g_roundtrip(label, 1, False, lambda j: fn(), lambda: None)
            if error is not None:
                self._raise(self.err(error))

        await self.drive_async(g())

    async def prepare(self, query, *, name=None, timeout=None, record_class=None):
        return PgStatement(self, query)

    def g_script(self, text, want_rows=False):
        try:
            trees = self.parse(text)
        except DbError as e:
            trees = []
            bad = e
        else:
            bad = next((DbError("syntax", t[0][1]) for t in trees if t[0][0] == "error"), None)

        def run(j):
            if bad is not None:
                raise bad
            tree, t = trees[j]
            if self.tx == "failed":
                raise DbError("aborted", "current transaction is aborted, commands ignored until end of transaction block")
            self.session.in_txn = True
            r = self.session.execute(tree)
            if r.columns is not None:
                r = self.select_result(r, t)
            return r

        n = max(len(trees), 1) if bad is None else 1
        if not trees and bad is None:
            def run(j):  # noqa
                return Result(0)
        out, failed, error = yield from self.g_roundtrip(text, n, bad is None and writes(self.session, trees), run, self._abort)
        if error is not None:
            self._raise(self.err(error))
        return out

    async def execute(self, query, *args, timeout=None):
        if not isinstance(query, str):
            raise TypeError("query must be str")
        if args:
            return await self.executemany(query, [args])
        await self.drive_async(self.g_script(query))
        return "OK"

    async def fetch(self, query, *args, timeout=None, record_class=None):
        out = await self.drive_async(self.g_script(query))
        r = next((x for x in out if x.columns is not None), None)
        if r is None:
            return []
        keys = list(r.columns)
        return [PgRecord(keys, row) for row in r.rows]

    async def fetchrow(self, query, *args, timeout=None):
        rows = await self.fetch(query, *args)
        return rows[0] if rows else None

    async def fetchval(self, query, *args, column=0, timeout=None):
        row = await self.fetchrow(query, *args)
        return row[column] if row is not None else None

    async def executemany(self, command, args, *, timeout=None):
        rows = [tuple(a) for a in args]
        trees = self.parse(command)
        if len(trees) != 1:
            self._raise(asyncpg.PostgresSyntaxError("cannot insert multiple commands into a prepared statement"))
        tree = trees[0][0]
        want = nparams(command, self.srv.dialect)
        for r in rows:
            if len(r) != want:
                self._raise(asyncpg.InterfaceError(f"the server expects {want} arguments for this query, {len(r)} were passed"))
        await self.drive_async(self.g_many(command, tree, rows))

    def g_many(self, label, tree, rows):
        f = self.client.faults.get(self.client.rt)
        inj = None
        if f and f["kind"] == "error" and rows:
            inj = f.get("rec", 0) % len(rows)

        def run(j):
            if self.tx == "failed":
                raise DbError("aborted", "current transaction is aborted, commands ignored until end of transaction block")
            self.session.in_txn = True
            if inj is not None:
                f["kind_done"] = True
                return self.session.execute_many(tree, rows, True, inj, DbError(f.get("err", "injected"), "injected failure"))
            return self.session.execute_many(tree, rows, True)

        if inj is not None:
            self.client.faults[self.client.rt] = {**f, "kind": "none"}
        out, failed, error = yield from self.g_roundtrip(label, 1, True, run, self._abort)
        if inj is not None:
            self.client.fired.append((self.client.rt - 1, f))
            self.w.sim.fault_counts["error-in-batch"] += 1
        if error is not None:
            self._raise(self.err(error))
        return out

    async def copy_records_to_table(self, table_name, *, records, columns=None, schema_name=None, timeout=None, where=None):
        seq = []
        if hasattr(records, "__aiter__"):
            async for r in records:
                seq.append(tuple(r))
        else:
            for r in records:
                seq.append(tuple(r))
        st = self.session.view() if self.session else None
        key = (schema_name or (st.default_schema if st else "public"), table_name)
        t = st.tables.get(key) if st else None
        cols = list(columns) if columns is not None else [c.name for c in t.live()] if t else []
        label = f"COPY {schema_name}.{table_name}({','.join(cols)})"
        if self.w.record_statements:
            self.w.statements.append((self.client.name, label))
        for r in seq:
            if len(r) != len(cols):
                self._raise(asyncpg.InterfaceError(f"copy: number of values {len(r)} does not match the number of columns {len(cols)}"))
        params = [("param", i) for i in range(len(cols))]
        tree = ("insert", (schema_name, table_name), cols, ("values", [params]), None)
        await self.drive_async(self.g_many(label, tree, seq))
        return f"COPY {len(seq)}"

    async def close(self, *, timeout=None):
        await self.drive_async(self.g_close())

    def terminate(self):
        self.closed = True
        self.close_calls += 1
        if self.session is not None:
            self.session.close()


def _pg_sslmode(host, port, user, password, database, ssl):
    "Uses the real driver's logic to find out what the connection parameters mean."
    cu = asyncpg.connect_utils
    try:
        res = cu._parse_connect_dsn_and_args(
            dsn=None, host=host, port=port, user=user, password=password, passfile=None, database=database, ssl=ssl, service=None,
            servicefile=None, direct_tls=None, server_settings=None, target_session_attrs=None, krbsrvname=None, gsslib=None,
        )
        params = res[1]
        return params.sslmode, params.ssl
    except TypeError:
        pass
    mode = cu.SSLMode
    if ssl is None:
        return mode.prefer, object()
    if ssl is False:
        return mode.disable, None
    if isinstance(ssl, str):
        m = mode.parse(ssl)
        return m, (None if m is mode.disable else object())
    return mode.require, ssl


def _ctx_info(ctx) -> dict:
    return {"verify": int(getattr(ctx, "verify_mode", 0) or 0), "hostname": bool(getattr(ctx, "check_hostname", False)), "kind": type(ctx).__module__}


async def asyncpg_connect(dsn=None, *, host=None, port=None, user=None, password=None, database=None, ssl=None, timeout=60, **kw):
    w = world()
    srv = w.servers[("postgresql", host)] if ("postgresql", host) in w.servers else w.server("postgresql", host, database or "db")
    client = w.client(user)
    mode, ctx = _pg_sslmode(host, port, user, password, database, ssl)
    M = asyncpg.connect_utils.SSLMode
    if mode is M.disable:
        tries = [None]
    elif mode is M.prefer:
        tries = [ctx, None]
    elif mode is M.allow:
        tries = [None, ctx]
    else:
        tries = [ctx]
    last: typing.Optional[BaseException] = None
    for k, c in enumerate(tries):
        conn = PgConn(srv, client)
        conn.dest = {"user": user, "port": port or 5432, "password": password, "database": database}
        try:
            return await conn.drive_async(_g_pg_connect(conn, c, password))
        except asyncio.CancelledError:
            conn.abandon()
            raise
        except (asyncpg.InvalidAuthorizationSpecificationError, ConnectionError, OSError) as e:
            last = e
            if isinstance(e, ConnectionRefusedError) or k + 1 >= len(tries):
                raise
    raise last  # type: ignore


def _g_pg_connect(conn: PgConn, ctx, password):
    tls = _ctx_info(ctx) if ctx is not None else None
    att = yield from conn.g_connect(tls)
    srv = conn.srv
    if tls is not None and not srv.tls:
        conn._raise(ConnectionError(f"PostgreSQL server at {srv.host} rejected SSL upgrade"))
    if tls is not None:
        yield (SLEEP, conn.w.latency())
        tls.update(_ctx_info(ctx))  # the handshake goes by the settings the context has by then
        e = conn.handshake(tls)
        if e is not None:
            conn._raise(e)
        if srv.tls == "denied":
            conn._raise(asyncpg.InvalidAuthorizationSpecificationError("no pg_hba.conf entry for host, SSL encryption"))
    if tls is None and not srv.plain:
        conn._raise(asyncpg.InvalidAuthorizationSpecificationError("no pg_hba.conf entry for host, no encryption"))
    if srv.password is not None and password != srv.password:
        att["denied"] = True
        conn._raise(asyncpg.InvalidPasswordError("password authentication failed"))
    conn.accept(att)
    conn.tls = tls
    yield (SLEEP, conn.w.latency())
    return conn


# ---------------------------------------------------------------------------------------------- MySQL (aiomysql)

import aiomysql  # noqa: E402
import aiomysql.cursors  # noqa: E402
import pymysql  # noqa: E402
from pymysql.constants import CLIENT as MYCLIENT  # noqa: E402

_MY_ERR = {
    "syntax": (pymysql.err.ProgrammingError, 1064), "undefined_type": (pymysql.err.ProgrammingError, 1064),
    "undefined_table": (pymysql.err.ProgrammingError, 1146), "undefined_column": (pymysql.err.OperationalError, 1054),
    "undefined_constraint": (pymysql.err.OperationalError, 1091), "duplicate": (pymysql.err.OperationalError, 1826),
    "duplicate_table": (pymysql.err.OperationalError, 1050), "duplicate_column": (pymysql.err.OperationalError, 1060),
    "unique": (pymysql.err.IntegrityError, 1062), "notnull": (pymysql.err.IntegrityError, 1048), "nodefault": (pymysql.err.OperationalError, 1364),
    "fk": (pymysql.err.IntegrityError, 1452), "check": (pymysql.err.OperationalError, 3819), "data": (pymysql.err.DataError, 1366),
    "too_long": (pymysql.err.DataError, 1406), "dependent": (pymysql.err.OperationalError, 3730), "lock_timeout": (pymysql.err.OperationalError, 1205),
    "deadlock": (pymysql.err.OperationalError, 1213), "injected": (pymysql.err.OperationalError, 1114), "permission": (pymysql.err.OperationalError, 1142),
    "canceled": (pymysql.err.OperationalError, 1317),
}


class MyCursor:
    dictionary = False

    def __init__(self, conn: "MyConn"):
        self.conn = conn
        self.rowcount = -1
        self._rows: list = []
        self._pos = 0
        self._cols: typing.Optional[list] = None
        self._closed = False
        self.lastrowid = 0

    @property
    def description(self):
        return tuple((c, None, None, None, None, None, None) for c in self._cols) if self._cols is not None else None

    def _take(self, r: Result):
        self.rowcount = r.rowcount
        self._cols = r.columns
        self._pos = 0
        if r.columns is None:
            self._rows = []
        elif self.dictionary:
            fields: list = []
            for c in r.columns:
                fields.append("." + c if c in fields else c)  # (table name).column in aiomysql
            self._rows = [dict(zip(fields, row)) for row in r.rows]
        else:
            self._rows = list(r.rows)

    async def execute(self, query, args=None):
        if self._closed:
            raise pymysql.err.ProgrammingError("Cursor closed")
        while await self.nextset():
            pass
        rs = await self.conn.drive_async(self.conn.g_query(query, args))
        self._take(rs)
        return self.rowcount

    async def executemany(self, query, args):
        if not args:
            return
        args = list(args)
        m = aiomysql.cursors.RE_INSERT_VALUES.match(query)
        if m:
            while await self.nextset():
                pass
            n = await self.conn.drive_async(self.conn.g_insert_many(query, args))
            self.rowcount = n
            return n
        total = 0
        for a in args:
            await self.execute(query, a)
            total += max(self.rowcount, 0)
        self.rowcount = total
        return total

    async def nextset(self):
        c = self.conn
        if not c.pending:
            return None
        r = c.pending.pop(0)
        if isinstance(r, DbError):
            c.pending = []
            c._raise(c.err(r))
        self._take(r)
        return True

    async def fetchall(self):
        rows = self._rows[self._pos:]
        self._pos = len(self._rows)
        return rows if self.dictionary else tuple(rows) if not rows else list(rows)

    async def fetchone(self):
        if self._pos >= len(self._rows):
            return None
        self._pos += 1
        return self._rows[self._pos - 1]

    async def fetchmany(self, size=1):
        rows = self._rows[self._pos:self._pos + size]
        self._pos += len(rows)
        return rows

    def __aiter__(self):
        return self

    async def __anext__(self):
        r = await self.fetchone()
        if r is None:
            raise StopAsyncIteration
        return r

    async def close(self):
        if self._closed:
            return
        while await self.nextset():
            pass
        self._closed = True

    async def __aenter__(self):
        return self

    async def __aexit__(self, *exc):
        await self.close()


class MyDictCursor(MyCursor):
    dictionary = True


class _CursorCtx:
    def __init__(self, coro):
        self._coro = coro
        self._obj = None

    def __await__(self):
        return self._coro.__await__()

    async def __aenter__(self):
        self._obj = await self._coro
        return self._obj

    async def __aexit__(self, *exc):
        await self._obj.close()


class MyConn(Conn):
    ansi = True

    def __init__(self, srv, client):
        super().__init__(srv, client)
        self.pending: list = []
        self.server_capabilities = 0

    def err(self, e):
        cls, no = _MY_ERR.get(e.kind, (pymysql.err.OperationalError, 1105))
        x = cls(no, e.message)
        x.sim = e
        return x

    def conn_err(self, msg):
        return pymysql.err.OperationalError(2013, f"Lost connection to MySQL server during query ({msg})")

    def iface_err(self, msg):
        return pymysql.err.InterfaceError(0, msg) if "progress" not in msg else RuntimeError("readexactly() called while another coroutine is already waiting for incoming data")

    def refused(self, msg):
        return pymysql.err.OperationalError(2003, f"Can't connect to MySQL server ({msg})")

    def on_cancel(self):
        # the driver cannot resynchronise the protocol after a cancelled read: it closes the connection
        self.kill("cancelled")

    def cursor(self, *cursors):
        if not self.is_open:
            self._raise(pymysql.err.InterfaceError(0, "(0, 'Not connected')"))
        cls = MyCursor
        for c in cursors:
            if isinstance(c, type) and issubclass(c, aiomysql.cursors.DictCursor):
                cls = MyDictCursor

        async def make():
            return cls(self)

        return _CursorCtx(make())

    def _args(self, query, args):
        "Validates parameters as the real driver's escaping would."
        if isinstance(args, (list, tuple)):
            vals = tuple(args)
            for v in vals:
                pymysql.converters.escape_item(v, "utf8mb4", mapping=None)
        else:
            vals = (args,)
        n = nparams(query, "mysql")
        if n != len(vals):
            raise TypeError("not all arguments converted during string formatting" if n < len(vals) else "not enough arguments for format string")
        return vals

    def g_query(self, query, args):
        # results left over from the previous command are read first
        while self.pending:
            r = self.pending.pop(0)
            if isinstance(r, DbError):
                self.pending = []
                self._raise(self.err(r))
        vals = self._args(query, args) if args is not None else None
        trees = self.parse(query)
        if not trees:
            trees = [(("error", "Query was empty"), query)]
        if not self.ansi and '"' in query:
            trees = [(("error", "a string is not an identifier"), query)]

        def run(j):
            tree, t = trees[j]
            r = self.session.execute(tree, vals)
            return self.select_result(r, t) if r.columns is not None else r

        out, failed, error = yield from self.g_roundtrip(query, len(trees), writes(self.session, trees), run, self.session.rollback)
        if failed == 0:
            self._raise(self.err(error))
        self.pending = list(out[1:])
        if error is not None:
            self.pending.append(error)
        return out[0]

    def g_insert_many(self, query, args):
        rows = [self._args(query, a) for a in args]
        trees = self.parse(query)
        if len(trees) != 1:
            self._raise(self.err(DbError("syntax", "multi-statement INSERT")))
        if not self.ansi and '"' in query:
            self._raise(self.err(DbError("syntax", "a string is not an identifier")))
        tree = trees[0][0]
        f = self.client.faults.get(self.client.rt)
        inj = None
        if f and f["kind"] == "error":
            inj = f.get("rec", 0) % len(rows)
            self.client.faults[self.client.rt] = {**f, "kind": "none"}
        if tree[0] == "insert":
            # one multi-row statement
            want = len(tree[2])
            del want

        def run(j):
            fail = DbError(f.get("err", "injected"), "injected failure") if inj is not None else None
            return self.session.execute_many(tree, rows, True, inj, fail)

        out, failed, error = yield from self.g_roundtrip(query, 1, True, run, self.session.rollback)
        if inj is not None:
            self.client.fired.append((self.client.rt - 1, f))
            self.w.sim.fault_counts["error-in-batch"] += 1
        if error is not None:
            self._raise(self.err(error))
        return out[0]

    def close(self):
        "Closes the socket at once."
        self.close_calls += 1
        if self.close_calls > 1:
            self.w.problems.append(f"{self.client.name}: connection closed {self.close_calls} times")
        if not self.closed:
            self.closed = True
            if self.session is not None:
                self.session.close()
            self.w.sim.event(f"{self.client.name}: disconnected")

    async def ensure_closed(self):
        self.close()

    async def _end(self, label, fn):
        def g():
            out, failed, error = yield from self.g_roundtrip(label, 1, False, lambda j: fn(), lambda: None)
            if error is not None:
                self._raise(self.err(error))

        await self.drive_async(g())

    async def begin(self):
        await self._end("BEGIN", lambda: None)

    async def commit(self):
        await self._end("COMMIT", self.session.commit)

    async def rollback(self):
        await self._end("ROLLBACK", self.session.rollback)

    async def autocommit(self, value):
        await self._end(f"SET AUTOCOMMIT = {int(bool(value))}", lambda: setattr(self.session, "autocommit", bool(value)))

    @property
    def _ssl_context(self):
        return None


async def aiomysql_connect(host="localhost", user=None, password="", db=None, port=3306, ssl=None, autocommit=False, sql_mode=None,
                           init_command=None, **kw):
    w = world()
    srv = w.servers[("mysql", host)] if ("mysql", host) in w.servers else w.server("mysql", host, db or "db")
    conn = MyConn(srv, w.client(user))
    conn.dest = {"user": user, "port": port, "password": password, "database": db}

    def g():
        tls = _ctx_info(ssl) if ssl is not None else None
        att = yield from conn.g_connect(tls)
        conn.server_capabilities = MYCLIENT.SSL if srv.tls else 0
        if tls is not None and not srv.tls:
            # the driver goes on in plain text when the server does not offer TLS
            att["tls"] = None
            att["wanted_tls"] = tls
            tls = None
        if tls is not None:
            yield (SLEEP, w.latency())
            tls.update(_ctx_info(ssl))
            e = conn.handshake(tls)
            if e is not None:
                x = pymysql.err.OperationalError(2003, f"Can't connect to MySQL server on '{host}'")
                x.__cause__ = e
                conn._raise(x)
            if srv.tls == "denied":
                conn._raise(pymysql.err.OperationalError(1045, "Access denied"))
        if tls is None and not srv.plain:
            conn._raise(pymysql.err.OperationalError(3159, "Connections using insecure transport are prohibited while --require_secure_transport=ON."))
        if srv.password is not None and password != srv.password:
            conn._raise(pymysql.err.OperationalError(1045, "Access denied"))
        conn.accept(att)
        conn.tls = tls
        conn.session.autocommit = bool(autocommit)
        yield (SLEEP, w.latency())
        # the mode of the server is ONLY_FULL_GROUP_BY,STRICT_TRANS_TABLES,...
        flags = (sql_mode or "STRICT_TRANS_TABLES").upper()
        if sql_mode and not re.fullmatch(r"('[\w,]*'|\"[\w,]*\"|\w+)", sql_mode):
            conn._raise(pymysql.err.ProgrammingError(1064, "You have an error in your SQL syntax"))
        conn.ansi = "ANSI" in flags
        conn.session.settings = {"strict": "STRICT_" in flags or "TRADITIONAL" in flags, "auto_on_zero": "NO_AUTO_VALUE_ON_ZERO" not in flags}
        return conn

    try:
        return await conn.drive_async(g())
    except asyncio.CancelledError:
        conn.abandon()
        raise


# ---------------------------------------------------------------------------------------------- SQL Server (pyodbc)

import pyodbc  # noqa: E402

_MS_ERR = {
    "syntax": (pyodbc.ProgrammingError, "42000"), "undefined_type": (pyodbc.ProgrammingError, "42000"), "undefined_table": (pyodbc.ProgrammingError, "42S02"),
    "undefined_column": (pyodbc.ProgrammingError, "42S22"), "undefined_constraint": (pyodbc.ProgrammingError, "42000"),
    "duplicate": (pyodbc.ProgrammingError, "42S01"), "duplicate_table": (pyodbc.ProgrammingError, "42S01"), "duplicate_column": (pyodbc.ProgrammingError, "42S21"),
    "unique": (pyodbc.IntegrityError, "23000"), "notnull": (pyodbc.IntegrityError, "23000"), "fk": (pyodbc.IntegrityError, "23000"),
    "check": (pyodbc.IntegrityError, "23000"), "data": (pyodbc.DataError, "22018"), "too_long": (pyodbc.ProgrammingError, "22001"),
    "dependent": (pyodbc.ProgrammingError, "42000"), "lock_timeout": (pyodbc.OperationalError, "HYT00"), "injected": (pyodbc.OperationalError, "HY000"),
    "deadlock": (pyodbc.OperationalError, "40001"), "permission": (pyodbc.ProgrammingError, "42000"), "identity": (pyodbc.IntegrityError, "23000"),
}


class OdbcRow:
    def __init__(self, cols, vals):
        self.cursor_description = tuple((c, None) for c in cols)
        self._cols = cols
        self._vals = tuple(vals)

    def __getattribute__(self, name):
        if name.startswith("_") or name == "cursor_description":
            return object.__getattribute__(self, name)
        try:
            return self._vals[len(self._cols) - 1 - self._cols[::-1].index(name)]
        except ValueError:
            raise AttributeError(f"'pyodbc.Row' object has no attribute '{name}'")

    def __getitem__(self, i):
        return self._vals[i]

    def __len__(self):
        return len(self._vals)

    def __iter__(self):
        return iter(self._vals)

    def __repr__(self):
        return repr(self._vals)


_NUMBERS = (bool, int, float, decimal.Decimal, str)
_ODBC_ACCEPTS = {
    **{k: _NUMBERS for k in (pyodbc.SQL_BIT, pyodbc.SQL_TINYINT, pyodbc.SQL_SMALLINT, pyodbc.SQL_INTEGER, pyodbc.SQL_BIGINT, pyodbc.SQL_REAL, pyodbc.SQL_DOUBLE, pyodbc.SQL_FLOAT, pyodbc.SQL_DECIMAL)},
    pyodbc.SQL_TYPE_TIMESTAMP: (datetime.date, str), pyodbc.SQL_TYPE_DATE: (datetime.date, str), pyodbc.SQL_TYPE_TIME: (datetime.time, datetime.datetime, str),
    pyodbc.SQL_BINARY: (bytes, bytearray, str), pyodbc.SQL_VARBINARY: (bytes, bytearray, str),
}


class OdbcCursor:
    def __init__(self, conn: "OdbcConn"):
        self.conn = conn
        self.fast_executemany = False
        self._sizes = None
        self.rowcount = -1
        self._res: typing.Optional[Result] = None
        self._pos = 0
        self._sent = 0
        self._more: list = []
        self.closed = False

    @property
    def description(self):
        return tuple((c, None, None, None, None, None, None) for c in self._res.columns) if self._res and self._res.columns is not None else None

    def setinputsizes(self, sizes):
        self._sizes = sizes

    def execute(self, sql, *params):
        if len(params) == 1 and isinstance(params[0], (tuple, list)):
            params = tuple(params[0])
        self._more = []
        out = self.conn.drive_sync(self.conn.g_batch(sql, params))
        self._res, self._more = out
        self.rowcount = self._res.rowcount if self._res else -1
        self._pos = self._sent = 0
        return self

    def executemany(self, sql, params):
        if not isinstance(params, (list, tuple)):
            params = list(params)
        elif not params:
            self.conn._raise(pyodbc.ProgrammingError("The second parameter to executemany must not be empty."))
        rows = [tuple(p) for p in params]
        self._check_sizes(rows)
        self.conn.drive_sync(self.conn.g_many(sql, rows))
        self.rowcount = -1
        self._res = None

    def _check_sizes(self, rows):
        "What the driver is told about the parameters decides how they are converted."
        for r in rows:
            for (kind, size, _), v in zip(self._sizes or (), r):
                if v is None:
                    continue
                if not isinstance(v, _ODBC_ACCEPTS.get(kind, object)):
                    self.conn._raise(pyodbc.Error("07006", f"[07006] [Microsoft][ODBC Driver 18 for SQL Server]Restricted data type attribute violation ({type(v).__name__})"))
                if kind in (pyodbc.SQL_CHAR, pyodbc.SQL_VARCHAR) and isinstance(v, str) and 0 < size < len(v) and self.fast_executemany:
                    self.conn._raise(pyodbc.Error("HY000", f"[HY000] String data, right truncation: length {len(v)} buffer {size}"))

    def nextset(self):
        if not self._more:
            return False
        r = self._more.pop(0)
        if isinstance(r, DbError):
            self._more = []
            self.conn._raise(self.conn.err(r))
        self._res = r
        self._pos = self._sent = 0
        return True

    def _need(self):
        if self._res is None or self._res.columns is None:
            self.conn._raise(pyodbc.ProgrammingError("No results.  Previous SQL was not a query."))

    def _transfer(self, upto):
        while self._sent < min(upto, len(self._res.rows)):
            if self._sent:
                self.conn.drive_sync(self.conn.g_fetch())
            self._sent += 200

    def fetchall(self):
        self._need()
        self._transfer(len(self._res.rows))
        rows = [OdbcRow(self._res.columns, r) for r in self._res.rows[self._pos:]]
        self._pos = len(self._res.rows)
        return rows

    def fetchone(self):
        self._need()
        self._transfer(self._pos + 1)
        if self._pos >= len(self._res.rows):
            return None
        self._pos += 1
        return OdbcRow(self._res.columns, self._res.rows[self._pos - 1])

    def fetchmany(self, size=1):
        self._need()
        self._transfer(self._pos + size)
        rows = [OdbcRow(self._res.columns, r) for r in self._res.rows[self._pos:self._pos + size]]
        self._pos += len(rows)
        return rows

    def fetchval(self):
        row = self.fetchone()
        return row[0] if row is not None else None

    def __iter__(self):
        return iter(self.fetchall())

    def commit(self):
        self.conn.commit()

    def rollback(self):
        self.conn.rollback()

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None and not self.conn.autocommit:
            self.conn.commit()


class OdbcConn(Conn):
    blocking = True

    def __init__(self, srv, client):
        super().__init__(srv, client)
        self._auto = False

    @property
    def autocommit(self):
        return self._auto

    @autocommit.setter
    def autocommit(self, v):
        self._auto = bool(v)
        if self.session is not None:
            self.session.autocommit = bool(v)

    def err(self, e):
        cls, st = _MS_ERR.get(e.kind, (pyodbc.Error, "HY000"))
        x = cls(st, f"[{st}] [Microsoft][ODBC Driver 18 for SQL Server][SQL Server]{e.message} (SQLExecDirectW)")
        return x

    def conn_err(self, msg):
        return pyodbc.OperationalError("08S01", f"[08S01] Communication link failure: {msg}")

    def iface_err(self, msg):
        return pyodbc.Error("HY000", f"[HY000] Connection is busy with results for another command: {msg}") if "progress" in msg else pyodbc.ProgrammingError(
            "Attempt to use a closed connection.")

    def refused(self, msg):
        return pyodbc.OperationalError("08001", f"[08001] {msg}")

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None and not self._auto:
            self.commit()

    def cursor(self):
        if self.closed:
            self._raise(pyodbc.ProgrammingError("Attempt to use a closed connection."))
        return OdbcCursor(self)

    def execute(self, sql, *params):
        return self.cursor().execute(sql, *params)

    def _commit(self, label, fn):
        def g():
            out, failed, error = yield from self.g_roundtrip(label, 1, False, lambda j: fn(), lambda: None)
            if error is not None:
                self._raise(self.err(error))

        if self.dead is not None and label == "ROLLBACK":
            self._raise(self.conn_err("connection lost"))
        if self.session is not None and self.session.work is None and self.dead is None and not self.client.faults:
            fn()
            return
        self.drive_sync(g())

    def commit(self):
        if self.closed:
            self._raise(pyodbc.ProgrammingError("Attempt to use a closed connection."))
        self._commit("COMMIT", self.session.commit)

    def rollback(self):
        if self.closed:
            self._raise(pyodbc.ProgrammingError("Attempt to use a closed connection."))
        self._commit("ROLLBACK", self.session.rollback)

    def g_batch(self, sql, params):
        try:
            want = nparams(sql, "mssql")
        except DbError as e:
            want = len(params)
            del e
        if want != len(params):
            self._raise(pyodbc.ProgrammingError("HY000", f"The SQL contains {want} parameter markers, but {len(params)} parameters were supplied"))
        trees = self.parse(sql)
        bad = next((t[0][1] for t in trees if t[0][0] == "error"), None)
        if bad is not None:
            trees = [(("error", bad), sql)]

        def run(j):
            tree, t = trees[j]
            r = self.session.execute(tree, params)
            return self.select_result(r, t) if r.columns is not None else r

        out, failed, error = yield from self.g_roundtrip(sql, len(trees), writes(self.session, trees), run, lambda: None)
        # results with a row count or rows hold back what follows until nextset() is called
        visible: list = []
        for (tree, _), r in zip(trees, out):
            if r.columns is not None or tree[0] in ("insert", "update", "delete", "merge"):
                visible.append(r)
        if error is not None:
            visible.append(error)
        if visible and isinstance(visible[0], DbError):
            self._raise(self.err(visible[0]))
        return (visible[0], visible[1:]) if visible else (Result(-1), [])

    def g_many(self, sql, rows):
        want = nparams(sql, "mssql")
        for r in rows:
            if len(r) != want:
                self._raise(pyodbc.ProgrammingError("HY000", f"The SQL contains {want} parameter markers, but {len(r)} parameters were supplied"))
        trees = self.parse(sql)
        f = self.client.faults.get(self.client.rt)
        inj = None
        if f and f["kind"] == "error" and rows:
            inj = f.get("rec", 0) % len(rows)
            self.client.faults[self.client.rt] = {**f, "kind": "none"}

        def run(j):
            fail = DbError(f.get("err", "injected"), "injected failure") if inj is not None else None
            if len(trees) == 1:
                return self.session.execute_many(trees[0][0], rows, False, inj, fail)
            for i, r in enumerate(rows):
                if inj is not None and i == inj:
                    raise fail
                for tree, _ in trees:
                    self.session.execute(tree, r)
            return 0

        out, failed, error = yield from self.g_roundtrip(sql, 1, True, run, lambda: None)
        if inj is not None:
            self.client.fired.append((self.client.rt - 1, f))
            self.w.sim.fault_counts["error-in-batch"] += 1
        if error is not None:
            self._raise(self.err(error))

    def close(self):
        if self.closed:
            self.close_calls += 1
            self.w.problems.append(f"{self.client.name}: connection closed {self.close_calls} times")
            self._raise(pyodbc.ProgrammingError("Attempt to use a closed connection."))
        self.drive_sync(self.g_close())


def odbc_parts(text: str) -> dict[str, str]:
    """
    Keywords (in upper case) and values of an ODBC connection string. A value in braces may have any character in it, with closing
    braces doubled; blanks around other values do not count; the first of several values for a keyword does.
    """
    out: dict[str, str] = {}
    i = 0
    while i < len(text):
        k = text.find("=", i)
        if k < 0:
            break
        key = text[i:k].strip(" ;").upper()
        k += 1
        while k < len(text) and text[k] == " ":
            k += 1
        if text[k:k + 1] == "{":
            value = ""
            k += 1
            while k < len(text):
                if text[k] == "}":
                    if text[k + 1:k + 2] != "}":
                        break
                    k += 1
                value += text[k]
                k += 1
            else:
                raise pyodbc.Error("IM012", "DRIVER keyword syntax error: unterminated brace")
            end = text.find(";", k)
        else:
            end = text.find(";", k)
            value = text[k:end if end >= 0 else len(text)].strip()
        out.setdefault(key.split(";")[-1].strip(), value)
        i = end + 1 if end >= 0 else len(text)
    return out


def pyodbc_connect(conn_string="", autocommit=False, timeout=0, **kw):
    w = world()
    parts = odbc_parts(conn_string)
    parts.update({k.upper(): str(v) for k, v in kw.items()})
    host, _, port = parts.get("SERVER", "").partition(",")
    srv = w.servers[("mssql", host)] if ("mssql", host) in w.servers else w.server("mssql", host, parts.get("DATABASE", "db"))
    conn = OdbcConn(srv, w.client(parts.get("UID")))
    conn.dest = {"user": parts.get("UID"), "port": int(port or 1433), "password": parts.get("PWD"), "database": parts.get("DATABASE")}

    def g():
        # Driver 18 encrypts unless told otherwise
        enc = parts.get("ENCRYPT", "yes").lower()
        trust = parts.get("TRUSTSERVERCERTIFICATE", "no").lower() in ("yes", "true", "1")
        tls = None if enc in ("no", "optional", "false") else {"verify": 0 if trust else 2, "hostname": not trust, "kind": "odbc"}
        att = yield from conn.g_connect(tls)
        if tls is not None and not srv.tls or tls is None and not srv.plain:
            conn._raise(conn.refused("SSL Provider"))
        if tls is not None and conn.handshake(tls) is not None:
            conn._raise(conn.refused("SSL Provider: " + str(conn.handshake(tls))))
        if srv.password is not None and parts.get("PWD") != srv.password:
            conn._raise(pyodbc.InterfaceError("28000", "Login failed"))
        conn.accept(att)
        conn.tls = tls
        conn.autocommit = autocommit
        yield (SLEEP, w.latency())
        return conn

    return conn.drive_sync(g())


# ---------------------------------------------------------------------------------------------- Oracle (oracledb)

import oracledb  # noqa: E402

_ORA_ERR = {
    "unique": (oracledb.IntegrityError, "ORA-00001"), "notnull": (oracledb.IntegrityError, "ORA-01400"), "fk": (oracledb.IntegrityError, "ORA-02291"),
    "check": (oracledb.IntegrityError, "ORA-02290"), "undefined_table": (oracledb.DatabaseError, "ORA-00942"), "syntax": (oracledb.DatabaseError, "ORA-00900"),
    "lock_timeout": (oracledb.OperationalError, "ORA-00054"), "injected": (oracledb.OperationalError, "ORA-01653"), "deadlock": (oracledb.OperationalError, "ORA-00060"),
}


_ORA_ACCEPTS = {
    **{k: (bool, int, float, decimal.Decimal) for k in ("DB_TYPE_BOOLEAN", "DB_TYPE_NUMBER", "DB_TYPE_BINARY_INTEGER", "DB_TYPE_BINARY_FLOAT", "DB_TYPE_BINARY_DOUBLE")},
    **{k: (str, bytes) for k in ("DB_TYPE_RAW", "DB_TYPE_BLOB", "DB_TYPE_CHAR", "DB_TYPE_VARCHAR", "DB_TYPE_CLOB")},
    **{k: (datetime.date,) for k in ("DB_TYPE_DATE", "DB_TYPE_TIMESTAMP", "DB_TYPE_TIMESTAMP_TZ", "DB_TYPE_TIMESTAMP_LTZ")}, "DB_TYPE_INTERVAL_DS": (datetime.timedelta,),
}


class OraVar:
    def __init__(self, typ, size=0, *a, **k):
        if not isinstance(typ, (type, oracledb.DbType)):
            raise TypeError("DPY-2007: expected a type")
        if not isinstance(size, int):
            raise TypeError("an integer is required")
        self.args = ((typ, size) + a, k)


class OraCursor:
    def __init__(self, conn: "OraConn"):
        self.conn = conn
        self.rowfactory = None
        self.rowcount = -1
        self.arraysize = 100
        self._res: typing.Optional[Result] = None
        self._pos = 0
        self._sent = 0
        self._sizes: tuple = ()
        self._closed = False

    @property
    def description(self):
        return tuple((c, None) for c in self._res.columns) if self._res and self._res.columns is not None else None

    def var(self, *a, **k):
        return OraVar(*a, **k)

    def setinputsizes(self, *a, **k):
        self._sizes = a
        return list(a)

    def execute(self, statement, parameters=None, **kw):
        if self._closed:
            self.conn._raise(oracledb.InterfaceError("DPY-1006: cursor is not open"))
        self._res = self.conn.drive_sync(self.conn.g_one(statement, parameters))
        self._pos = self._sent = 0
        self.rowcount = self._res.rowcount
        self.rowfactory = None
        return self if self._res.columns is not None else None

    def executemany(self, statement, parameters, batcherrors=False, arraydmlrowcounts=False, **kw):
        if isinstance(parameters, int) or not isinstance(parameters, list):
            raise TypeError("parameters should be a list of sequences/dictionaries or an integer specifying the number of times to execute the statement")
        rows = [tuple(p) for p in parameters]
        for r in rows:
            for var, v in zip(self._sizes, r):
                kind = var.args[0][0] if isinstance(var, OraVar) else var
                if v is not None and not isinstance(v, _ORA_ACCEPTS.get(getattr(kind, "name", None), object)):
                    self.conn._raise(oracledb.NotSupportedError(f"DPY-3013: unsupported Python type {type(v).__name__} for database type {kind.name}"))
        self._errors: list = []
        self.rowcount = self.conn.drive_sync(self.conn.g_many(statement, rows, self._sizes, self._errors if batcherrors else None))
        self._res = None

    def getbatcherrors(self):
        return [self.conn.err(e) for e in self._errors]

    def _need(self):
        if self._res is None or self._res.columns is None:
            self.conn._raise(oracledb.InterfaceError("DPY-1003: the executed statement does not return rows"))

    def _row(self, r):
        return self.rowfactory(*r) if self.rowfactory is not None else tuple(r)

    def _transfer(self, upto):
        while self._sent < min(upto, len(self._res.rows)):
            if self._sent:
                self.conn.drive_sync(self.conn.g_fetch())
            self._sent += self.arraysize

    def fetchall(self):
        self._need()
        self._transfer(len(self._res.rows))
        rows = [self._row(r) for r in self._res.rows[self._pos:]]
        self._pos = len(self._res.rows)
        return rows

    def fetchone(self):
        self._need()
        self._transfer(self._pos + 1)
        if self._pos >= len(self._res.rows):
            return None
        self._pos += 1
        return self._row(self._res.rows[self._pos - 1])

    def fetchmany(self, size=None):
        self._need()
        self._transfer(self._pos + (size or self.arraysize))
        rows = [self._row(r) for r in self._res.rows[self._pos:self._pos + (size or self.arraysize)]]
        self._pos += len(rows)
        return rows

    def __iter__(self):
        return iter(self.fetchall())

    def close(self):
        self._closed = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class OraConn(Conn):
    blocking = True

    def __init__(self, srv, client):
        super().__init__(srv, client)
        self._auto = False

    @property
    def autocommit(self):
        return self._auto

    @autocommit.setter
    def autocommit(self, v):
        self._auto = bool(v)

    def err(self, e):
        cls, no = _ORA_ERR.get(e.kind, (oracledb.DatabaseError, "ORA-00900"))
        return cls(f"{no}: {e.message}")

    def conn_err(self, msg):
        return oracledb.OperationalError(f"DPY-4011: the database or network closed the connection ({msg})")

    def iface_err(self, msg):
        return oracledb.InterfaceError(f"DPY-1001: not connected to database ({msg})")

    def refused(self, msg):
        return oracledb.OperationalError(f"DPY-6005: cannot connect to database ({msg})")

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def cursor(self, scrollable=False):
        if not self.is_open:
            self._raise(oracledb.InterfaceError("DPY-1001: not connected to database"))
        return OraCursor(self)

    def commit(self):
        def g():
            out, failed, error = yield from self.g_roundtrip("COMMIT", 1, False, lambda j: self.session.commit(), lambda: None)
            if error is not None:
                self._raise(self.err(error))

        self.drive_sync(g())

    def rollback(self):
        def g():
            out, failed, error = yield from self.g_roundtrip("ROLLBACK", 1, False, lambda j: self.session.rollback(), lambda: None)
            if error is not None:
                self._raise(self.err(error))

        self.drive_sync(g())

    def _single(self, sql):
        plsql = sql.lstrip()[:7].upper().startswith(("BEGIN", "DECLARE"))
        if not plsql and sql.rstrip().endswith(";"):
            return [(("error", "ORA-00933: SQL command not properly ended"), sql)]
        if sql.lstrip().upper().startswith("ALTER SESSION"):
            if not re.fullmatch(r"\s*ALTER\s+SESSION\s+SET(\s+\w+\s*=\s*'[^']*')+\s*", sql, re.I):
                return [(("error", "ORA-00922: missing or invalid option"), sql)]
            return [(("noop",), sql)]
        trees = self.parse(sql)
        if not plsql and len(trees) != 1:
            return [(("error", "ORA-00933: SQL command not properly ended" if trees else "ORA-00900: empty statement"), sql)]
        return trees

    def g_one(self, sql, params):
        trees = self._single(sql)
        vals = tuple(params) if params is not None else None

        def run(j):
            tree, t = trees[j]
            self.session.in_txn = True
            r = self.session.execute(tree, vals)
            if tree[0] == "noop":
                for kind, fmt in re.findall(r"NLS_(DATE|TIMESTAMP)_FORMAT\s*=\s*'([^']*)'", t, re.I):
                    self.session.settings[kind.lower()] = fmt.upper()
            if r.columns is not None:
                return self.select_result(r, t)
            if self._auto:
                self.session.commit()
            return r

        out, failed, error = yield from self.g_roundtrip(sql, len(trees), writes(self.session, trees), run, lambda: self._release())
        if error is not None and trees[0][0][0] == "plsql" and handled(trees[0][0], error):
            error = None  # the block catches it
        if error is not None:
            self._raise(self.err(error))
        return out[0] if out else Result(0)

    def _release(self):
        # a failed statement leaves earlier uncommitted work (if any) in place
        if self.session.work is None or self.session.work is self.session.db.state:
            self.session.rollback()

    def g_many(self, sql, rows, sizes, errors=None):
        trees = self._single(sql)
        want = nparams(sql, "oracle")
        for r in rows:
            if len(r) != want:
                self._raise(oracledb.DatabaseError(f"DPY-4009: {want} positional bind values are required but {len(r)} were provided"))
        if len(sizes) > want:
            self._raise(oracledb.DatabaseError(f"DPY-4009: {want} positional bind values are required but {len(sizes)} were provided"))
        f = self.client.faults.get(self.client.rt)
        inj = None
        if f and f["kind"] == "error" and rows:
            inj = f.get("rec", 0) % len(rows)
            self.client.faults[self.client.rt] = {**f, "kind": "none"}

        def run(j):
            fail = DbError(f.get("err", "injected"), "injected failure") if inj is not None else None
            self.session.in_txn = True
            if trees[0][0][0] == "error":
                raise DbError("syntax", trees[0][0][1])
            had = self.session.work is not None
            if errors is not None:
                # the rejected rows are left out, and nothing is committed if there are any
                n = 0
                for i, r in enumerate(rows):
                    try:
                        n += self.session.execute_many(trees[0][0], [r], False, 0 if i == inj else None, fail)
                    except DbError as e:
                        errors.append(e)
                if self._auto and not errors:
                    self.session.commit()
                return n
            try:
                n = self.session.execute_many(trees[0][0], rows, False, inj, fail)
            except DbError:
                if not had and self.session.work is not None and _same_data(self.session):
                    self.session.rollback()
                raise
            if self._auto:
                self.session.commit()
            return n

        out, failed, error = yield from self.g_roundtrip(sql, 1, True, run, lambda: None)
        if inj is not None:
            self.client.fired.append((self.client.rt - 1, f))
            self.w.sim.fault_counts["error-in-batch"] += 1
        if error is not None:
            self._raise(self.err(error))
        return out[0]

    def close(self):
        if self.closed:
            self.close_calls += 1
            self.w.problems.append(f"{self.client.name}: connection closed {self.close_calls} times")
            self._raise(oracledb.InterfaceError("DPY-1001: not connected to database"))
        self.drive_sync(self.g_close())

    def is_healthy(self):
        return self.is_open


def _same_data(session) -> bool:
    a, b = session.work, session.db.state
    return all(k in b.tables and t.rows == b.tables[k].rows for k, t in a.tables.items())


def oracledb_connect(dsn=None, *, user=None, password=None, **kw):
    w = world()
    hostport, _, database = (dsn or "").partition("/")
    host, _, port = hostport.partition(":")
    srv = w.servers[("oracle", host)] if ("oracle", host) in w.servers else w.server("oracle", host, database or "db")
    conn = OraConn(srv, w.client(user))
    conn.dest = {"user": user, "port": int(port or 1521), "password": password, "database": database}

    def g():
        att = yield from conn.g_connect(None)
        if srv.password is not None and password != srv.password:
            conn._raise(oracledb.DatabaseError("ORA-01017: invalid credential"))
        conn.accept(att)
        conn.session.in_txn = True
        conn.session.settings = {"date": "DD-MON-RR", "timestamp": "DD-MON-RR HH.MI.SSXFF AM"}
        yield (SLEEP, w.latency())
        return conn

    return conn.drive_sync(g())


# ---------------------------------------------------------------------------------------------- Redshift

import redshift_connector  # noqa: E402


class RsCursor:
    def __init__(self, conn: "RsConn"):
        self.conn = conn
        self._res: typing.Optional[Result] = None
        self._closed = False
        self.rowcount = -1

    @property
    def description(self):
        return [(c, None) for c in self._res.columns] if self._res and self._res.columns is not None else None

    def execute(self, sql, args=None, stream=None, **kw):
        self._pos = 0
        self._res = self.conn.drive_sync(self.conn.g_one(sql, args, stream))
        return self

    def executemany(self, sql, seq):
        for r in seq:
            self.execute(sql, tuple(r))
        return self

    def fetchall(self):
        if self._res is None or self._res.columns is None:
            raise redshift_connector.ProgrammingError("no result set")
        n, self._pos = self._pos, len(self._res.rows)
        return tuple(list(r) for r in self._res.rows[n:])

    def fetchone(self):
        if self._res is None or self._res.columns is None:
            raise redshift_connector.ProgrammingError("no result set")
        if self._pos >= len(self._res.rows):
            return None
        self._pos += 1
        return list(self._res.rows[self._pos - 1])

    def fetchmany(self, num=None):
        out = []
        for _ in range(num or 1):
            r = self.fetchone()
            if r is None:
                break
            out.append(r)
        return tuple(out)

    def __iter__(self):
        return iter(self.fetchone, None)

    def close(self):
        self._closed = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


class RsConn(Conn):
    blocking = True

    def __init__(self, srv, client):
        super().__init__(srv, client)
        self._auto = False

    @property
    def autocommit(self):
        return self._auto

    @autocommit.setter
    def autocommit(self, v):
        self._auto = v

    def err(self, e):
        return redshift_connector.ProgrammingError({"S": "ERROR", "C": "XX000", "M": e.message})

    def conn_err(self, msg):
        return redshift_connector.InterfaceError("network error: " + msg)

    def iface_err(self, msg):
        return redshift_connector.InterfaceError("connection is closed" if "closed" in msg else msg)

    def refused(self, msg):
        return redshift_connector.InterfaceError("communication error: " + msg)

    def cursor(self):
        return RsCursor(self)

    def g_one(self, sql, args, stream):
        import re

        m = re.match(r'^COPY\s+(?:"([^"]+)"\.)?"([^"]+)"\s*\((.*)\)\s+FROM STDIN$', sql, re.S)
        if m and stream is not None:
            cols = [c.strip().strip('"') for c in m.group(3).split(",")]
            rows = []
            for line in stream.read().decode("utf-8").split("\n")[:-1]:
                rows.append(tuple(line.split("|")))
            if self.w.record_statements:
                self.w.statements.append((self.client.name, sql))
            trees = [(("insert", (m.group(1), m.group(2)), cols, ("values", [[("param", i) for i in range(len(cols))]]), None), sql)]

            def run(j):
                self.session.in_txn = True
                for r in rows:
                    if len(r) != len(cols):
                        raise DbError("data", "Extra column(s) found" if len(r) > len(cols) else "Delimiter not found")
                n = self.session.execute_many(trees[0][0], rows, True)
                if self._auto:
                    self.session.commit()
                return Result(n)
        else:
            trees = self.parse(sql)
            if len(trees) > 1:
                trees = [(("error", "cannot insert multiple commands into a prepared statement"), sql)]
            vals = tuple(args) if args is not None else None

            def run(j):
                tree, t = trees[j]
                self.session.in_txn = True
                r = self.session.execute(tree, vals)
                if r.columns is not None:
                    return self.select_result(r, t)
                if self._auto:
                    self.session.commit()
                return r

        out, failed, error = yield from self.g_roundtrip(sql, len(trees), writes(self.session, trees), run, self.session.rollback)
        if error is not None:
            self._raise(self.err(error))
        return out[0] if out else Result(0)

    def commit(self):
        self.session.commit()

    def rollback(self):
        self.session.rollback()

    def close(self):
        if self.closed:
            self._raise(redshift_connector.InterfaceError("connection is closed"))
        self.drive_sync(self.g_close())


def redshift_connect(*, host=None, port=None, database=None, db_user=None, user=None, iam=False, password=None, **kw):
    w = world()
    srv = w.servers[("redshift", host)] if ("redshift", host) in w.servers else w.server("redshift", host, database or "db")
    conn = RsConn(srv, w.client(db_user or user))
    conn.dest = {"user": db_user or user, "port": port or 5439, "password": password, "database": database}

    def g():
        # encryption cannot be disabled with IAM authentication; the authority is always verified
        tls = {"verify": 2, "hostname": kw.get("sslmode") == "verify-full", "kind": "iam"}
        att = yield from conn.g_connect(tls)
        e = None if srv.tls is True else ConnectionError("server does not support TLS")
        e = e or conn.handshake(tls)
        if e is not None:
            x = redshift_connector.InterfaceError("communication error")
            x.__cause__ = e
            conn._raise(x)
        conn.accept(att)
        conn.tls = tls
        yield (SLEEP, w.latency())
        return conn

    return conn.drive_sync(g())


# ---------------------------------------------------------------------------------------------- Trino

import aiotrino  # noqa: E402
import aiotrino.exceptions  # noqa: E402


class TrinoCursor:
    def __init__(self, conn: "TrinoConn"):
        self.conn = conn
        self._res: typing.Optional[Result] = None

    async def execute(self, operation, params=None):
        self._res = await self.conn.drive_async(self.conn.g_one(operation))
        return self

    async def fetchall(self):
        rows = self._res.rows if self._res and self._res.rows is not None else []
        for _ in range(100, len(rows), 100):
            await self.conn.drive_async(self.conn.g_fetch())
        return [list(r) for r in rows]

    async def fetchone(self):
        return list(self._res.rows.pop(0)) if self._res and self._res.rows else None

    async def close(self):
        pass


class TrinoConn(Conn):
    def err(self, e):
        return aiotrino.exceptions.TrinoUserError({"errorType": "USER_ERROR", "errorName": e.kind, "message": e.message})

    def conn_err(self, msg):
        return aiotrino.exceptions.TrinoConnectionError(msg) if hasattr(aiotrino.exceptions, "TrinoConnectionError") else ConnectionError(msg)

    def iface_err(self, msg):
        return ConnectionError(msg)

    async def cursor(self):
        return TrinoCursor(self)

    def g_one(self, sql):
        if self.session is None:
            if self.dest.get("port") is None:
                self._raise(ValueError("invalid URL: https://host:None/v1/statement"))
            att = yield from self.g_connect({"verify": 2, "hostname": True, "kind": "https"})
            self.busy = None
            self.accept(att)
        trees = self.parse(sql)
        if len(trees) != 1 or sql.rstrip().endswith(";"):
            trees = [(("error", "mismatched input ';'"), sql)]

        def run(j):
            tree, t = trees[j]
            r = self.session.execute(tree)
            return self.select_result(r, t) if r.columns is not None else r

        out, failed, error = yield from self.g_roundtrip(sql, len(trees), writes(self.session, trees), run, self.session.rollback)
        if error is not None:
            self._raise(self.err(error))
        return out[0]

    async def close(self):
        await self.drive_async(self.g_close())


def trino_connect(host=None, port=None, user=None, **kw):
    w = world()
    srv = w.servers[("trino", host)] if ("trino", host) in w.servers else w.server("trino", host, kw.get("catalog") or "db")
    conn = TrinoConn(srv, w.client(user))
    auth = kw.get("auth")
    conn.dest = {"user": user, "port": port, "password": getattr(auth, "_password", None), "database": kw.get("catalog")}
    return conn


def install() -> None:
    "Replaces the entry points of the drivers; must run before pysqlsync imports them."
    asyncpg.connect = asyncpg_connect  # type: ignore
    aiomysql.connect = aiomysql_connect  # type: ignore
    pyodbc.connect = pyodbc_connect  # type: ignore
    oracledb.connect = oracledb_connect  # type: ignore
    redshift_connector.connect = redshift_connect  # type: ignore
    aiotrino.dbapi.connect = trino_connect  # type: ignore


del decimal
