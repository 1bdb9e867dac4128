"""
C10: connections follow the TLS policy and are always released.

Workload: one to three clients at once, each with its own server, dialect and SSL mode, open one or more connection blocks in a row on the
same connection object. Servers accept plain text, TLS, both or nothing, may offer a certificate that is valid, self-signed or issued
for another host, fail the handshake or not let the account use TLS, and may know a different password; accounts, passwords and database names
may have any characters, and come as parameters or as a connection string; at an arbitrary point of opening
(including the queries that follow it), using and closing, the connection is refused, lost, stalled or the task is cancelled; the body of the
block ends normally, by an exception, or by cancellation.
Oracle: the sequence of connection attempts the server saw and the transport of the connection handed to the caller are those the mode
prescribes, made with the parameters given; no password appears in the log or in an error; the error leaving the block is the one that left its body; every connection is closed exactly once and nothing is left open.
"""

import asyncio
import random
import typing
from urllib.parse import quote

from .. import common
from ..env import ConnectionSSLMode, Ctx, Violation, get_dialect, get_parameters, root_cause

QUICK = 4000
THOROUGH = 100000
RULE = "a connection block was entered, or its opening failed, and the outcome was judged"
REAL = common.REAL + ["ssl/truststore contexts made by create_context (their verification settings)"]
STUB = common.STUB + ["TLS handshake (decided from the settings of the context and the kind of certificate)"]
ASSUMPTIONS = common.ASSUMPTIONS + [
    "with no SSL mode the driver's own default applies",
    "Redshift (IAM) and Trino always use TLS; ODBC verifies issuer and host name together",
    "MySQL reports a refused account and a refused connection alike, hence both lead to the second attempt of an optional mode",
]

DIALECTS = ["postgresql", "postgresql", "mysql", "mysql", "mssql", "oracle", "redshift", "trino"]
MODES = [None, "disable", "prefer", "allow", "require", "verify-ca", "verify-full"]
KINDS = ["error", "lost_before", "lost_after", "stall", "cancel", "cancel"]


# "Zq9" must not show up anywhere but in what is sent to the server
SECRETS = ["Zq9", "Zq9;Encrypt=no", "Zq9;TrustServerCertificate=yes", "Zq9;UID=c9", "a}Zq9", "{Zq9}", "{Zq9", "Zq9}}", " Zq9 ", "Zq9='\"x\"", "Zq9%40@/?#:", "Zq9é"]
USERS = ["", "@corp.example", "; x", "}{", " o'x", "%41", "/é"]
DATABASES = ["db", "my db", "a;b", "x%20y", "c}d", "{e", "é/f", "?q=1"]
PORTS = {"postgresql": 5432, "mysql": 3306, "mssql": 1433, "oracle": 1521, "redshift": 5439, "trino": 443}


class Boom(Exception):
    pass


class BigBoom(BaseException):
    pass


def generate(rng: random.Random, tier: str) -> dict:
    clients = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        d = rng.choice(DIALECTS)
        blocks = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            srv = {
                "tls": rng.choice([True, True, True, False, False, "broken", "denied"]),
                "plain": rng.random() < 0.65,
                "cert": rng.choice(["ok", "ok", "ok", "untrusted", "wrong-host"]),
                "refuse": rng.random() < 0.08,
                "wrong": rng.random() < 0.12,
            }
            faults = []
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                faults.append({"at": rng.choice(["connect", "connect", "post", "body", "close", "close"]), "i": rng.choice([0, 0, 0, 1, 2]), "kind": rng.choice(KINDS), "d": rng.choice([1, 30, 400]), "late": rng.random() < 0.3, "sub": 0, "err": "injected"})
            blocks.append({"srv": srv, "faults": faults, "ops": [rng.choice(["exec", "query", "query", "sleep"]) for _ in range(rng.randrange(4))], "end": rng.choice(["", "", "raise", "bigraise", "cancel"])})
        mode = rng.choice(MODES)
        if clients and rng.random() < 0.3:
            mode = rng.choice(["verify-ca", "verify-full"])
        clients.append({"_dialect": d, "mode": mode, "blocks": blocks, "secret": rng.choice([0, rng.randrange(len(SECRETS))]),
                        "user": rng.choice([0, 0, rng.randrange(len(USERS))]), "database": rng.choice([0, 0, rng.randrange(len(DATABASES))]), "port": rng.choice([0, 0, 1433, 6543]), "url": rng.random() < 0.4})
    return {"clients": clients, "lat": rng.randrange(4), "log": rng.random() < 0.4}


def chain(e: typing.Optional[BaseException]) -> list[BaseException]:
    out: list[BaseException] = []
    while e is not None and e not in out:
        out.append(e)
        e = e.__cause__ or e.__context__
    return out


async def block(ctx: Ctx, conn, c, spec: dict, srv, client, who: str, params: dict) -> None:
    w = ctx.world
    d, mode = c["_dialect"], c["mode"]
    s = spec["srv"]
    srv.tls, srv.plain, srv.cert, srv.refuse = s["tls"], bool(s["plain"]), s["cert"] or "ok", bool(s["refuse"])
    srv.password = "other" if s["wrong"] else SECRETS[c["secret"] % len(SECRETS)]
    first = len(w.attempts)
    st = {"phase": "post", "entered": False, "body": None, "native": None, "cancels": [], "want": params}
    pending = [dict(f) for f in spec["faults"] if f["kind"]]
    seen: dict[str, int] = {}

    def hook(cn, n, label):
        cls = label if label in ("connect", "close") else st["phase"]
        if cls == "close":
            st["phase"] = "exit"
        k = seen.get(cls, 0)
        seen[cls] = k + 1
        for f in pending:
            if f["at"] == cls and f["i"] == k:
                pending.remove(f)
                f["cls"] = cls
                client.faults[n] = f
                break

    hooks[client.name] = hook

    async def body() -> None:
        async with conn as cx:
            st["entered"] = True
            st["phase"] = "body"
            st["native"] = getattr(cx, "native_connection", None)
            try:
                for k, op in enumerate(spec["ops"]):
                    if op == "sleep":
                        await asyncio.sleep(0.01)
                    elif op == "exec" and d != "trino":
                        await cx.execute({"oracle": "CREATE TABLE \"t%d\" (\"a\" number)"}.get(d, "CREATE TABLE t%d (a int)") % (srv_tables(srv)))
                    else:
                        await cx.query_all(int, "SELECT 1 FROM dual" if d == "oracle" else "SELECT 1" + ("" if d == "trino" else ";"))
                if spec["end"] == "raise":
                    raise Boom(who)
                elif spec["end"] == "bigraise":
                    raise BigBoom(who)
                elif spec["end"] == "cancel":
                    st["cancels"].append("body")
                    asyncio.current_task().cancel()
                    await asyncio.sleep(1)
            except GeneratorExit:
                raise
            except BaseException as e:
                st["body"] = e
                raise
            finally:
                st["phase"] = "exit"

    out: typing.Optional[BaseException] = None

    async def outer() -> None:
        nonlocal out
        try:
            await body()
        except GeneratorExit:
            raise
        except BaseException as e:
            out = e

    task = asyncio.get_running_loop().create_task(outer())

    def on_cancel() -> None:
        st["cancels"].append(st["phase"])
        ctx.sim.event(f"{who}: task cancelled")
        if ctx.sim.on_loop_thread():
            loop.call_soon(task.cancel)
        else:
            loop.call_soon_threadsafe(task.cancel)

    loop = asyncio.get_running_loop()
    client.on_cancel = on_cancel
    try:
        await task
    except asyncio.CancelledError:
        # cancelled after the block had ended
        if not task.cancelled():
            raise
    client.disarm()
    client.faults = {}
    del hooks[client.name]

    atts = w.attempts[first:]
    atts = [a for a in atts if a["client"] == client.name]
    fired = [f for _, f in client.fired]
    client.fired = []
    if st["entered"] or out is not None:
        ctx.nontrivial = True
    ctx.counts["entered" if st["entered"] else "not-entered"] += 1
    for x in chain(out):
        if "Zq9" in str(x):
            raise Violation("password-shown", f"{who}: the password appears in the error: {x}")
    want = dict(st["want"], password=st["want"]["password"] if c["_dialect"] != "redshift" else None)
    for a in atts:
        got = {k: a[k] for k in want}
        if got != want:
            raise Violation("wrong-parameters", f"{who}: asked for {want} but the connection was attempted with {got}")
    judge_release(ctx, c, st, out, atts, fired, who)
    judge_policy(ctx, c, s, st, out, atts, fired, who)


def srv_tables(srv) -> int:
    return len(srv.db.state.tables) + 1


hooks: dict[str, typing.Callable] = {}


def show(atts: list[dict]) -> str:
    return ", ".join(("TLS" if a["tls"] else "plain") + ("(wanted TLS)" if a.get("wanted_tls") else "") + ("+" if a["ok"] else "-") for a in atts) or "none"


def judge_release(ctx: Ctx, c, st, out, atts, fired, who) -> None:
    w = ctx.world
    ctx.check_hygiene()
    for a in atts:
        cn = a["conn"]
        if cn.is_open:
            raise Violation("connection-left-open", f"{who}: a connection ({'TLS' if a['tls'] else 'plain'}) is still open after the block {'was left' if st['entered'] else 'failed to open'} ({root_cause(out) if out else 'normally'})")
        if cn.close_calls > 1:
            raise Violation("closed-twice", f"{who}: a connection was closed {cn.close_calls} times")
    if st["entered"]:
        cn = st["native"]
        if cn.close_calls != 1:
            raise Violation("not-closed-once", f"{who}: the connection was closed {cn.close_calls} times")
        if st["body"] is not None:
            if out is None:
                raise Violation("error-hidden", f"{who}: {type(st['body']).__name__} left the body but the block ended normally")
            if out is not st["body"] and not (isinstance(out, asyncio.CancelledError) and "exit" in st["cancels"]):
                raise Violation("error-hidden", f"{who}: {type(st['body']).__name__} left the body but the block raised {root_cause(out)}")
        elif "exit" in st["cancels"] and out is None and c["_dialect"] in ("postgresql", "trino"):
            raise Violation("cancellation-swallowed", f"{who}: cancelled while closing but the block ended normally")
        elif out is not None and not isinstance(out, asyncio.CancelledError) and not any(x in w.driver_errors for x in chain(out)):
            raise Violation("unexpected-error", f"{who}: leaving the block raised {root_cause(out)}")
    else:
        if out is None:
            raise Violation("error-hidden", f"{who}: the block was not entered but no error was raised")
        if "post" in st["cancels"] and not isinstance(out, asyncio.CancelledError):
            raise Violation("cancellation-swallowed", f"{who}: cancelled while opening but the block raised {root_cause(out)}")
        if not isinstance(out, asyncio.CancelledError) and not any(x in w.driver_errors for x in chain(out)):
            # the code may turn a connection down by itself only in mandatory modes
            if not (c["mode"] in ("require", "verify-ca", "verify-full") and any(a["tls"] is None for a in atts)):
                raise Violation("unexpected-error", f"{who}: opening raised {root_cause(out)}")


def judge_policy(ctx: Ctx, c, s, st, out, atts, fired, who) -> None:
    d, mode = c["_dialect"], c["mode"]
    if "post" in st["cancels"]:
        if any(a is not atts[-1] and a["ok"] for a in atts):
            raise Violation("superfluous-attempt", f"{who}: another attempt after success: {show(atts)}")
        return
    native = st["native"]
    mandatory = mode in ("require", "verify-ca", "verify-full")
    if d == "oracle":
        if mandatory and st["entered"] and native.tls is None:
            if "oracle-ssl-ignored" in ctx.findings:
                ctx.known.append("oracle-ssl-ignored")
                return
            raise Violation("tls-missing", f"{who}: SSL mode {mode} but the connection is not encrypted")
        return
    if d == "trino":
        # connects with the first query, always with verified TLS
        return
    post = [f for f in fired if f.get("cls") == "post" and f["kind"] in ("error", "lost_before", "lost_after")]
    cut = {f["i"] for f in fired if f.get("cls") == "connect" and f["kind"] in ("error", "lost_before", "lost_after")}

    def good_cert() -> bool:
        cert = s["cert"] or "ok"
        return not mode or not mode.startswith("verify") or cert == "ok" or (mode == "verify-ca" and cert == "wrong-host")

    wrong = bool(s["wrong"]) and d != "redshift"
    ok_tls = s["tls"] is True and good_cert() and not s["refuse"] and not wrong
    ok_plain = bool(s["plain"]) and not s["refuse"] and not wrong
    if st["entered"]:
        tls = native.tls
        if mode == "disable" and tls is not None and d != "redshift":
            raise Violation("tls-used", f"{who}: SSL is disabled but the connection uses TLS")
        if mandatory and tls is None:
            raise Violation("tls-missing", f"{who}: SSL mode {mode} but the connection is not encrypted; attempts: {show(atts)}")
        if mandatory and not good_cert():
            if not (d in ("mssql",) and mode == "verify-ca"):
                raise Violation("certificate-accepted", f"{who}: SSL mode {mode} but a connection was made to a server with a certificate that is {s['cert']}")
        if mode in ("verify-ca", "verify-full") and not tls["verify"] or mode == "verify-full" and not tls["hostname"]:
            raise Violation("certificate-not-verified", f"{who}: SSL mode {mode} but verification is {tls}")
    if mode == "disable" and d != "redshift" and any(a["tls"] or a.get("wanted_tls") for a in atts):
        raise Violation("tls-used", f"{who}: SSL is disabled but TLS was attempted: {show(atts)}")
    if mandatory and d in ("postgresql", "redshift", "mssql") and any(a["tls"] is None for a in atts):
        raise Violation("plain-attempt", f"{who}: SSL mode {mode} but plain text was attempted: {show(atts)}")
    if d in ("redshift", "mssql"):
        if len(atts) != 1:
            raise Violation("superfluous-attempt", f"{who}: {len(atts)} attempts in mode {mode}")
        if not cut and not post and not st["entered"] and s["tls"] is True and s["plain"] and s["cert"] == "ok" and not s["refuse"] and not wrong:
            raise Violation("not-connected", f"{who}: mode {mode}: the server accepts the connection but opening failed: {root_cause(out)}")
        return
    if mode is None:
        if not cut and ok_plain and (s["tls"] is False or ok_tls) and not st["entered"]:
            raise Violation("not-connected", f"{who}: no SSL mode: the server accepts the connection but opening failed: {root_cause(out)}")
        return
    # what the mode prescribes: the transports in order, each tried only if the previous one failed to connect
    order = {"disable": ["plain"], "prefer": ["tls", "plain"], "allow": ["plain", "tls"]}.get(mode, ["tls"])
    expected = None
    want = []
    for k, t in enumerate(order):
        want.append(t)
        if t == "tls" and d == "mysql" and s["tls"] is False:
            # the driver itself continues in plain text
            success = ok_plain and not mandatory and k not in cut
            t = "plain"
        else:
            success = (ok_tls if t == "tls" else ok_plain) and k not in cut
        if success:
            expected = t
            break
        if d == "postgresql" and wrong and k not in cut and not s["refuse"] and (s["tls"] is True if t == "tls" else bool(s["plain"])):
            break  # the server knows the account and rejected the password
    got = ["tls" if a["tls"] or a.get("wanted_tls") else "plain" for a in atts]
    if got != want:
        raise Violation("attempts", f"{who}: mode {mode}, server {s}: expected attempts {want}, server saw {got}; outcome {root_cause(out) if out else 'entered'}")
    if (expected is not None) != st["entered"]:
        raise Violation("not-connected" if expected else "connected", f"{who}: mode {mode}, server {s}: {'should have' if expected else 'should not have'} connected; attempts {show(atts)}; outcome {root_cause(out) if out else 'entered'}")
    if expected is not None and (native.tls is not None) != (expected == "tls"):
        raise Violation("transport", f"{who}: mode {mode}, server {s}: expected {expected}; attempts {show(atts)}")


def execute(ctx: Ctx, plan: dict) -> None:
    w = ctx.world
    w.latencies = common.LAT[plan["lat"] % len(common.LAT)] if hasattr(common, "LAT") else w.latencies
    hooks.clear()
    w.on_roundtrip = lambda cn, n, label: hooks[cn.client.name](cn, n, label) if cn.client.name in hooks else None

    async def one(i: int, c: dict) -> None:
        d = c["_dialect"]
        srv = ctx.server(d, host=f"h{i}")
        mode = ConnectionSSLMode(c["mode"]) if c["mode"] else None
        params = {"user": f"c{i}" + USERS[c["user"] % len(USERS)], "password": SECRETS[c["secret"] % len(SECRETS)], "port": c["port"] or None, "database": DATABASES[c["database"] % len(DATABASES) if d != "oracle" else 0]}
        if c["url"]:
            port = f":{params['port']}" if params["port"] else ""
            url = f"{d}://{quote(params['user'], safe='')}:{quote(params['password'], safe='')}@h{i}{port}/{quote(params['database'], safe='')}" + (f"?ssl={c['mode']}" if c["mode"] else "")
            name, p = get_parameters(url)
            conn = get_dialect(name).create_connection(p, None)
        else:
            conn = ctx.connection(d, host=f"h{i}", ssl=mode, **params)
        params["port"] = params["port"] or PORTS[d]
        client = w.client(params["user"])
        for k, b in enumerate(c["blocks"]):
            await block(ctx, conn, c, b, srv, client, f"client {i} ({d}, {c['mode']}) block {k}", params)

    async def main() -> None:
        tasks = [asyncio.get_running_loop().create_task(one(i, c)) for i, c in enumerate(plan["clients"])]
        for t in tasks:
            await t

    log = ctx.debug() if plan["log"] else []
    ctx.sim.run(main())
    for line in log:
        if "Zq9" in line:
            raise Violation("password-logged", f"a password appears in the log: {line[:300]}")
    ctx.counts["log lines"] += len(log)
