"""
Bootstrap: installs the simulator's seams and imports the code under test from /repo. Import this module first.
"""

import logging
import os
import sys
import types
import typing

REPO = os.environ.get("DST_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from . import sim as _sim  # noqa: E402

_sim.install_executor()

from . import drivers as _drivers  # noqa: E402

_drivers.install()

import zlib  # noqa: E402

import strong_typing.topological as _topological  # noqa: E402

order_salt = 0  # set for each run


def _topological_sort(graph: dict) -> list:
    """
    Stands in for the function of the library strong_typing, which visits the members of sets of classes in the order of their addresses
    in memory: here, the seed decides.
    """

    def key(n: typing.Any) -> tuple:
        name = f"{n.__module__}.{n.__qualname__}" if isinstance(n, type) else str(n)
        return zlib.crc32(f"{order_salt} {name}".encode()), name

    ordered: list = []
    done: dict = {}

    def visit(n: typing.Any) -> None:
        if n in done:
            if not done[n]:
                raise RuntimeError(f"cycle detected in graph for node {n}")
            return
        done[n] = False
        for m in sorted(graph[n], key=key):
            if m != n:
                visit(m)
        done[n] = True
        ordered.append(n)

    for n in graph.keys():
        visit(n)
    return ordered


_topological.topological_sort = _topological_sort

import pysqlsync  # noqa: E402

if not os.path.realpath(pysqlsync.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit(f"pysqlsync is imported from {pysqlsync.__file__}, not from {REPO}")

import pysqlsync.base as base  # noqa: E402
from pysqlsync.base import BATCH_SIZE, ClassRef, GeneratorOptions, QueryException  # noqa: E402,F401
from pysqlsync.connection import ConnectionParameters, ConnectionSSLMode  # noqa: E402,F401
from pysqlsync.factory import get_dialect, get_parameters  # noqa: E402,F401
from pysqlsync.formation.mutation import MutatorOptions  # noqa: E402,F401
from pysqlsync.formation.py_to_sql import ArrayMode, EnumMode, StructMode  # noqa: E402,F401

from .sim import ClientCrash, Sim, SimHang, SimHarnessError  # noqa: E402,F401

logging.getLogger().addHandler(logging.NullHandler())
for _name in ("asyncio", "concurrent.futures"):
    logging.getLogger(_name).setLevel(logging.CRITICAL + 1)
_LOGGER = logging.getLogger("pysqlsync")
_LOGGER.setLevel(logging.CRITICAL + 1)
_LOGGER.propagate = False


class _Log(logging.Handler):
    "Formats log messages, as a handler that writes them to a file would."

    def __init__(self) -> None:
        super().__init__(logging.DEBUG)
        self.lines: list[str] = []

    def emit(self, record: logging.LogRecord) -> None:
        try:
            self.lines.append(logging.Formatter().format(record))
        except Exception:  # the logging package does not pass these on
            pass


DIALECTS = ("postgresql", "mysql", "mssql", "oracle")
BLOCKING = ("mssql", "oracle", "redshift")


class Violation(Exception):
    "The property under test does not hold in this run."

    def __init__(self, kind: str, message: str):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


class Invalid(Exception):
    "The plan is not a valid scenario (only arises while minimising)."


def blame(e: BaseException, world) -> str:
    """
    Attributes an unexpected exception to the code under test ("code") or to this framework ("harness"). Errors produced
    deliberately by a simulated driver belong to the code under test, which provoked or mishandled them.
    """

    x: typing.Optional[BaseException] = e
    inner = e
    seen = 0
    while x is not None and seen < 8:
        if any(x is d for d in world.driver_errors):
            return "code"
        inner = x
        x = x.__cause__ or (None if x.__suppress_context__ else x.__context__)
        seen += 1
    if isinstance(e, (SimHarnessError, Invalid)):
        return "harness"
    files = []
    for y in (e, inner):
        tb = y.__traceback__
        while tb is not None:
            files.append(tb.tb_frame.f_code.co_filename)
            tb = tb.tb_next
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    repo = os.path.realpath(REPO) + os.sep
    if not any(os.path.realpath(f).startswith(repo) for f in files):
        return "harness"
    return "harness" if files and files[-1].startswith(here) and "checks" not in files[-1] else "code"


def root_cause(e: BaseException) -> str:
    parts = []
    x: typing.Optional[BaseException] = e
    while x is not None and len(parts) < 4:
        parts.append(f"{type(x).__name__}: {str(x)[:300]}")
        x = x.__cause__ or x.__context__
    return " <- ".join(parts)


class Ctx:
    "One simulated run."

    def __init__(self, seed: typing.Optional[int], decisions: typing.Optional[list[int]] = None, max_steps: int = 300_000):
        self.sim = Sim(seed, decisions=decisions, max_steps=max_steps)
        self.world = _drivers.World(self.sim)
        self.nontrivial = False
        self.counts: typing.Counter[str] = __import__("collections").Counter()
        self.modules: list[str] = []
        self._saved_batch = base.BATCH_SIZE
        self.log: typing.Optional[_Log] = None

    def debug(self) -> list[str]:
        "Turns on logging of everything; returns the list that collects the messages."
        if self.log is None:
            self.log = _Log()
            _LOGGER.addHandler(self.log)
            _LOGGER.setLevel(logging.DEBUG)
        return self.log.lines

    # -- code under test
    def module(self, name: str, source: str) -> types.ModuleType:
        "Defines a module; defining it again is like reloading it (the module object stays the same)."
        m = sys.modules.get(name) if name in self.modules else None
        if m is None:
            m = types.ModuleType(name)
            sys.modules[name] = m
            self.modules.append(name)
        else:
            for k in [k for k in m.__dict__ if not k.startswith("__")]:
                del m.__dict__[k]
        exec(compile(source, f"<{name}>", "exec"), m.__dict__)
        return m

    def batch_size(self, n: int) -> None:
        base.BATCH_SIZE = n

    def connection(self, dialect: str, options=None, *, user="c1", host="h", database="db", password="pw", port=None, ssl=None):
        params = ConnectionParameters(host=host, port=port, username=user, password=password, database=database, ssl=ssl)
        return get_dialect(dialect).create_connection(params, options)

    def explorer(self, dialect: str, context):
        return get_dialect(dialect).create_explorer(context)

    def server(self, dialect: str, host: str = "h", database: str = "db"):
        return self.world.server(dialect, host, database)

    def check_hygiene(self) -> None:
        if self.world.problems:
            raise Violation("driver-protocol", self.world.problems[0])

    def close(self) -> None:
        base.BATCH_SIZE = self._saved_batch
        if self.log is not None:
            _LOGGER.removeHandler(self.log)
            _LOGGER.setLevel(logging.CRITICAL + 1)
        for name in self.modules:
            sys.modules.pop(name, None)
        self.sim.close()
