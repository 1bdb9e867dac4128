"""
Tokenizer and parser for the SQL that pysqlsync emits (all dialects), producing small tuple/dict syntax trees.
"""

import functools
import re
import typing


class Stamp(str):
    "Text of a date or timestamp literal (the format of which does not depend on the session)."


class SqlSyntax(Exception):
    "Not valid SQL for the simulated server (a real server would reject it)."


class Tok(typing.NamedTuple):
    kind: str  # id (quoted), word, str, num, op, param
    val: typing.Any
    start: int
    end: int


_PUNCT = ("::", "<>", "!=", "<=", ">=", "||")


def _backslash(body: str) -> str:
    table = {"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f", "0": "\0"}
    return re.sub(r"\\(.)", lambda m: table.get(m.group(1), m.group(1)), body, flags=re.S)


def tokenize(sql: str, dialect: str) -> list[Tok]:
    toks: list[Tok] = []
    i, n = 0, len(sql)
    while i < n:
        c = sql[i]
        if c.isspace():
            i += 1
            continue
        if c == "-" and sql.startswith("--", i):
            j = sql.find("\n", i)
            i = n if j < 0 else j
            continue
        if c == '"' or (c == "`" and dialect == "mysql"):
            j = i + 1
            buf = []
            while True:
                if j >= n:
                    raise SqlSyntax(f"unterminated quoted identifier at {i}")
                if sql[j] == c:
                    if j + 1 < n and sql[j + 1] == c:
                        buf.append(c)
                        j += 2
                        continue
                    break
                buf.append(sql[j])
                j += 1
            toks.append(Tok("id", "".join(buf), i, j + 1))
            i = j + 1
            continue
        esc = False
        k = i
        if c in "eE" and i + 1 < n and sql[i + 1] == "'" and dialect in ("postgresql", "redshift"):
            esc = True
            k = i + 1
        elif c in "nN" and i + 1 < n and sql[i + 1] == "'":
            k = i + 1
        if sql[k] == "'":
            if dialect == "mysql":
                esc = True
            j = k + 1
            buf = []
            while True:
                if j >= n:
                    raise SqlSyntax(f"unterminated string at {i}")
                if esc and sql[j] == "\\" and j + 1 < n:
                    buf.append(sql[j : j + 2])
                    j += 2
                    continue
                if sql[j] == "'":
                    if j + 1 < n and sql[j + 1] == "'":
                        buf.append("'")
                        j += 2
                        continue
                    break
                buf.append(sql[j])
                j += 1
            body = "".join(buf)
            toks.append(Tok("str", _backslash(body) if esc else body, i, j + 1))
            i = j + 1
            continue
        m = re.compile(r"\d+(\.\d+)?([eE][+-]?\d+)?|\.\d+").match(sql, i)
        if m:
            s = m.group()
            toks.append(Tok("num", s, i, m.end()))
            i = m.end()
            continue
        if c == "$" and i + 1 < n and sql[i + 1].isdigit():
            m = re.compile(r"\$(\d+)").match(sql, i)
            toks.append(Tok("param", int(m.group(1)) - 1, i, m.end()))
            i = m.end()
            continue
        if c == ":" and i + 1 < n and sql[i + 1].isdigit():
            m = re.compile(r":(\d+)").match(sql, i)
            toks.append(Tok("param", int(m.group(1)) - 1, i, m.end()))
            i = m.end()
            continue
        if c == "?":
            toks.append(Tok("param", sum(1 for t in toks if t.kind == "param"), i, i + 1))
            i += 1
            continue
        if c == "%" and sql.startswith("%s", i) and dialect == "mysql":
            toks.append(Tok("param", sum(1 for t in toks if t.kind == "param"), i, i + 2))
            i += 2
            continue
        if c.isalpha() or c == "_" or c == "@":
            m = re.compile(r"[A-Za-z_@][A-Za-z0-9_$@#]*").match(sql, i)
            if not m:
                raise SqlSyntax(f"unexpected character {c!r}")
            toks.append(Tok("word", m.group(), i, m.end()))
            i = m.end()
            continue
        for p in _PUNCT:
            if sql.startswith(p, i):
                toks.append(Tok("op", p, i, i + len(p)))
                i += len(p)
                break
        else:
            if c in "(),.;=<>*+-/[]%":
                toks.append(Tok("op", c, i, i + 1))
                i += 1
            else:
                raise SqlSyntax(f"unexpected character {c!r} at {i}")
    return toks


class Parser:
    def __init__(self, sql: str, toks: list[Tok], dialect: str):
        self.sql = sql
        self.t = toks
        self.i = 0
        self.d = dialect

    # -- primitives
    def peek(self, k: int = 0) -> typing.Optional[Tok]:
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def fail(self, what: str = "") -> typing.NoReturn:
        t = self.peek()
        near = self.sql[t.start : t.start + 40] if t else "<end>"
        raise SqlSyntax(f"syntax error near {near!r} {what}")

    def isw(self, *words: str, k: int = 0) -> bool:
        for n, w in enumerate(words):
            t = self.peek(k + n)
            if t is None or t.kind != "word" or t.val.upper() != w:
                return False
        return True

    def isop(self, op: str, k: int = 0) -> bool:
        t = self.peek(k)
        return t is not None and t.kind == "op" and t.val == op

    def acc(self, *words: str) -> bool:
        if self.isw(*words):
            self.i += len(words)
            return True
        return False

    def accop(self, op: str) -> bool:
        if self.isop(op):
            self.i += 1
            return True
        return False

    def need(self, *words: str) -> None:
        if not self.acc(*words):
            self.fail(f"expected {' '.join(words)}")

    def needop(self, op: str) -> None:
        if not self.accop(op):
            self.fail(f"expected {op}")

    def ident(self) -> str:
        t = self.peek()
        if t is None:
            self.fail("expected identifier")
        if t.kind == "id":
            self.i += 1
            return t.val
        if t.kind == "word":
            self.i += 1
            return t.val
        self.fail("expected identifier")

    def qname(self) -> tuple:
        a = self.ident()
        if self.accop("."):
            return (a, self.ident())
        return (None, a)

    def idlist(self) -> list[str]:
        self.needop("(")
        out = [self.ident()]
        while self.accop(","):
            out.append(self.ident())
        self.needop(")")
        return out

    def string(self) -> str:
        t = self.peek()
        if t is None or t.kind != "str":
            self.fail("expected string")
        self.i += 1
        return t.val

    def end(self) -> None:
        if self.i != len(self.t):
            self.fail("expected end of statement")

    # -- types
    def type(self) -> tuple:
        t = self.peek()
        if t is None:
            self.fail("expected type")
        if t.kind == "id":
            q = self.qname()
            ty: tuple = ("udt", q)
        elif t.kind == "word":
            self.i += 1
            name = t.val.lower()
            if name == "double" and self.acc("PRECISION"):
                name = "double precision"
            elif name == "character" and self.acc("VARYING"):
                name = "varchar"
            elif name == "interval" and self.acc("DAY", "TO", "SECOND"):
                name = "interval day to second"
            args: list = []
            if name == "enum":
                self.needop("(")
                args.append(self.string())
                while self.accop(","):
                    args.append(self.string())
                self.needop(")")
                ty = ("enum", tuple(args))
            else:
                if self.accop("("):
                    while True:
                        x = self.peek()
                        if x is None:
                            self.fail()
                        self.i += 1
                        if x.kind == "num":
                            args.append(int(x.val))
                        elif x.kind == "word":
                            args.append(x.val.lower())
                        else:
                            self.fail("type argument")
                        if not self.accop(","):
                            break
                    self.needop(")")
                if name in ("timestamp", "time"):
                    if self.acc("WITH", "TIME", "ZONE"):
                        name += " with time zone"
                    else:
                        self.acc("WITHOUT", "TIME", "ZONE")
                ty = (name, *args)
        else:
            self.fail("expected type")
        while True:
            if self.acc("ARRAY"):
                ty = ("array", ty)
            elif self.isop("[") and self.isop("]", 1):
                self.i += 2
                ty = ("array", ty)
            else:
                return ty

    # -- expressions
    def expr(self):
        e = self.and_()
        while self.acc("OR"):
            e = ("or", e, self.and_())
        return e

    def and_(self):
        e = self.not_()
        while self.acc("AND"):
            e = ("and", e, self.not_())
        return e

    def not_(self):
        if self.acc("NOT"):
            return ("not", self.not_())
        return self.cmp()

    def cmp(self):
        e = self.prim()
        t = self.peek()
        if t is not None and t.kind == "op" and t.val in ("=", "<>", "!=", "<", ">", "<=", ">="):
            self.i += 1
            return ("cmp", t.val, e, self.prim())
        if self.acc("IS"):
            neg = self.acc("NOT")
            self.need("NULL")
            return ("isnull", e, neg)
        neg = False
        if self.isw("NOT", "IN"):
            self.i += 1
            neg = True
        if self.acc("IN"):
            self.needop("(")
            items = [self.prim()]
            while self.accop(","):
                items.append(self.prim())
            self.needop(")")
            return ("in", e, tuple(items), neg)
        return e

    def prim(self):
        e = self.atom()
        while self.accop("::"):
            e = ("cast", e, self.type())
        return e

    def atom(self):
        t = self.peek()
        if t is None:
            self.fail("expected expression")
        if t.kind == "str":
            self.i += 1
            return ("lit", t.val)
        if t.kind == "num":
            self.i += 1
            return ("num", t.val)
        if t.kind == "param":
            self.i += 1
            return ("param", t.val)
        if t.kind == "op" and t.val in "+-":
            self.i += 1
            x = self.peek()
            if x is None or x.kind != "num":
                self.fail("expected number")
            self.i += 1
            return ("num", ("-" if t.val == "-" else "") + x.val)
        if t.kind == "op" and t.val == "(":
            self.i += 1
            e = self.expr()
            if self.isop(","):
                items = [e]
                while self.accop(","):
                    items.append(self.expr())
                self.needop(")")
                return ("tuple", tuple(items))
            self.needop(")")
            return e
        if t.kind == "word":
            u = t.val.upper()
            if u in ("NULL",):
                self.i += 1
                return ("null",)
            if u in ("TRUE", "FALSE") and self.d != "mssql":
                self.i += 1
                return ("bool", u == "TRUE")
            if u in ("TIMESTAMP", "DATE") and self.peek(1) is not None and self.peek(1).kind == "str":
                self.i += 2
                return ("lit", Stamp(self.t[self.i - 1].val))
            if self.isop("(", 1):
                self.i += 2
                args = []
                if not self.isop(")"):
                    args.append(self.expr())
                    while self.accop(","):
                        args.append(self.expr())
                self.needop(")")
                return ("func", u, tuple(args))
        if t.kind in ("id", "word"):
            a = self.ident()
            if self.accop("."):
                b = self.ident()
                return ("col", a, b)
            return ("col", None, a)
        self.fail("expected expression")

    # -- clauses
    def column_def(self) -> dict:
        c: dict = {"name": self.ident(), "type": self.type(), "notnull": False, "default": None, "identity": False,
                   "comment": None, "dfname": None}
        self.column_tail(c)
        return c

    def column_tail(self, c: dict) -> None:
        while True:
            if self.acc("NOT", "NULL"):
                c["notnull"] = True
                c["null_explicit"] = True
            elif self.acc("NULL"):
                c["notnull"] = False
                c["null_explicit"] = True
            elif self.isw("DEFAULT"):
                self.i += 1
                s = self.peek()
                start = s.start if s else 0
                c["default"] = self.prim()
                c["default_text"] = self.sql[start : self.t[self.i - 1].end]
            elif self.isw("CONSTRAINT") and self.isw("DEFAULT", k=2):
                self.i += 1
                c["dfname"] = self.ident()
                self.need("DEFAULT")
                start = self.peek().start
                c["default"] = self.prim()
                c["default_text"] = self.sql[start : self.t[self.i - 1].end]
            elif self.acc("GENERATED", "BY", "DEFAULT", "AS", "IDENTITY"):
                c["identity"] = True
            elif self.acc("IDENTITY") or self.acc("AUTO_INCREMENT"):
                c["identity"] = True
            elif self.acc("CHARACTER", "SET"):
                self.ident()
            elif self.acc("COLLATE"):
                self.ident()
            elif self.acc("COMMENT"):
                c["comment"] = self.string()
            elif self.acc("DROP", "IDENTITY"):
                c["drop_identity"] = True
            else:
                return

    def constraint_def(self, name: typing.Optional[str] = None) -> dict:
        "After CONSTRAINT."
        name = name or self.ident()
        if self.acc("PRIMARY", "KEY"):
            return {"kind": "p", "name": name, "cols": self.idlist()}
        if self.acc("UNIQUE"):
            return {"kind": "u", "name": name, "cols": self.idlist()}
        if self.acc("FOREIGN", "KEY"):
            cols = self.idlist()
            self.need("REFERENCES")
            ref = self.qname()
            return {"kind": "f", "name": name, "cols": cols, "ref": ref, "refcols": self.idlist()}
        if self.acc("CHECK"):
            self.needop("(")
            start = self.peek().start
            e = self.expr()
            text = self.sql[start : self.t[self.i - 1].end]
            self.needop(")")
            return {"kind": "c", "name": name, "expr": e, "text": text}
        if self.acc("DEFAULT"):
            start = self.peek().start
            e = self.prim()
            text = self.sql[start : self.t[self.i - 1].end]
            self.need("FOR")
            return {"kind": "d", "name": name, "expr": e, "text": text, "col": self.ident()}
        self.fail("expected constraint")

    def alter_actions(self) -> list:
        acts: list = []
        d = self.d
        while True:
            if self.acc("ADD"):
                if self.isw("CONSTRAINT"):
                    while True:
                        self.need("CONSTRAINT")
                        acts.append(("addcon", self.constraint_def()))
                        # MSSQL: ADD CONSTRAINT a ..., CONSTRAINT b ...
                        if self.isop(",") and self.isw("CONSTRAINT", k=1):
                            self.i += 1
                            continue
                        break
                else:
                    if self.isw("COLUMN"):
                        if d == "mssql":
                            self.fail("ADD COLUMN")
                        self.i += 1
                    elif d in ("postgresql", "mysql", "redshift", "oracle", "mssql"):
                        pass
                    acts.append(("addcol", self.column_def()))
            elif self.acc("DROP"):
                if self.acc("COLUMN"):
                    acts.append(("dropcol", self.ident()))
                elif self.acc("CONSTRAINT"):
                    acts.append(("dropcon", self.ident()))
                    while self.isop(",") and (self.isw("CONSTRAINT", k=1) or self.isw("COLUMN", k=1)):
                        self.i += 1
                        if self.acc("CONSTRAINT"):
                            acts.append(("dropcon", self.ident()))
                        else:
                            self.need("COLUMN")
                            acts.append(("dropcol", self.ident()))
                else:
                    self.fail("DROP what")
            elif self.acc("RENAME", "COLUMN"):
                a = self.ident()
                self.need("TO")
                acts.append(("rename", a, self.ident()))
            elif self.isw("CHANGE"):
                self.i += 1
                a = self.ident()
                acts.append(("change", a, self.column_def()))
            elif self.isw("MODIFY"):
                if d not in ("mysql", "oracle"):
                    self.fail("MODIFY")
                self.i += 1
                self.acc("COLUMN")
                if d == "mysql":
                    acts.append(("modify", self.column_def()))
                else:
                    c: dict = {"name": self.ident(), "type": None, "notnull": None, "default": None,
                               "identity": False, "comment": None}
                    if self.peek() is not None and not self.isop(",") and not any(
                        self.isw(w) for w in ("DEFAULT", "NOT", "NULL", "GENERATED", "DROP")
                    ):
                        c["type"] = self.type()
                    self.column_tail(c)
                    acts.append(("omodify", c))
            elif self.acc("ALTER", "COLUMN"):
                name = self.ident()
                if d == "mssql":
                    ty = self.type()
                    nn = False
                    if self.acc("NOT", "NULL"):
                        nn = True
                    else:
                        self.acc("NULL")
                    acts.append(("mscol", name, ty, nn))
                elif self.acc("SET", "DATA", "TYPE"):
                    acts.append(("settype", name, self.type()))
                elif self.acc("SET", "NOT", "NULL"):
                    acts.append(("setnn", name, True))
                elif self.acc("DROP", "NOT", "NULL"):
                    acts.append(("setnn", name, False))
                elif self.acc("SET", "DEFAULT"):
                    start = self.peek().start
                    e = self.prim()
                    acts.append(("setdef", name, e, self.sql[start : self.t[self.i - 1].end]))
                elif self.acc("DROP", "DEFAULT"):
                    acts.append(("setdef", name, None, None))
                elif self.acc("DROP", "IDENTITY"):
                    acts.append(("identity", name, False))
                elif self.acc("ADD", "GENERATED", "BY", "DEFAULT", "AS", "IDENTITY"):
                    acts.append(("identity", name, True))
                else:
                    self.fail("ALTER COLUMN what")
            elif self.isw("COMMENT") and self.isop("=", 1):
                self.i += 2
                acts.append(("tabcomment", self.string()))
            elif self.acc("CONSTRAINT"):
                acts.append(("addcon", self.constraint_def()))
            else:
                self.fail("ALTER TABLE action")
            if not self.accop(","):
                return acts

    # -- statements
    def statement(self) -> tuple:
        st = self._statement()
        self.end()
        return st

    def _statement(self) -> tuple:
        d = self.d
        if self.acc("CREATE"):
            if self.acc("SCHEMA"):
                ine = self.acc("IF", "NOT", "EXISTS")
                return ("create_schema", self.ident(), ine)
            if self.acc("TYPE"):
                if d not in ("postgresql", "redshift"):
                    self.fail("CREATE TYPE")
                q = self.qname()
                self.need("AS")
                if self.acc("ENUM"):
                    self.needop("(")
                    vals = [self.string()]
                    while self.accop(","):
                        vals.append(self.string())
                    self.needop(")")
                    return ("create_enum", q, vals)
                self.needop("(")
                mem = [(self.ident(), self.type())]
                while self.accop(","):
                    mem.append((self.ident(), self.type()))
                self.needop(")")
                return ("create_struct", q, mem)
            if self.acc("TABLE"):
                q = self.qname()
                self.needop("(")
                cols, cons = [], []
                while True:
                    if self.isw("CONSTRAINT"):
                        self.i += 1
                        cons.append(self.constraint_def())
                    elif self.isw("PRIMARY") and self.isw("KEY", k=1):
                        cons.append(self.constraint_def("PRIMARY" if d == "mysql" else f"{q[-1]}_pkey"))
                    else:
                        cols.append(self.column_def())
                    if not self.accop(","):
                        break
                self.needop(")")
                comment = None
                if self.isw("COMMENT") and d == "mysql":
                    self.i += 1
                    self.accop("=")
                    comment = self.string()
                return ("create_table", q, cols, cons, comment)
            self.fail("CREATE what")
        if self.acc("DROP"):
            if self.acc("SCHEMA"):
                ie = self.acc("IF", "EXISTS")
                n = self.ident()
                return ("drop_schema", n, ie, self.acc("CASCADE"))
            if self.acc("TYPE"):
                return ("drop_type", self.qname())
            if self.acc("TABLE"):
                ie = self.acc("IF", "EXISTS")
                names = [self.qname()]
                while self.accop(","):
                    names.append(self.qname())
                casc = self.acc("CASCADE", "CONSTRAINTS") or self.acc("CASCADE")
                self.acc("PURGE")
                return ("drop_table", names, ie, casc)
            self.fail("DROP what")
        if self.acc("ALTER"):
            if self.acc("SESSION"):
                self.i = len(self.t)
                return ("noop",)
            if self.acc("TYPE"):
                q = self.qname()
                if self.acc("RENAME", "TO"):
                    return ("rename_type", q, self.ident())
                if self.acc("ADD", "VALUE"):
                    return ("add_value", q, self.string())
                acts = []
                while True:
                    if self.acc("DROP", "ATTRIBUTE"):
                        acts.append(("drop", self.ident()))
                    elif self.acc("ADD", "ATTRIBUTE"):
                        acts.append(("add", self.ident(), self.type()))
                    elif self.acc("ALTER", "ATTRIBUTE"):
                        n = self.ident()
                        self.need("SET", "DATA", "TYPE")
                        acts.append(("alter", n, self.type()))
                    else:
                        self.fail("ALTER TYPE action")
                    if not self.accop(","):
                        break
                return ("alter_struct", q, acts)
            if self.acc("TABLE"):
                q = self.qname()
                if d == "mssql" and self.isw("ADD") and self.isw("CONSTRAINT", k=1):
                    pass
                return ("alter_table", q, self.alter_actions())
            self.fail("ALTER what")
        if self.acc("COMMENT", "ON"):
            if self.acc("TABLE"):
                kind = "table"
            elif self.acc("TYPE"):
                kind = "type"
            elif self.acc("COLUMN"):
                parts = [self.ident()]
                while self.accop("."):
                    parts.append(self.ident())
                self.need("IS")
                text = None if self.acc("NULL") else self.string()
                q = (parts[-3] if len(parts) > 2 else None, parts[-2])
                return ("comment_column", q, parts[-1], text)
            else:
                self.fail("COMMENT ON what")
            q = self.qname()
            self.need("IS")
            text = None if self.acc("NULL") else self.string()
            return ("comment_" + kind, q, text)
        if self.acc("INSERT", "INTO"):
            q = self.qname()
            cols = self.idlist()
            if self.acc("VALUES"):
                rows = []
                while True:
                    self.needop("(")
                    row = [self.expr()]
                    while self.accop(","):
                        row.append(self.expr())
                    self.needop(")")
                    rows.append(row)
                    if not self.accop(","):
                        break
                src: tuple = ("values", rows)
            elif self.isw("SELECT"):
                self.i += 1
                distinct = self.acc("DISTINCT")
                items = [self.expr()]
                while self.accop(","):
                    items.append(self.expr())
                self.need("FROM")
                fq = self.qname()
                where = self.expr() if self.acc("WHERE") else None
                src = ("select", distinct, items, fq, where)
            else:
                self.fail("INSERT source")
            conflict = None
            if self.acc("ON", "CONFLICT"):
                if d != "postgresql":
                    self.fail("ON CONFLICT")
                keys = self.idlist() if self.isop("(") else None
                self.need("DO")
                if self.acc("NOTHING"):
                    conflict = ("nothing", keys)
                else:
                    self.need("UPDATE", "SET")
                    conflict = ("update", keys, self.assignments())
            elif self.acc("ON", "DUPLICATE", "KEY", "UPDATE"):
                if d != "mysql":
                    self.fail("ON DUPLICATE")
                conflict = ("duplicate", None, self.assignments())
            return ("insert", q, cols, src, conflict)
        if self.acc("MERGE", "INTO"):
            if d not in ("mssql", "oracle", "redshift"):
                self.fail("MERGE")
            q = self.qname()
            talias = self.ident()
            self.need("USING")
            self.needop("(")
            self.need("VALUES")
            rows = []
            while True:
                self.needop("(")
                row = [self.expr()]
                while self.accop(","):
                    row.append(self.expr())
                self.needop(")")
                rows.append(row)
                if not self.accop(","):
                    break
            self.needop(")")
            salias = self.ident()
            scols = self.idlist()
            self.need("ON")
            self.needop("(")
            on = self.expr()
            self.needop(")")
            upd = ins = None
            while self.acc("WHEN"):
                if self.acc("MATCHED", "THEN"):
                    self.need("UPDATE", "SET")
                    upd = self.assignments()
                else:
                    self.need("NOT", "MATCHED", "THEN")
                    self.need("INSERT")
                    icols = self.idlist()
                    self.need("VALUES")
                    self.needop("(")
                    ivals = [self.expr()]
                    while self.accop(","):
                        ivals.append(self.expr())
                    self.needop(")")
                    ins = (icols, ivals)
            return ("merge", q, talias, salias, scols, rows, on, upd, ins)
        if self.acc("UPDATE"):
            q = self.qname()
            alias = None
            t = self.peek()
            if t is not None and t.kind in ("id", "word") and not self.isw("SET") and not self.isw("JOIN"):
                alias = self.ident()
            join = None
            if self.acc("JOIN"):
                jq = self.qname()
                jalias = self.ident()
                self.need("ON")
                join = (jq, jalias, self.expr())
            self.need("SET")
            sets = self.assignments()
            if self.acc("FROM"):
                jq = self.qname()
                jalias = self.ident()
                join = (jq, jalias, None)
            where = self.expr() if self.acc("WHERE") else None
            return ("update", q, alias, join, sets, where)
        if self.acc("DELETE", "FROM"):
            q = self.qname()
            where = self.expr() if self.acc("WHERE") else None
            return ("delete", q, where)
        if self.isw("SELECT"):
            self.i = len(self.t)
            return ("select", self.sql)
        if self.isw("IF", "NOT", "EXISTS") and d == "mssql":
            m = re.match(
                r"(?is)^\s*IF NOT EXISTS \( SELECT \* FROM sys\.schemas WHERE name = N'((?:[^']|'')*)' \) "
                r"EXEC\('CREATE SCHEMA \"((?:[^\"]|\"\")*)\"'\)\s*$", self.sql)
            if not m:
                self.fail("IF NOT EXISTS")
            self.i = len(self.t)
            return ("if_no_schema_create", m.group(1).replace("''", "'"), m.group(2).replace('""', '"').replace("''", "'"))
        if self.isw("BEGIN") and d == "oracle":
            self.i += 1
            body = self.plsql("EXCEPTION", "END")
            handlers = None
            if self.acc("EXCEPTION"):
                self.need("WHEN", "OTHERS", "THEN")
                handlers = self.plsql("END")
            self.need("END")
            self.accop(";")
            self.accop("/")
            return ("plsql", body, handlers)
        self.fail("unknown statement")

    def plsql(self, *ends: str) -> list:
        "Statements of a PL/SQL block."
        out: list = []
        while not any(self.isw(e) for e in ends):
            if self.acc("EXECUTE", "IMMEDIATE"):
                trees = parse_script(self.string(), "oracle")
                if len(trees) != 1 or trees[0][0][0] == "error":
                    self.fail("EXECUTE IMMEDIATE")
                out.append(("sql", trees[0][0]))
            elif self.acc("RAISE"):
                out.append(("raise",))
            elif self.acc("NULL"):
                pass
            elif self.acc("IF"):
                self.need("SQLCODE")
                op = "=" if self.accop("=") else "!=" if self.accop("!=") or self.accop("<>") else self.fail("expected a comparison")
                neg = self.accop("-")
                t = self.peek()
                if t is None or t.kind != "num":
                    self.fail("expected a number")
                self.i += 1
                code = -int(t.val) if neg else int(t.val)
                self.need("THEN")
                then = self.plsql("ELSE", "END")
                other = self.plsql("END") if self.acc("ELSE") else []
                self.need("END", "IF")
                out.append(("if", op, code, then, other))
            else:
                self.fail("in a PL/SQL block")
            self.needop(";")
        return out

    def assignments(self) -> list:
        out = []
        while True:
            t = self.atom()
            if t[0] != "col":
                self.fail("assignment target")
            self.needop("=")
            out.append((t[2], self.prim()))
            if not self.accop(","):
                return out


@functools.lru_cache(maxsize=20000)
def parse_script(sql: str, dialect: str) -> tuple:
    """
    Splits a script at semicolons and parses each statement.

    Returns ((kind, tree, text), ...). A statement that fails to parse is an ("error", message) entry.
    """

    try:
        toks = tokenize(sql, dialect)
    except SqlSyntax as e:
        return ((("error", str(e)), sql),)
    if dialect == "oracle" and toks and toks[0].kind == "word" and toks[0].val.upper() == "BEGIN":
        groups = [toks]
    else:
        groups = []
        cur: list[Tok] = []
        for t in toks:
            if t.kind == "op" and t.val == ";":
                if cur:
                    groups.append(cur)
                cur = []
            else:
                cur.append(t)
        if cur:
            groups.append(cur)
    out = []
    for g in groups:
        base = g[0].start
        text = sql[base : g[-1].end]
        rel = []
        nparam = 0
        for t in g:
            v = t.val
            if t.kind == "param" and sql[t.start] in "?%":
                v = nparam
                nparam += 1
            rel.append(Tok(t.kind, v, t.start - base, t.end - base))
        try:
            out.append((Parser(text, rel, dialect).statement(), text))
        except SqlSyntax as e:
            out.append((("error", str(e)), text))
    return tuple(out)
