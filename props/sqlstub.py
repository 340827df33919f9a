"""
A small SQL engine standing in for sqlite3 (symbolic runs only) and for MySQL and PostgreSQL connections.  Rows and
parameters may be symbolic.  The query text is read with a strict grammar: a value that ends up in the text shows as a
literal or as a syntax error (SqlError).  When sampled paths are replayed, the real sqlite3 is used instead, so its
model here is compared with the real one.
"""
import sys
import types


class SqlError(Exception):
    pass


class IntegrityError(SqlError):
    pass


def tokens(text, style):
    """identifiers/keywords, placeholders and punctuation; anything else is an error"""
    out = []
    i = 0
    while i < len(text):
        c = text[i]
        if c in " \t\n\r":
            i += 1
        elif c == "?" and style == "?":
            out.append("?")
            i += 1
        elif c in "(),=*;<>!":
            out.append(c)
            i += 1
        elif c == "%":
            if text[i:i + 2] != "%s" or style != "%s":
                raise SqlError("syntax error at " + text)
            out.append("?")
            i += 2
        elif c in '"`[':
            end = text.find("]" if c == "[" else c, i + 1)
            if end < 0:
                raise SqlError("syntax error at " + text)
            out.append(("id", text[i + 1:end]))
            i = end + 1
        elif c.isalnum() or c == "_":
            j = i
            while j < len(text) and (text[j].isalnum() or text[j] in "_."):
                j += 1
            out.append(text[i:j])
            i = j
        else:
            raise SqlError("syntax error at " + text)
    return out


class Reader:
    def __init__(self, text, params, style):
        if not isinstance(text, str):
            raise SqlError("the query is not a text")
        self.toks = tokens(text, style)
        self.pos = 0
        self.params = list(params)
        self.used = 0
        self.text = text

    def peek(self):
        return self.toks[self.pos] if self.pos < len(self.toks) else None

    def word(self, *words):
        t = self.peek()
        if isinstance(t, str) and t.upper() in words:
            self.pos += 1
            return t.upper()
        return None

    def need(self, *words):
        w = self.word(*words)
        if w is None:
            raise SqlError("expected " + "/".join(words) + " in " + self.text)
        return w

    def name(self):
        t = self.peek()
        if isinstance(t, tuple):
            self.pos += 1
            return t[1]
        if isinstance(t, str) and (t[0].isalpha() or t[0] == "_"):
            self.pos += 1
            return t
        raise SqlError("expected a name in " + self.text)

    def names(self):
        out = [self.name()]
        while self.word(","):
            out.append(self.name())
        return out

    def param(self):
        self.need("?")
        if self.used >= len(self.params):
            raise SqlError("too few parameters for " + self.text)
        self.used += 1
        return self.params[self.used - 1]

    def done(self):
        self.word(";")
        if self.peek() is not None:
            raise SqlError("syntax error in " + self.text)
        if self.used != len(self.params):
            raise SqlError("too many parameters for " + self.text)


class Cursor:
    def __init__(self, connection, as_dict=False):
        self.connection = connection
        self.as_dict = as_dict
        self.rows = []
        self.rowcount = -1

    def execute(self, text, params=()):
        connection = self.connection
        connection.log.append((text, list(params)))
        if connection.real is None:
            try:
                return self.run(text, params)
            except SqlError:
                if not connection.embedded or isinstance(sys.exc_info()[1], IntegrityError):
                    raise
                # SQL outside the grammar: the rest of this path runs on the real sqlite3, one value at a time
                connection.become_real()
        try:
            cursor = connection.real.execute(realize_deep(text), [realize_deep(p) for p in params])
            self.rows = cursor.fetchall()
            self.rowcount = cursor.rowcount
        except connection.real_module.Error as e:
            raise SqlError(str(e))
        return self

    def executemany(self, text, rows):
        for row in rows:
            self.execute(text, row)
        return self

    def run(self, text, params):
        connection = self.connection
        r = Reader(text, params, connection.style)
        kind = r.need("SELECT", "INSERT", "REPLACE", "DELETE", "CREATE", "DROP")
        if kind == "CREATE":
            r.need("TABLE")
            exists = False
            if r.word("IF"):
                r.need("NOT")
                r.need("EXISTS")
                exists = True
            table = r.name()
            if table in connection.tables:
                if not exists:
                    raise SqlError("table exists: " + table)
                Table(r)
            else:
                connection.tables[table] = Table(r)
            return self
        if kind == "SELECT":
            return self.select(r)
        if not connection.writable:
            raise SqlError("read only")
        if kind == "DROP":
            r.need("TABLE")
            exists = False
            if r.word("IF"):
                r.need("EXISTS")
                exists = True
            table = r.name()
            r.done()
            if table in connection.tables:
                del connection.tables[table]
            elif not exists:
                raise SqlError("no such table: " + table)
        elif kind == "DELETE":
            r.need("FROM")
            table = connection.table(r.name())
            cond = self.where(r, table)
            r.done()
            kept = [row for row in table.rows if holds(cond, row) is not True]
            self.rowcount = len(table.rows) - len(kept)
            table.rows = kept
        else:
            conflict = "REPLACE" if kind == "REPLACE" else None
            if kind == "INSERT" and r.word("OR"):
                conflict = r.need("IGNORE", "REPLACE")
            r.need("INTO")
            table = connection.table(r.name())
            columns = table.columns
            if r.word("("):
                columns = r.names()
                r.need(")")
            r.need("VALUES")
            r.need("(")
            values = [r.param()]
            while r.word(","):
                values.append(r.param())
            r.need(")")
            r.done()
            if len(values) != len(columns):
                raise SqlError("number of values")
            row = [None] * len(table.columns)
            for c, v in zip(columns, values):
                i = table.index(c)
                row[i] = table.convert(i, v)
            table.insert(row, conflict)
        return self

    def select(self, r):
        distinct = r.word("DISTINCT") is not None
        count = False
        constant = False
        names = []
        columns = []
        if r.word("*"):
            pass
        elif r.word("COUNT"):
            r.need("(")
            r.need("*", "1")
            r.need(")")
            count = True
        elif r.word("1"):
            constant = True
        else:
            while True:
                columns.append(r.name())
                names.append(r.name() if r.word("AS") else columns[-1])
                if not r.word(","):
                    break
        r.need("FROM")
        table = self.connection.table(r.name())
        if not columns:
            columns = names = table.columns
        cond = self.where(r, table)
        limit = None
        if r.word("LIMIT"):
            limit = int(r.need("0", "1", "2", "3"))
        r.done()
        idx = [table.index(c) for c in columns]
        rows = [row for row in table.rows if holds(cond, row) is True]
        if count:
            rows = [(len(rows),)]
            names = ["count"]
        elif constant:
            rows = [(1,) for row in rows]
            names = ["1"]
        else:
            rows = [tuple([row[i] for i in idx]) for row in rows]
        if distinct:
            seen = []
            for row in rows:
                if not any([all([same(x, y) for x, y in zip(row, other)]) for other in seen]):
                    seen.append(row)
            rows = seen
        if limit is not None:
            rows = rows[:limit]
        if self.as_dict:
            rows = [dict(zip(names, row)) for row in rows]
        self.rows = rows
        return self

    def where(self, r, table):
        return self.disjunction(r, table) if r.word("WHERE") else ("const", True)

    def disjunction(self, r, table):
        parts = [self.conjunction(r, table)]
        while r.word("OR"):
            parts.append(self.conjunction(r, table))
        return parts[0] if len(parts) == 1 else ("or", parts)

    def conjunction(self, r, table):
        parts = [self.negation(r, table)]
        while r.word("AND"):
            parts.append(self.negation(r, table))
        return parts[0] if len(parts) == 1 else ("and", parts)

    def negation(self, r, table):
        if r.word("NOT"):
            return ("not", self.negation(r, table))
        if r.word("("):
            cond = self.disjunction(r, table)
            r.need(")")
            return cond
        if r.word("TRUE"):
            return ("const", True)
        if r.word("FALSE"):
            return ("const", False)
        if r.word("1", "0"):
            one = r.toks[r.pos - 1] == "1"
            if r.word("="):
                one = (r.need("0", "1") == "1") == one
            return ("const", one)
        left = self.operand(r, table, None)
        nocase = collation(r)
        nocase = collation(r)
        column = left[1] if left[0] == "column" else None
        inverted = False
        if r.word("IS"):
            inverted = r.word("NOT") is not None
            if r.word("NULL"):
                cond = ("null", left)
            else:
                cond = ("is", left, self.operand(r, table, column))
        elif r.word("="):
            r.word("=")
            cond = ("=", left, self.operand(r, table, column))
        elif r.word("<"):
            r.need(">")
            cond = ("not", ("=", left, self.operand(r, table, column)))
        elif r.word("!"):
            r.need("=")
            cond = ("not", ("=", left, self.operand(r, table, column)))
        else:
            inverted = r.word("NOT") is not None
            r.need("IN")
            r.need("(")
            parts = [("=", left, self.operand(r, table, column))]
            while r.word(","):
                parts.append(("=", left, self.operand(r, table, column)))
            r.need(")")
            cond = ("or", parts)
        if cond[0] != "null":
            nocase = collation(r) if nocase is None else nocase
            for part in [cond] if cond[0] in ("=", "is") else [cond[1]] if cond[0] == "not" else cond[1]:
                for operand in part[1:]:
                    if nocase is None and operand[0] == "column":
                        nocase = table.nocase[operand[1]]
        if nocase:
            cond = fold(cond)
        return ("not", cond) if inverted else cond

    def operand(self, r, table, column):
        if r.word("NULL"):
            return ("value", None)
        if r.peek() == "?":
            value = r.param()
            return ("value", value if column is None else table.convert(column, value))
        return ("column", table.index(r.name()))

    def fetchall(self):
        rows = self.rows
        self.rows = []
        return rows

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def __iter__(self):
        return iter(self.fetchall())

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


def same(a, b):
    """equal, as values of a database; no value is equal to no value"""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) != isinstance(b, str):
        return False
    return True if a == b else False


def fold(cond):
    """compare without regard to case"""
    if cond[0] == "not":
        return ("not", fold(cond[1]))
    if cond[0] == "or":
        return ("or", [fold(c) for c in cond[1]])
    return cond + ("nocase",)


def holds(cond, row):
    """True, False or None (unknown)"""
    kind = cond[0]
    if kind == "const":
        return cond[1]
    if kind == "and":
        unknown = False
        for part in cond[1]:
            h = holds(part, row)
            if h is False:
                return False
            if h is None:
                unknown = True
        return None if unknown else True
    if kind == "or":
        unknown = False
        for part in cond[1]:
            h = holds(part, row)
            if h is True:
                return True
            if h is None:
                unknown = True
        return None if unknown else False
    if kind == "not":
        h = holds(cond[1], row)
        return None if h is None else not h
    left = row[cond[1][1]] if cond[1][0] == "column" else cond[1][1]
    if kind == "null":
        return left is None
    right = row[cond[2][1]] if cond[2][0] == "column" else cond[2][1]
    if kind == "=" and (left is None or right is None):
        return None
    if cond[-1] == "nocase":
        left, right = [x.lower() if isinstance(x, str) else x for x in (left, right)]
    return same(left, right)


def collation(r):
    """COLLATE NOCASE: True, COLLATE BINARY: False, nothing: None"""
    return r.need("NOCASE", "BINARY") == "NOCASE" if r.word("COLLATE") else None


class Table:
    def __init__(self, reader):
        self.columns = []
        self.text = []
        self.nocase = []
        self.unique = []
        self.rows = []
        reader.need("(")
        while True:
            self.columns.append(reader.name())
            self.text.append(reader.word("TEXT") is not None)
            if not self.text[-1]:
                reader.word("INT", "INTEGER") and self.unsupported(reader)
            if reader.word("PRIMARY"):
                reader.need("KEY")
                self.unique.append(len(self.columns) - 1)
            elif reader.word("UNIQUE"):
                self.unique.append(len(self.columns) - 1)
            self.nocase.append(collation(reader))
            if not reader.word(","):
                break
        reader.need(")")
        reader.done()

    def unsupported(self, reader):
        raise SqlError("not supported: " + reader.text)

    def index(self, column):
        for i, c in enumerate(self.columns):
            if c.lower() == column.lower():
                return i
        raise SqlError("no such column: " + column)

    def convert(self, i, value):
        """TEXT columns store numbers as text"""
        if isinstance(value, (list, dict, tuple)) or not (value is None or isinstance(value, (int, float, str))):
            raise SqlError("type not supported")
        if self.text[i] and isinstance(value, (int, float)):
            return str(value)
        return value

    def insert(self, row, conflict):
        for i in self.unique:
            clash = [old for old in self.rows if row[i] is not None and holds((("=", ("column", i), ("value", row[i])) + (("nocase",) if self.nocase[i] else ())), old)]
            if len(clash) > 0:
                if conflict is None:
                    raise IntegrityError("not unique: " + self.columns[i])
                if conflict == "IGNORE":
                    return
                self.rows = [old for old in self.rows if not any([old is c for c in clash])]
        self.rows.append(row)


class Connection:
    """style: the placeholder of the client library; as_dict: cursors return dicts unless asked for tuples"""

    def __init__(self, writable=True, style="?", as_dict=False, embedded=False):
        self.embedded = embedded
        self.real = None
        self.real_module = real_sqlite3
        self.tables = {}
        self.log = []
        self.writable = writable
        self.style = style
        self.as_dict = as_dict

    def table(self, name):
        for t in self.tables:
            if t.lower() == name.lower():
                return self.tables[t]
        raise SqlError("no such table: " + name)

    def become_real(self):
        self.real = real_sqlite3.connect(":memory:")
        for name, table in self.tables.items():
            columns = [c + (" TEXT" if t else "") + (" UNIQUE" if i in table.unique else "") + (" COLLATE NOCASE" if table.nocase[i] else "") for i, (c, t) in enumerate(zip(table.columns, table.text))]
            self.real.execute("CREATE TABLE " + name + " (" + ", ".join(columns) + ")")
            for row in table.rows:
                self.real.execute("INSERT INTO " + name + " VALUES (" + ", ".join(["?" for c in columns]) + ")", [realize_deep(v) for v in row])

    def executemany(self, text, rows):
        return self.cursor().executemany(text, rows)

    def cursor(self, name=None, cursor_factory=None, row_factory=None, dictionary=None, buffered=None):
        asked = [x for x in (cursor_factory, row_factory) if x is not None]
        as_dict = self.as_dict if len(asked) == 0 else asked[0] == "dict"
        if dictionary is not None:
            as_dict = dictionary
        return Cursor(self, as_dict)

    def execute(self, text, params=()):
        return self.cursor().execute(text, params)

    def commit(self):
        pass

    def rollback(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


def connect(*args, **kwargs):
    return Connection(embedded=True)


def fake(name, **attributes):
    m = types.ModuleType(name)
    for k, v in attributes.items():
        setattr(m, k, v)
    return m


SYMBOLIC = "symx.instrument" in sys.modules
real_sqlite3 = None

if SYMBOLIC:
    import sqlite3 as real_sqlite3
    from symx.core import realize_deep
    sys.modules["sqlite3"] = fake("sqlite3", connect=connect, Error=SqlError, OperationalError=SqlError, DatabaseError=SqlError,
                                  IntegrityError=IntegrityError, Connection=Connection, Cursor=Cursor, Row=None)

# the client libraries of PostgreSQL: only what a data source passes to cursor()
extensions = fake("psycopg2.extensions", cursor="cursor")
extras = fake("psycopg2.extras", DictCursor="dict", RealDictCursor="dict", NamedTupleCursor="tuple")
sys.modules["psycopg2"] = fake("psycopg2", extensions=extensions, extras=extras, Error=SqlError)
sys.modules["psycopg2.extensions"] = extensions
sys.modules["psycopg2.extras"] = extras
rows_module = fake("psycopg.rows", tuple_row="tuple", dict_row="dict")
sys.modules["psycopg"] = fake("psycopg", rows=rows_module, Error=SqlError)
sys.modules["psycopg.rows"] = rows_module
