"""C10 a data source select returns the requested columns of the matching rows"""
import os
import sys
import tempfile

from props import sqlstub
from props.common import *
import sqlite3
from richard.data_source.CsvImporter import CsvImporter
from richard.data_source.MySqlDataSource import MySqlDataSource
from richard.data_source.PsycoPg2DataSource import PsycoPg2DataSource
from richard.data_source.PsycoPg3DataSource import PsycoPg3DataSource
from richard.data_source.SimpleDataSource import SimpleDataSource
from richard.data_source.Sqlite3DataSource import Sqlite3DataSource

ASSUMPTIONS = ["database servers are modelled by a small SQL engine with a strict grammar (props/sqlstub.py): equality compares by value and kind; "
               "sampled sqlite3 paths are re-run on the real sqlite3",
               "csv text is split by the csv module (not encoded); the rows it yields are symbolic"]
COLUMNS = ["a", "b", "c"]


class Sqlite:
    def __init__(self):
        self.connection = sqlite3.connect(":memory:")
        self.source = Sqlite3DataSource(self.connection)
        for t in ("t", "u"):
            self.connection.cursor().execute(f"CREATE TABLE {t} (a, b, c)")

    def put(self, table, row):
        marks = "?, ?, ?"
        self.connection.cursor().execute(f"INSERT INTO {table} (a, b, c) VALUES ({marks})", row)


class Server:
    """a database server with a client library that has %s placeholders"""

    def __init__(self, cls, as_dict):
        self.connection = sqlstub.Connection(writable=False, style="%s", as_dict=as_dict)
        self.source = cls(self.connection)
        for t in ("t", "u"):
            self.connection.cursor().execute(f"CREATE TABLE {t} (a, b, c)")

    def put(self, table, row):
        self.connection.tables[table].rows.append(list(row))


class Simple:
    def __init__(self):
        self.source = SimpleDataSource()

    def put(self, table, row):
        self.source.insert(table, COLUMNS, row)


def make(kind):
    if kind == "simple":
        return Simple()
    if kind == "sqlite":
        return Sqlite()
    if kind == "mysql":
        return Server(MySqlDataSource, False)
    if kind == "pg2":
        return Server(PsycoPg2DataSource, True)
    return Server(PsycoPg3DataSource, True)


def value(ctx, name, kinds):
    k = ctx.choice(name + "k", kinds)
    if k == "text":
        return ctx.str(name, 2, "a'?%", 0)
    if k == "list":
        return [ctx.int(name + "l")]
    return mixed_value(ctx, name, [k])


def same_rows(ctx, a, b):
    """equal as multisets of rows"""
    if len(a) != len(b):
        return False
    return ctx.all_([ctx.eq(ctx.count([ctx.eq(x, y) for y in a]), ctx.count([ctx.eq(x, y) for y in b])) for x in a + b])


def project(row, columns):
    return [row[COLUMNS.index(c)] for c in columns]


def matching(rows, columns, values):
    """the rows whose given values are equal to the requested ones (numbers and texts are different)"""
    out = []
    for row in rows:
        ok = True
        for c, v in zip(columns, values):
            if v is not None and not row[COLUMNS.index(c)] == v:
                ok = False
        if ok:
            out.append(row)
    return out


ORDERS = [["a"], ["c"], ["b", "a"], ["a", "b", "c"], ["c", "a", "b"], ["b", "c", "a"]]


def select(ctx, kind, kinds, rows, orders):
    db = make(kind)
    table = [[value(ctx, f"r{i}{c}", kinds) for c in "abc"] for i in range(rows)]
    for row in table:
        db.put("t", row)
    db.put("u", [1, 2, 3])
    columns = ctx.choice("columns", orders)
    given = [value(ctx, "g" + c, kinds) if ctx.flag("with " + c) else None for c in columns]
    before = clone([columns, given])
    got, exc = ctx.raises(lambda: db.source.select("t", columns, given))
    ctx.check(exc is None, "select does not fail")
    ctx.observe("got", got)
    want = [project(row, columns) for row in matching(table, columns, given)]
    ctx.check(same_rows(ctx, got, want), "the requested columns of exactly the matching rows")
    ctx.check(ctx.eq([columns, given], before), "columns and values are unchanged")
    ctx.check(ctx.eq(db.source.select_column("t", columns, given), [row[0] for row in got]), "select_column is the first column")
    if len(got) > 0:
        ctx.cover("found")
        # the rows handed out are the caller's own
        keep = clone(got)
        for row in got:
            row[0] = "changed"
        ctx.check(same_rows(ctx, db.source.select("t", columns, given), keep), "a result is not shared with the store")
    if len(got) < rows:
        ctx.cover("not found")
    ctx.check(ctx.eq(db.source.select("u", ["c", "a"], [None, None]), [[3, 1]]), "another table is not affected")


def parameters(ctx, kind):
    """what is sent to the database: a fixed text and the values in the order of their columns"""
    db = make(kind)
    connection = db.connection
    if kind == "sqlite":
        connection = sqlstub.Connection()
        connection.execute("CREATE TABLE t (a, b, c)")
        db.source = Sqlite3DataSource(connection)
    columns = ctx.choice("columns", ORDERS)
    texts = []
    params = []
    del connection.log[:]
    flags = [ctx.flag("with " + c) for c in columns]
    for run in (0, 1):
        kind_of_value = ctx.choice(f"kind{run}", ["int", "text", "''", "0"] if run == 0 else ["int"])
        given = [value(ctx, f"g{run}{c}", [kind_of_value]) if f else None for c, f in zip(columns, flags)]
        _, exc = ctx.raises(lambda: db.source.select("t", columns, given))
        ctx.check(exc is None, "the database accepts the query")
        ctx.check(len(connection.log) == run + 1, "one query is sent")
        text, ps = connection.log[run]
        texts.append(text)
        ctx.check(ctx.eq(list(ps), [g for g in given if g is not None]), "the given values are the parameters, in the order of the columns")
    ctx.check(ctx.eq(texts[0], texts[1]), "the query text does not depend on the values")


def writes(ctx, kind, kinds, steps):
    """insert with any column order, delete with any columns"""
    db = make(kind)
    rows = []
    ops = ["insert", "delete"] if kind == "sqlite" else ["insert", "clear"]
    for i in range(steps):
        op = ctx.choice(f"op{i}", ops)
        order = ctx.choice(f"order{i}", [["a", "b", "c"], ["c", "a", "b"], ["b", "a", "c"]][:2 if i else 3] if op == "insert" else ORDERS[:4])
        same = kinds if op == "insert" or len(kinds) == 1 else [ctx.choice(f"kind{i}", kinds)]
        values = [value(ctx, f"v{i}{c}", same) for c in order]
        before = clone([order, values])
        if op == "insert":
            _, exc = ctx.raises(lambda: db.source.insert("t", order, values))
            rows.append([values[order.index(c)] for c in COLUMNS])
        elif op == "clear":
            db.source.clear()
            rows = []
            exc = None
        else:
            _, exc = ctx.raises(lambda: db.source.delete("t", order, values))
            gone = matching(rows, order, values)
            if len(gone) > 0:
                ctx.cover("deleted")
            rows = [r for r in rows if not any([r is g for g in gone])]
        ctx.check(exc is None, op + " does not fail")
        ctx.check(ctx.eq([order, values], before), "columns and values are unchanged")
        got = db.source.select("t", ["c", "b", "a"], [None, None, None])
        ctx.check(same_rows(ctx, got, [[r[2], r[1], r[0]] for r in rows]), f"step {i}: the stored rows after {op}")
    if len(rows) > 0:
        row = rows[ctx.choice("which", list(range(len(rows))))]
        got = db.source.select("t", ["b", "a"], [row[1], None])
        ctx.check(same_rows(ctx, got, [[r[1], r[0]] for r in rows if r[1] == row[1]]), "an inserted row is found by its value")
    ctx.check(len(db.source.select("u", ["a"], [None])) == 0, "another table is not affected")


def partial(ctx):
    """in memory: rows with some columns only, and columns in any order"""
    source = SimpleDataSource()
    a, b = mixed_value(ctx, "a"), mixed_value(ctx, "b")
    p = mixed_value(ctx, "p")
    source.insert("t", ["a"], [a])
    source.insert("t", ["b", "a"], [b, None])
    ctx.check(ctx.eq(source.select("t", ["a", "b"], [None, None]), [[a, None], [None, b]]), "absent columns have no value")
    ctx.check(ctx.eq(source.select("t", ["b", "a"], [None, p]), [[None, a]] if a == p else []), "an absent value is not equal to a given one")
    ctx.check(ctx.eq(source.select("nothing", ["a"], [None]), []), "a table without rows")


class Reader:
    def __init__(self, rows):
        self.rows = rows

    def __iter__(self):
        return iter(self.rows)


def csv_file(ctx, columns):
    header = ctx.choice("header", [["a", "b", "c"], ["c", "a", "b"]])[:columns]
    rows = []
    n = ctx.choice("rows", [0, 1, 2])
    blank = ctx.choice("blank", [-1, 0, 1, 2])
    for i in range(n):
        rows.append([ctx.str(f"v{i}{c}", 2, "a0 ,\"'", 0) for c in header])
    source = SimpleDataSource()
    lines = [header] + rows
    lines = [list(l) for l in lines]
    if 0 <= blank <= n:
        lines = lines[:blank] + [[]] + lines[blank:]
    folder = tempfile.mkdtemp()
    path = folder + "/data.csv"
    import richard.data_source.CsvImporter as importer_module
    try:
        if ctx.symbolic:
            with open(path, "w") as f:
                f.write("")
            importer_module.csv = sqlstub.fake("csv", reader=lambda f, *args, **kw: Reader(lines))
        else:
            import csv
            with open(path, "w", newline="") as f:
                w = csv.writer(f)
                for l in lines:
                    w.writerow(l)
        CsvImporter().import_table_from_file("t", path, source)
    finally:
        if os.path.exists(path):
            os.remove(path)
        os.rmdir(folder)
    got = source.select("t", header, [None] * len(header))
    ctx.check(ctx.eq(got, rows), "every row of the file is stored, with its columns, in order")


def many(ctx, kind, n):
    """a table with many rows, any values in one of them"""
    db = make(kind)
    at = ctx.choice("at", [0, n // 2, n - 1])
    table = [[ctx.int("a"), ctx.int("b"), ctx.int("c")] if i == at else [i, i % 2, str(i % 3)] for i in range(n)]
    for row in table:
        db.put("t", row)
    columns = ctx.choice("columns", [["a", "b", "c"], ["c", "a"], ["b"]])
    given = [ctx.int("g" + c) if c == columns[-1] and ctx.flag("given") else None for c in columns]
    got = db.source.select("t", columns, given)
    want = [project(row, columns) for row in matching(table, columns, given)]
    ctx.check(len(got) == len(want), "as many rows as match")
    # in the order of the table, or any other
    left = list(got)
    for row in want:
        found = None
        for i, g in enumerate(left):
            if g == row:
                found = i
                break
        ctx.check(found is not None, "the requested columns of exactly the matching rows")
        del left[found]
    ctx.check(ctx.eq(db.source.select_column("t", columns, given), [row[0] for row in got]), "select_column is the first column")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("simple", "sqlite", "mysql", "pg2", "pg3"):
        out.append(Ob(f"{kind} select numbers", select, dict(kind=kind, kinds=["int"], rows=3 if deep else 2, orders=ORDERS),
                      covers=["found", "not found"], bounds="2-3 rows of 3 columns, any integers, 6 column lists, every pattern of given values"))
        out.append(Ob(f"{kind} select texts", select, dict(kind=kind, kinds=["text"], rows=1, orders=ORDERS[:3] if not deep else ORDERS[:4]),
                      covers=["found", "not found"], bounds="1 row of 3 columns; texts of at most 2 characters of a'?%"))
        out.append(Ob(f"{kind} select mixed", select, dict(kind=kind, kinds=["int", "0", "''", "'0'"], rows=1, orders=[ORDERS[0], ORDERS[2]] if not deep else ORDERS[:5]),
                      covers=["found", "not found"], bounds="1 row of 3 columns; any integer, 0, '', '0'"))
        if kind != "simple":
            out.append(Ob(f"{kind} parameters", parameters, dict(kind=kind), bounds="any integers and texts of at most 2 characters of a'?%; 6 column lists"))
    for kind in ("simple", "sqlite"):
        out.append(Ob(f"{kind} writes", writes, dict(kind=kind, kinds=["int"], steps=3), covers=["deleted"] if kind == "sqlite" else [],
                      bounds="3 insert/delete (or clear) steps, any integers"))
        out.append(Ob(f"{kind} writes mixed", writes, dict(kind=kind, kinds=["''", "'0'", "0"] if deep else ["'0'", "0"], steps=2), covers=["deleted"] if kind == "sqlite" else [],
                      bounds="2 steps; 0, '0' (thorough: and '')"))
        out.append(Ob(f"{kind} writes texts", writes, dict(kind=kind, kinds=["text"], steps=2 if deep else 1), bounds="texts of at most 2 characters of a'?%"))
    out.append(Ob("partial rows", partial, bounds="any integer, 0, '', '0'"))
    out.append(Ob("csv", csv_file, dict(columns=3 if deep else 2), bounds="0-2 rows; texts of at most 2 characters of a0 ,\"'"))
    for kind in ("simple", "sqlite", "mysql", "pg2", "pg3"):
        out.append(Ob(f"{kind} many", many, dict(kind=kind, n=70), bounds="70 rows, one of them with any integers"))
    return out
