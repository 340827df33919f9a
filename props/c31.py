"""C31 what a CSV file holds is found in the data source it is imported into"""
import csv as real_csv
import os
import tempfile
from props.common import *
import richard.data_source.CsvImporter as module
from richard.data_source.CsvImporter import CsvImporter
from richard.data_source.SimpleDataSource import SimpleDataSource
from richard.interface.SomeDataSource import SomeDataSource

ASSUMPTIONS = ["the csv module of Python reads the file: in symbolic runs a stand-in delivers the (symbolic) rows of the file, sampled runs use real files and the real csv module",
               "every line has as many cells as the header, or none (an empty line)"]


class Lines:
    """the lines of the file as csv.reader delivers them, and the reader over them"""

    def __init__(self, lines):
        self.lines = [list(l) for l in lines]
        self.pos = 0
        self.line_num = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= len(self.lines):
            raise StopIteration
        self.pos += 1
        self.line_num += 1
        return list(self.lines[self.pos - 1])


class DictLines:
    def __init__(self, lines):
        self.reader = Lines(lines)
        self.names = None

    @property
    def fieldnames(self):
        while self.names is None:
            try:
                row = next(self.reader)
            except StopIteration:
                return None
            self.names = row
        return self.names

    @property
    def line_num(self):
        return self.reader.line_num

    def __iter__(self):
        return self

    def __next__(self):
        names = self.fieldnames
        row = next(self.reader)
        while row == []:
            row = next(self.reader)
        return {k: v for k, v in zip(names, row)}


class FakeCsv:
    """stands in for the csv module; knows the contents of the files"""
    QUOTE_MINIMAL, QUOTE_ALL, QUOTE_NONE = real_csv.QUOTE_MINIMAL, real_csv.QUOTE_ALL, real_csv.QUOTE_NONE
    Error = real_csv.Error

    def __init__(self):
        self.files = {}

    def content(self, f, dialect, delimiter, quotechar, skipinitialspace=False, quoting=real_csv.QUOTE_MINIMAL, doublequote=True, strict=False):
        path = f.name
        lines, minimal = self.files[path]
        if delimiter != "," or quotechar != '"' or not doublequote or not quoting in (real_csv.QUOTE_MINIMAL, real_csv.QUOTE_ALL) or not dialect in ("excel", "unix", real_csv.excel):
            raise Exception("another dialect")
        if skipinitialspace and minimal:
            lines = [[cell if any([c in cell for c in ',"\r\n']) else cell.lstrip(" ") for cell in line] for line in lines]
        if PROBE not in f.read():
            # opened with translation of line ends, also inside a cell
            lines = [[cell.replace("\r\n", "\n").replace("\r", "\n") for cell in line] for line in lines]
        return lines

    def reader(self, f, dialect="excel", delimiter=",", quotechar='"', **options):
        return Lines(self.content(f, dialect, delimiter, quotechar, **options))

    def DictReader(self, f, fieldnames=None, dialect="excel", delimiter=",", quotechar='"', **options):
        return DictLines(self.content(f, dialect, delimiter, quotechar, **options))


class Recording(SomeDataSource):
    def __init__(self):
        self.inserts = []

    def insert(self, table, columns, values):
        self.inserts.append((table, list(columns), list(values)))

    def select(self, table, columns, values):
        raise Exception("not asked for")

    def clear(self):
        raise Exception("nothing may be removed")


PROBE = "\r\n"
ALPHABET = "a1-,\"\n |\r"


def write(ctx, fake, path, lines, minimal):
    with open(path, "w", newline="") as f:
        if ctx.symbolic:
            f.write(PROBE.join(["x"] * (len(lines) + 1)))
        else:
            real_csv.writer(f, quoting=real_csv.QUOTE_MINIMAL if minimal else real_csv.QUOTE_ALL, lineterminator="\r\n" if minimal else "\n").writerows(lines)
    fake.files[path] = (lines, minimal)


def imported(ctx, width, rows, files, alphabet=ALPHABET, length=2):
    """one or two files into one data source"""
    fake = FakeCsv()
    if ctx.symbolic:
        module.csv = fake
    folder = tempfile.mkdtemp()
    paths = []
    try:
        recording, store = Recording(), SimpleDataSource()
        want = []
        importer = CsvImporter()
        for k in range(files):
            table = ctx.choice(f"table{k}", ["t", "u"]) if files > 1 else "t"
            headers = ["a", "b", "c"][:width] if k == 0 or not ctx.flag("other order") else ["c", "b", "a"][-width:]
            lines = [headers]
            for r in range(rows):
                for _ in range(ctx.choice(f"empty{k}.{r}", [0, 1, 2]) if r < 2 and k == 0 else 0):
                    lines.append([])
                row = [ctx.str(f"v{k}.{r}.{c}", length if r + c == 0 and files == 1 else 1, ALPHABET if files > 1 or (r, c) != (0, 0) else alphabet) if r + c < 2 and r + k + c < 2 else "x" + str(c) for c in range(width)]
                lines.append(row)
                want.append((table, headers, row))
            if k == 0 and ctx.flag("empty before"):
                lines.insert(0, [])
            if ctx.flag(f"empty after {k}"):
                lines.append([])
            path = os.path.join(folder, f"f{k}.csv")
            paths.append(path)
            write(ctx, fake, path, lines, k == 1 or ctx.flag("minimal quotes"))
            importer.import_table_from_file(table, path, recording)
            importer.import_table_from_file(table, path, store)
        ctx.check(len(recording.inserts) == len(want), "every row once, no other")
        for got, exp in zip(recording.inserts, want):
            ctx.check(got[0] == exp[0], "into the table")
            ctx.check(ctx.eq(dict(zip(got[1], got[2])), dict(zip(exp[1], exp[2]))) and len(got[1]) == len(got[2]) == width, "each cell under its header, as it is, in the order of the file")
        for table in ("t", "u"):
            records = store.select(table, ["a", "b", "c"], [None] * 3)
            ctx.check(ctx.eq(records, [[dict(zip(h, r)).get(c) for c in "abc"] for t, h, r in want if t == table]), "the records are found again")
        ctx.cover("rows" if len(want) > 0 else "no rows")
    finally:
        module.csv = real_csv
        for path in paths:
            os.remove(path)
        os.rmdir(folder)


def large(ctx, width, rows, at):
    """a file of many lines and columns, with any text in one cell"""
    fake = FakeCsv()
    if ctx.symbolic:
        module.csv = fake
    folder = tempfile.mkdtemp()
    path = os.path.join(folder, "f.csv")
    try:
        recording, store = Recording(), SimpleDataSource()
        headers = [f"h{c}" for c in range(width)]
        cells = [[f"{r}" if c == 0 else f"x{c}" * (1 + (r * c) % 40) if c % 3 else "" for c in range(width)] for r in range(rows)]
        cells[at][width - 1] = ctx.str("v", 2, ALPHABET)
        if at > 0:
            cells[at - 1] = list(cells[at])
        lines = [headers] + cells
        write(ctx, fake, path, lines, ctx.flag("minimal quotes"))
        importer = CsvImporter()
        importer.import_table_from_file("t", path, recording)
        importer.import_table_from_file("t", path, store)
        ctx.check(len(recording.inserts) == rows, "every row once, no other")
        ctx.check(all([t == "t" for t, h, r in recording.inserts]) and ctx.all_([ctx.eq(dict(zip(h, r)), dict(zip(headers, row))) for (t, h, r), row in zip(recording.inserts, cells)]),
                  "each cell under its header, as it is, in the order of the file")
        ctx.check(ctx.eq(store.select("t", headers, [None] * width), cells), "the records are found again")
    finally:
        module.csv = real_csv
        os.remove(path)
        os.rmdir(folder)


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for width in (1, 2, 3):
        for rows in (0, 1, 2) + ((3,) if deep else ()):
            out.append(Ob(f"{width} columns {rows} rows", imported, dict(width=width, rows=rows, files=1), covers=["rows" if rows else "no rows"],
                          bounds="texts of at most 2 characters out of a 1 - , \" newline space |"))
    out.append(Ob("numbers", imported, dict(width=1, rows=1, files=1, alphabet="+-.01eE_ ", length=4 if deep else 3), covers=["rows"], bounds="texts of at most 3 (4) characters out of + - . 0 1 e E _ space"))
    out.append(Ob("words", imported, dict(width=1, rows=1, files=1, alphabet="trueNonlaTUEif", length=6 if deep else 5), covers=["rows"], bounds="texts of at most 5 (6) letters, true, None and null among them"))
    out.append(Ob("two files", imported, dict(width=2, rows=1, files=2), covers=["rows"], bounds="one row per file"))
    for width, rows, at in ((2, 150, 149), (2, 150, 75), (30, 3, 1)):
        out.append(Ob(f"large {width} {rows} {at}", large, dict(width=width, rows=rows, at=at), bounds=f"{rows} lines of {width} columns, any text of at most 2 characters in one cell"))
    return out
