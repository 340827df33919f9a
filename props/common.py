"""shared harness parts (run both symbolically, instrumented, and concretely, as plain Python)"""
from symx.ob import Ob
from richard.core.Model import Model
from richard.core.Solver import Solver
from richard.entity.Relation import Relation
from richard.entity.Variable import Variable
from richard.interface.SomeModule import SomeModule


class Facts(SomeModule):
    """relations with a fixed list of rows: a query returns the rows that agree with the given (not None) values"""

    def __init__(self, tables):
        super().__init__()
        self.tables = tables
        self.calls = []
        self.written = []
        for name in tables:
            self.add_relation(Relation(name, arguments=["c" + str(i) for i in range(3)], query_function=self.query,
                                       write_function=self.write))

    def query(self, values, context):
        name = context.relation.predicate
        self.calls.append((name, list(values)))
        out = []
        for row in self.tables[name]:
            ok = True
            for a, b in zip(row, values):
                if b is not None and not a == b:
                    ok = False
            if ok:
                out.append(list(row))
        return out

    def write(self, values, context):
        self.written.append((context.relation.predicate, list(values)))
        self.tables[context.relation.predicate].append(list(values))


def int_table(ctx, name, rows, cols, lo=None, hi=None):
    return [[ctx.int(f"{name}{r}{'abcdef'[c]}", lo, hi) for c in range(cols)] for r in range(rows)]


def mixed_value(ctx, name, kinds=("int", "0", "''", "'0'")):
    """a value of one of several types, falsy ones included; 'int' is an arbitrary integer"""
    k = ctx.choice(name + ".kind", kinds)
    if k == "int":
        return ctx.int(name)
    if k == "0":
        return 0
    if k == "''":
        return ""
    if k == "'0'":
        return "0"
    if k == "str":
        return ctx.str(name, 1, "01a'\"", 1)
    if k == "neg":
        return -1
    if k == "1.5":
        return 1.5
    if k == "None":
        return None
    return k


def clone(x):
    """a structural copy (variables and other objects are shared)"""
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, tuple):
        return tuple([clone(v) for v in x])
    if isinstance(x, list):
        return [clone(v) for v in x]
    return x


def visible(binding):
    """a binding without the variables that have 'no value' """
    return {k: v for k, v in binding.items() if v is not None}


def is_var(x):
    return isinstance(x, Variable)


class Trace(SomeModule):
    """mark(n): succeeds and records n (and the binding it saw)"""

    def __init__(self):
        super().__init__()
        self.marks = []
        self.bindings = []
        self.add_relation(Relation("mark", arguments=["n"], query_function=self.mark, write_function=self.write))
        self.written = []

    def mark(self, values, context):
        self.marks.append(values[0])
        self.bindings.append(dict(context.binding))
        return [[None]]

    def write(self, values, context):
        self.written.append(values[0])


def combos(lists):
    if len(lists) == 0:
        return [[]]
    rest = combos(lists[1:])
    return [[x] + r for x in lists[0] for r in rest]


def reference_answers(ctx, tables, atoms, binding):
    """all (formula, assignment) pairs: one per way to pick a row for every atom"""
    out = []
    for rows in combos([tables[a[0]] for a in atoms]):
        cond = []
        asg = dict(binding)
        for atom, row in zip(atoms, rows):
            for arg, cell in zip(atom[1:], row):
                if is_var(arg):
                    if arg.name in asg:
                        cond.append(ctx.eq(asg[arg.name], cell))
                    else:
                        asg[arg.name] = cell
                else:
                    cond.append(ctx.eq(arg, cell))
        out.append((ctx.all_(cond), asg))
    return out


def check_answers(ctx, results, expected, label, distinct=True):
    """results (list of dicts) are exactly the expected assignments"""
    for r in results:
        ctx.check(ctx.any_([ctx.all_([f, ctx.eq(r, a)]) for f, a in expected]), label + ": every answer is a solution")
    for f, a in expected:
        ctx.check(ctx.implies(f, ctx.any_([ctx.eq(r, a) for r in results])), label + ": every solution is an answer")
    if distinct:
        ctx.check(ctx.distinct(results), label + ": no answer is given twice")
