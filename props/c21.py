"""C21 pipeline blocks try exactly the documented alternatives"""
from props.common import *
from richard.block.FindAll import FindAll
from richard.block.FindOne import FindOne
from richard.block.TryFirst import TryFirst
from richard.core.System import System
from richard.entity.ProcessResult import ProcessResult
from richard.entity.SentenceRequest import SentenceRequest
from richard.interface.Product import SomeProduct
from richard.interface.SomeProcessor import SomeProcessor

ASSUMPTIONS = ["a processor delivers at least one product or an error"]

BLOCKS = {"one": FindOne, "all": FindAll, "first": TryFirst}


class Thing(SomeProduct):
    def __init__(self, path):
        self.path = path

    def get_output(self):
        return self.path

    def log(self, logger):
        pass


class Alike(Thing):
    """alternatives that are equal, and empty"""

    def __eq__(self, other):
        return isinstance(other, Alike)

    def __hash__(self):
        return 1

    def __len__(self):
        return 0


class World:
    """what each processor delivers, given the alternatives under consideration before it"""

    def __init__(self, ctx, most, thing=Thing):
        self.ctx = ctx
        self.thing = thing
        self.most = most
        self.decided = {}
        self.code = ctx.int("code")
        self.trace = []

    def outcome(self, path):
        """0: an error; n: the number of alternatives"""
        if not path in self.decided:
            level = len(path)
            self.decided[path] = self.ctx.choice("outcome " + ".".join([str(p) for p in path]), list(range(self.most[level] + 1)))
        return self.decided[path]

    def error(self, path):
        return "error" + "_".join([str(p) for p in path]), [self.code, len(path)]


class Stub(SomeProcessor):
    def __init__(self, world, level):
        super().__init__()
        self.world = world
        self.level = level
        self.before = []

    def get_name(self):
        return "stub " + str(self.level)

    def process(self, request):
        path = ()
        for p in self.before:
            product = request.get_current_product(p)
            path = product.path
        self.world.trace.append(("process", path, [request.get_current_product(p).path for p in self.before]))
        n = self.world.outcome(path)
        if n == 0:
            t, a = self.world.error(path)
            return ProcessResult([], t, list(a))
        return ProcessResult([self.world.thing(path + (i,)) for i in range(n)], "")


def expected(world, kinds, path, trace, collected, current):
    """(error type, error args): the documented order"""
    level = len(path)
    if level == len(kinds):
        return "", []
    trace.append(("process", path, [path[:k + 1] for k in range(level)]))
    n = world.outcome(path)
    if n == 0:
        return world.error(path)
    kind = kinds[level]
    if kind == "all":
        collected[level] = collected[level] + [path + (i,) for i in range(n)]
    else:
        collected[level] = [path + (i,) for i in range(n)]
    first = None
    success = False
    for i in range(n):
        current[level] = path + (i,)
        e = expected(world, kinds, path + (i,), trace, collected, current)
        if e[0] == "":
            success = True
            if kind == "one":
                break
        elif first is None:
            first = e
        if kind == "first":
            break
    return ("", []) if success else first


def pipeline(ctx, kinds, most, repeat=False, alike=False):
    world = World(ctx, most, Alike if alike else Thing)
    stubs = [Stub(world, i) for i in range(len(kinds))]
    for i, s in enumerate(stubs):
        s.before = stubs[:i]
    blocks = [BLOCKS[k](s) for k, s in zip(kinds, stubs)]
    System(input_pipeline=blocks)
    for turn in range(2 if repeat else 1):
        world.trace = []
        request = SentenceRequest("x")
        result = blocks[0].process(request)
        trace, collected, current = [], [[] for k in kinds], [None for k in kinds]
        want = expected(world, kinds, (), trace, collected, current)
        ctx.observe("result", result.error_type)
        ctx.check(world.trace == trace, "the documented alternatives are tried, in order, each seeing the current ones")
        ctx.check(result.error_type == want[0], "success if the blocks allow it, and otherwise the first error")
        ctx.check(ctx.eq(result.error_args, want[1]) if want[0] != "" else True, "with its arguments")
        for i, s in enumerate(stubs):
            ctx.check([p.path for p in request.get_alternative_products(s)] == collected[i], "the alternatives considered")
            got = request.get_current_product(s)
            ctx.check((None if got is None else got.path) == current[i], "the current alternative")
        if result.error_type == "":
            ctx.cover("success")
        else:
            ctx.cover("failure")




def entering(ctx, kind):
    """the system returns the output of the last processor, or stores the error"""
    world = World(ctx, [2, 2])
    stubs = [Stub(world, 0), Stub(world, 1)]
    stubs[1].before = stubs[:1]
    facts = Facts({"output_type": []})
    known = {}
    for path in [(), (0,), (1,)]:
        known["output_" + world.error(path)[0]] = path
        facts.tables["output_" + world.error(path)[0]] = []
        facts.add_relation(Relation("output_" + world.error(path)[0], arguments=["a", "b"], query_function=facts.query, write_function=facts.write))
    system = System(model=Model([facts]), input_pipeline=[BLOCKS[kind](stubs[0]), FindOne(stubs[1])])
    output = system.enter(SentenceRequest("x"))
    current = [None, None]
    want = expected(world, [kind, "one"], (), [], [[], []], current)
    if want[0] == "":
        ctx.cover("success")
        ctx.check(output == current[1] and facts.written == [], "the output of the last processor")
    else:
        ctx.cover("failure")
        ctx.check(ctx.eq(facts.written, [("output_type", [want[0]]), ("output_" + want[0], want[1])]), "the error is stored for the output")


class Large(World):
    """many alternatives, of which only some lead somewhere"""

    def __init__(self, ctx, n):
        super().__init__(ctx, [])
        self.n = n
        self.good = [ctx.int("good"), ctx.int("other")]

    def outcome(self, path):
        if not path in self.decided:
            if len(path) == 0:
                self.decided[path] = self.n
            else:
                hit = path[-1] == self.good[0] or path[-1] == self.good[1] if len(path) == 1 else path[-1] == 0
                self.decided[path] = (2 if len(path) == 1 else 1) if hit else 0
        return self.decided[path]


def many(ctx, kinds, n):
    world = Large(ctx, n)
    stubs = [Stub(world, i) for i in range(len(kinds))]
    for i, s in enumerate(stubs):
        s.before = stubs[:i]
    blocks = [BLOCKS[k](s) for k, s in zip(kinds, stubs)]
    System(input_pipeline=blocks)
    request = SentenceRequest("x")
    result = blocks[0].process(request)
    trace, collected, current = [], [[] for k in kinds], [None for k in kinds]
    want = expected(world, kinds, (), trace, collected, current)
    ctx.check(world.trace == trace, "the documented alternatives are tried, in order, each seeing the current ones")
    ctx.check(result.error_type == want[0] and (want[0] == "" or ctx.eq(result.error_args, want[1])), "success if the blocks allow it, and otherwise the first error")
    for i, s in enumerate(stubs):
        ctx.check([p.path for p in request.get_alternative_products(s)] == collected[i], "the alternatives considered")
        got = request.get_current_product(s)
        ctx.check((None if got is None else got.path) == current[i], "the current alternative")
    ctx.cover("success" if want[0] == "" else "failure")


def long_pipeline(ctx, n):
    """many blocks, an error in any of them"""
    kinds = [["one", "all", "first"][i % 3] for i in range(n)]
    bad = ctx.int("bad", 0, n)
    world = World(ctx, [1] * n)
    world.outcome = lambda path: 0 if len(path) == bad else 1
    stubs = [Stub(world, i) for i in range(n)]
    for i, s in enumerate(stubs):
        s.before = stubs[:i]
    blocks = [BLOCKS[k](s) for k, s in zip(kinds, stubs)]
    System(input_pipeline=blocks)
    result = blocks[0].process(SentenceRequest("x"))
    trace = []
    want = expected(world, kinds, (), trace, [[] for k in kinds], [None for k in kinds])
    ctx.check(world.trace == trace, "every processor once, up to the error")
    ctx.check(result.error_type == want[0], "the error, or success")
    ctx.cover("success" if want[0] == "" else "failure")


def obligations(tier):
    deep = tier == "thorough"
    out = []
    for a in BLOCKS:
        out.append(Ob(f"{a}", pipeline, dict(kinds=[a], most=[4], repeat=True), covers=["success", "failure"], bounds="at most 4 alternatives, an error or success for each"))
        for b in BLOCKS:
            out.append(Ob(f"{a} {b}", pipeline, dict(kinds=[a, b], most=[3, 3], repeat=True), covers=["success", "failure"], bounds="at most 3 alternatives per processor, an error or success for each, two sentences"))
            out.append(Ob(f"{a} {b} alike", pipeline, dict(kinds=[a, b], most=[2, 3], alike=True), covers=["success", "failure"], bounds="at most 3 alternatives per processor that are equal to each other, an error or success for each"))
            for c in BLOCKS:
                big = [3, 3, 2] if deep else [3, 2, 2]
                out.append(Ob(f"{a} {b} {c}", pipeline, dict(kinds=[a, b, c], most=big), covers=["success", "failure"],
                              bounds=f"at most {big} alternatives, an error or success for each"))
    if deep:
        out.append(Ob("four", pipeline, dict(kinds=["one", "all", "one", "first"], most=[2, 2, 2, 1]), covers=["success", "failure"], bounds="4 blocks of at most 2 alternatives"))
    for a in BLOCKS:
        out.append(Ob(f"entering {a}", entering, dict(kind=a), covers=["success", "failure"], bounds="two processors of at most 2 alternatives"))
    for a in BLOCKS:
        for b in BLOCKS:
            out.append(Ob(f"many {a} {b}", many, dict(kinds=[a, b], n=30), covers=["success", "failure"], bounds="30 alternatives, any two of them lead somewhere"))
        out.append(Ob(f"many {a} all one", many, dict(kinds=[a, "all", "one"], n=20), covers=["success", "failure"], bounds="20 alternatives, any two of them lead somewhere"))
    out.append(Ob("long pipeline", long_pipeline, dict(n=20), covers=["success", "failure"], bounds="20 blocks, an error in any one of them or none"))
    return out
