"""C29 a dialog test passes exactly when every answer is the expected one"""
import io
import sys
import unittest
from props.common import *
from props import c22
from props.c28 import marks
from richard.core.DialogTester import DialogTester
from richard.core.Logger import Logger, nullLogger
from richard.core.System import System


class Failed(Exception):
    pass


class Case:
    """stands in for a unittest.TestCase"""

    def __init__(self):
        self.compared = []

    def assertEqual(self, first, second, msg=None):
        self.compared.append((first, second))
        if not first == second:
            raise Failed("not equal")


class Talker:
    """a system with given answers; enters and reads are recorded"""

    def __init__(self, answers, generator, boom=None):
        self.answers = answers
        self.output_generator = self if generator else None
        self.boom = boom
        self.events = []
        self.loggers = []
        self.active = []
        self.n = -1

    def enter(self, request):
        self.n += 1
        self.events.append(("enter", request.text))
        self.loggers.append(request.logger)
        self.active.append(request.logger.is_active())
        if self.boom == ("enter", self.n):
            raise KeyError("«boom»")

    def read_output(self):
        self.events.append(("read", self.n))
        if self.boom == ("read", self.n):
            raise KeyError("«boom»")
        return self.answers[self.n]


class Paper:
    """collects what is printed"""

    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text = self.text + s
        return len(s)

    def flush(self):
        pass


def printed(ctx, fn):
    """(exception, what was printed)"""
    paper, old = Paper(), sys.stdout
    sys.stdout = paper
    try:
        _, exc = ctx.raises(fn)
    finally:
        sys.stdout = old
    return exc, paper.text


def choose_logger(ctx):
    logger = Logger()
    kind = ctx.choice("tests", ["default", "all", "none", "last"])
    if kind == "all":
        logger.log_all_tests()
    elif kind == "none":
        logger.log_no_tests()
    elif kind == "last":
        logger.log_only_last_test()
    return logger, kind


def dialog(ctx, n, alike):
    """n sentences with any answers and any expectations"""
    generator = ctx.flag("generator")
    questions = ["«q" + str(i if not alike or ctx.flag(f"other question {i}") else 0) + "»" for i in range(n)]
    answers = ["«" + ctx.str(f"answer{i}", 1, "ab") + "»" for i in range(n)]
    expected = ["«" + ctx.str(f"expected{i}", 1, "ab") + "»" if generator else ctx.choice(f"expected{i}", ["", "«a»"]) for i in range(n)]
    boom = None
    if n > 0 and not alike and ctx.flag("boom"):
        boom = (ctx.choice("where", ["enter", "read"] if generator else ["enter"]), ctx.choice("when", list(range(n))))
    logger, kind = choose_logger(ctx)
    case, talker = Case(), Talker(answers, generator, boom)
    as_tuples = ctx.flag("tuples") if n < 2 else False
    tests = [(q, e) if as_tuples else [q, e] for q, e in zip(questions, expected)]
    tester = DialogTester(case, tests, talker, logger)
    exc, text = printed(ctx, lambda: tester.run())
    # what should happen
    events, compared, log, active, end = [], [], [], [], None
    for i in range(n):
        logged = kind == "all" or (kind in ("default", "last") and i == n - 1)
        if logged:
            log.extend(["Human", questions[i][1:-1]])
        events.append(("enter", questions[i]))
        active.append(logged)
        if boom == ("enter", i):
            end = "error"
            break
        if generator:
            events.append(("read", i))
        if boom == ("read", i):
            end = "error"
            break
        out = answers[i] if generator else ""
        compared.append((out, expected[i]))
        same = ctx.eq(out, expected[i])
        if not same or logged:
            log.append("Computer")
            if out != "":
                log.append(out[1:-1])
        if not same:
            end = "failure"
            break
    ctx.cover({None: "passes", "failure": "fails", "error": "error"}[end])
    ctx.check(ctx.eq(talker.events, events), "the sentences in order, up to the first failure")
    ctx.check(ctx.eq(case.compared, compared), "each answer is compared with its own expectation")
    ctx.check({None: exc is None, "failure": isinstance(exc, Failed), "error": isinstance(exc, KeyError)}[end], "it fails exactly when something is wrong")
    ctx.check(all([l is logger for l in talker.loggers]), "the logger of the test")
    ctx.check(talker.active == active, "active for the tests that are logged")
    shown = str(logger).replace("[Human]", "«Human»").replace("[Computer]", "«Computer»")
    ctx.check(ctx.eq(marks(shown), log), "the log has the selected tests, and the one that fails")
    ctx.check(ctx.eq(marks(text), marks(str(logger)) if end is not None else []), "the log is shown when it fails")
    ctx.check(ctx.eq(tests, [(q, e) if as_tuples else [q, e] for q, e in zip(questions, expected)]), "the tests are left alone")


class Real(unittest.TestCase):
    def runTest(self):
        pass


def real_case(ctx, profile):
    """with unittest, with and without profiling"""
    answer, expected = ctx.choice("answer", ["a", "b", ""]), ctx.choice("expected", ["a", "b", ""])
    talker = Talker(["x", answer], True)
    logger = Logger()
    logger.log_no_tests()
    exc, text = printed(ctx, lambda: DialogTester(Real(), [["q", "x"], ["r", expected]], talker, logger, profile).run())
    ctx.check((exc is None) == (answer == expected), "it fails exactly when something is wrong")
    ctx.check(exc is None or isinstance(exc, AssertionError), "as a failed assertion")
    ctx.check(len(talker.events) == 4, "the sentences once")
    ctx.cover("passes" if exc is None else "fails")


def exactly(ctx, n, alphabet, generator):
    """any output and any expectation: they must be the same text"""
    answer, expected = ctx.str("answer", n, alphabet), ctx.str("expected", n, alphabet)
    logger = Logger()
    logger.log_no_tests()
    case, talker = Case(), Talker(["x", answer], generator)
    exc, text = printed(ctx, lambda: DialogTester(case, [["q", "x" if generator else ""], ["r", expected]], talker, logger).run())
    ctx.check(exc is None or isinstance(exc, Failed), "as a failed assertion")
    ctx.check(ctx.iff(exc is None, ctx.eq(answer if generator else "", expected)), "it passes exactly when the output is the expected text")
    ctx.cover("passes" if exc is None else "fails")


def empty(ctx):
    logger, kind = choose_logger(ctx)
    talker, case = Talker([], True), Case()
    exc, text = printed(ctx, lambda: DialogTester(case, [], talker, logger).run())
    ctx.check(exc is None and talker.events == [] and str(logger) == "" and text == "", "nothing to test")


def application(ctx, turns):
    """one ongoing dialog with a whole application; any expectation"""
    app, ref = c22.App(ctx, "app", c22.BLOCKS["first"], True, ["1"]), c22.App(ctx, "app", c22.BLOCKS["first"], True, ["1"])
    logger, kind = choose_logger(ctx)
    if ctx.flag("products"):
        logger.log_products()
        logger.log_stats()
    sentences = [ctx.choice(f"text{t}", ["a", "b 1?", "b 2?", "b 2", "a?", "", "b x"]) for t in range(turns)]
    answers = [ref.expected(s) for s in sentences]
    wrong = ctx.choice("wrong", list(range(turns)) + [None])
    expected = [ctx.choice(f"other", ["?", a + " ", ""]) if t == wrong else a for t, a in enumerate(answers)]
    case = Case()
    exc, text = printed(ctx, lambda: DialogTester(case, [[s, e] for s, e in zip(sentences, expected)], app.system, logger).run())
    ctx.check((exc is None) == (wrong is None), "it passes with the answers of one ongoing dialog")
    ctx.check(ctx.eq([c[0] for c in case.compared], answers[:turns if wrong is None else wrong + 1]), "the answers of the system")
    ctx.cover("passes" if exc is None else "fails")
    ctx.check(len(nullLogger.entries) == 0, "nothing is kept elsewhere")


def long_dialog(ctx, n):
    """a test of many sentences, any one of them with another answer"""
    wrong = ctx.int("wrong", -1, n)
    answers = [f"«answer {i}»" for i in range(n)]
    expected = [a + (" " if i == wrong else "") for i, a in enumerate(answers)]
    logger, kind = choose_logger(ctx)
    case, talker = Case(), Talker(answers, True)
    exc, text = printed(ctx, lambda: DialogTester(case, [[f"«q{i % 7}»", e] for i, e in enumerate(expected)], talker, logger).run())
    ctx.check(ctx.iff(exc is not None, ctx.all_([wrong >= 0, wrong < n])), "it fails exactly when one of the answers is another")
    done = wrong + 1 if exc is not None else n
    ctx.check(len(case.compared) == done and len(talker.events) == 2 * done, "all sentences up to the first failure")
    if kind == "all":
        shown = str(logger).replace("[Human]", "«Human»").replace("[Computer]", "«Computer»")
        log = []
        for i in range(done):
            log.extend(["Human", f"q{i % 7}", "Computer", f"answer {i}"])
        ctx.check(marks(shown) == log, "all of it in the log")
    ctx.cover("passes" if exc is None else "fails")


def obligations(tier):
    deep = tier == "thorough"
    out = [Ob("empty", empty, bounds="no tests, every setting")]
    for n in (1, 2, 3):
        out.append(Ob(f"dialog of {n}", dialog, dict(n=n, alike=False), covers=["passes", "fails", "error"],
                      bounds=f"{n} sentences; answers and expectations of at most 1 character, an error anywhere, 4 settings"))
    for n in (2, 3):
        out.append(Ob(f"repeated sentences {n}", dialog, dict(n=n, alike=True), covers=["passes", "fails"],
                      bounds=f"{n} sentences that may be the same; answers and expectations of at most 1 character, 4 settings"))
    for generator in (True, False):
        out.append(Ob(f"exactly {generator}", exactly, dict(n=3 if deep else 2, alphabet="aA .\n\t", generator=generator), covers=["passes", "fails"],
                      bounds="all outputs and expectations of at most 2-3 characters, with whitespace, case and punctuation"))
    for profile in (False, True):
        out.append(Ob(f"unittest {profile}", real_case, dict(profile=profile), covers=["passes", "fails"], bounds="two sentences, 3 answers and expectations"))
    out.append(Ob("application", application, dict(turns=3 if deep else 2), covers=["passes", "fails"], bounds="2-3 out of 7 sentences, one wrong expectation or none, 8 settings"))
    out.append(Ob("long dialog", long_dialog, dict(n=50), covers=["passes", "fails"], bounds="50 sentences; any one of them is wrong, or none; 4 settings"))
    return out
