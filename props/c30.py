"""C30 a question is answered by the facts, from text to output"""
from props.common import *
from richard.block.FindAll import FindAll
from richard.block.FindOne import FindOne
from richard.block.TryFirst import TryFirst
from richard.core.BasicGenerator import BasicGenerator
from richard.core.System import System
from richard.core.constants import E1, E2, E3, e1, e2, e3, Body
from richard.entity.SentenceRequest import SentenceRequest
from richard.grammar.en_us_write import get_en_us_write_grammar
from richard.module.BasicDialogContext import BasicDialogContext
from richard.module.BasicOutputBuffer import BasicOutputBuffer
from richard.module.InferenceModule import InferenceModule
from richard.module.helper.SimpleInferenceRuleParser import SimpleInferenceRuleParser
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.processor.parser.helper.grammar_functions import apply
from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
from richard.processor.semantic_executor.AtomExecutor import AtomExecutor
from richard.type.SemanticTemplate import SemanticTemplate

ASSUMPTIONS = ["the application is the one in the harness: its grammar, rules and relations (people, who like each other)", "facts are distinct"]

RULES = """
# what the answers are
intent_yn(Body) :- ( scoped(Body), store(output_type('yes')) ; store(output_type('no')) ).
intent_list(X, Body) :- find_all(X, Body, Elements), store(output_type('list'), output_list(Elements)).
intent_value(X, Body) :- find_one(X, Body, Value), store(output_type('value'), output_value(Value)).
intent_ok() :- store(output_type('ok')).

# knowledge
adore(X, Y) :- like(X, Y), like(Y, X).
adore(X, X) :- like(X, X).
trust(X, Y) :- adore(X, Z), like(Z, Y).
"""

READ = [
    # sentences
    {"syn": "s(E1) -> 'does' np(E1) vp(E1)+'?'", "sem": lambda np, vp: [("intent_yn", apply(np, vp))]},
    {"syn": "s(E1) -> 'which' nbar(E1) vp(E1)+'?'", "sem": lambda nbar, vp: [("intent_list", e1, nbar + vp)]},
    {"syn": "s(E2) -> 'which' nbar(E2) 'does' np(E1) tv(E1, E2)+'?'", "sem": lambda nbar, np, tv: [("intent_list", e2, nbar + apply(np, tv))]},
    {"syn": "s(E3) -> 'how many' nbar(E1) vp(E1)+'?'", "sem": lambda nbar, vp: [("intent_value", e3, [("count", E3, nbar + vp)])]},
    {"syn": "s(E1) -> pn(E1) tv(E1, E2) pn(E2)+'.'", "sem": lambda p1, tv, p2: [("intent_ok",)], "exec": lambda p1, tv, p2: p1 + p2 + [("store", tv)]},
    {"syn": "s(E1) -> noun(E1)+'s' tv(E1, E2) noun(E2)+'s'+'.'", "sem": lambda n1, tv, n2: [("intent_ok",)],
     "exec": lambda n1, tv, n2: [("learn_rule", tv[0], n1 + n2)]},
    {"syn": "s(E1) -> 'the' noun(E1) 'is' pn(E1)+'.'", "sem": lambda noun, pn: [("intent_ok",)], "exec": lambda noun, pn: pn + [("store", noun)]},
    # verb phrases
    {"syn": "vp(E1) -> tv(E1, E2) np(E2)", "sem": lambda tv, np: apply(np, tv)},
    {"syn": "vp(E1) -> 'not' vp(E1)", "sem": lambda vp: [("not", vp)]},
    {"syn": "vp(E1) -> tv(E1, E1) 'self'", "sem": lambda tv: tv},
    {"syn": "tv(E1, E2) -> 'like'", "sem": lambda: [("like", E1, E2)]},
    {"syn": "tv(E1, E2) -> 'likes'", "sem": lambda: [("like", E1, E2)]},
    {"syn": "tv(E1, E2) -> 'adore'", "sem": lambda: [("adore", E1, E2)]},
    {"syn": "tv(E1, E2) -> 'adores'", "sem": lambda: [("adore", E1, E2)]},
    {"syn": "tv(E1, E2) -> 'trust'", "sem": lambda: [("trust", E1, E2)]},
    # noun phrases
    {"syn": "np(E1) -> pn(E1)", "sem": lambda pn: SemanticTemplate([Body], pn + Body)},
    {"syn": "np(E1) -> 'every' nbar(E1)", "sem": lambda nbar: SemanticTemplate([Body], [("scoped", [("all", E1, nbar, Body)])])},
    {"syn": "np(E1) -> 'some' nbar(E1)", "sem": lambda nbar: SemanticTemplate([Body], [("scoped", nbar + Body)])},
    {"syn": "np(E1) -> 'no' nbar(E1)", "sem": lambda nbar: SemanticTemplate([Body], [("none", nbar + Body)])},
    {"syn": "np(E1) -> 'one' nbar(E1)", "sem": lambda nbar: SemanticTemplate([Body], [("det_equals", nbar + Body, 1)])},
    {"syn": "np(E1) -> 'two' nbar(E1)", "sem": lambda nbar: SemanticTemplate([Body], [("det_equals", nbar + Body, 2)])},
    {"syn": "nbar(E1) -> noun(E1)", "sem": lambda noun: noun},
    {"syn": "nbar(E1) -> noun(E1) 'that' vp(E1)", "sem": lambda noun, vp: noun + vp},
    {"syn": "noun(E1) -> 'man'", "sem": lambda: [("man", E1)]},
    {"syn": "noun(E1) -> 'woman'", "sem": lambda: [("woman", E1)]},
    {"syn": "pn(E1) -> 'Ann'", "sem": lambda: [("resolve_name", "ann", E1)]},
    {"syn": "pn(E1) -> 'Bob'", "sem": lambda: [("resolve_name", "bob", E1)]},
]

WRITE = [
    {"syn": "s() -> 'OK'", "if": [("output_type", "ok")]},
    {"syn": "s() -> 'yes'", "if": [("output_type", "yes")]},
    {"syn": "s() -> 'no'", "if": [("output_type", "no")]},
    {"syn": "s() -> text(E1)", "if": [("output_type", "value"), ("output_value", E1)]},
    {"syn": "s() -> 'list:' format(E1)", "if": [("output_type", "list"), ("output_list", E1)], "format": lambda elements: ",".join([str(e) for e in elements])},
]


class People(Facts):
    """facts with sizes, and names"""

    def __init__(self, tables, names, sizes):
        super().__init__(tables)
        for name in tables:
            self.relations[name].relation_size = sizes[name]
            self.relations[name].argument_sizes = [sizes[name]] * (2 if name == "like" else 1)
        self.names = names
        self.add_relation(Relation("resolve_name", query_function=self.resolve_name))

    def resolve_name(self, values, context):
        return [[name, n] for name, n in self.names if name == values[0] and (values[1] is None or values[1] == n)]


class Dialog:
    def __init__(self, ctx, mans, womans, likes, optimize, blocks):
        self.ctx = ctx
        # the entities of Ann and Bob, and of others
        self.tables = {"man": int_table(ctx, "man", mans, 1), "woman": int_table(ctx, "woman", womans, 1), "like": int_table(ctx, "like", likes, 2)}
        for rows in self.tables.values():
            ctx.assume(ctx.distinct(rows))
        names = {"ann": ctx.int("ann"), "bob": ctx.int("bob")}
        self.names = names
        self.learned = []
        self.ref = clone(self.tables)
        sizes = {"man": 100, "woman": 50, "like": ctx.choice("size", [1000, 10]) if optimize else 1000}
        self.people = People(self.tables, list(names.items()), sizes)
        self.buffer = BasicOutputBuffer()
        inferences = InferenceModule()
        for rule in SimpleInferenceRuleParser().parse(RULES)[0]:
            inferences.insert_rule(rule)
        model = Model([self.people, inferences, self.buffer])
        parser = BasicParser(SimpleGrammarRulesParser().parse_read_grammar(READ))
        composer = SemanticComposer(parser, query_optimizer=BasicQueryOptimizer(model) if optimize else None)
        executor = AtomExecutor(composer, model)
        generator = BasicGenerator(SimpleGrammarRulesParser().parse_write_grammar(get_en_us_write_grammar() + WRITE), model, self.buffer)
        self.system = System(model=model, output_generator=generator, input_pipeline=[b(p) for b, p in zip(blocks, [parser, composer, executor])])

    # ---- what the sentences mean

    def noun(self, n):
        """the entities, each once"""
        out = []
        for row in self.ref[n]:
            if row[0] not in out:
                out.append(row[0])
        return out

    def verb(self, v, x, y):
        for name, n1, n2 in self.learned:
            if name == v and x in self.noun(n1) and y in self.noun(n2):
                return True
        if v == "like":
            return [x, y] in self.ref["like"]
        if v == "adore":
            return self.verb("like", x, y) and self.verb("like", y, x)
        if v == "trust":
            for row in self.everyone():
                if self.verb("adore", x, row) and self.verb("like", row, y):
                    return True
            return False

    def everyone(self):
        out = []
        for rows in self.ref.values():
            for row in rows:
                for e in row:
                    if e not in out:
                        out.append(e)
        return out

    def nbar(self, p):
        noun, vp = p
        return [e for e in self.noun(noun) if vp is None or self.vp(vp, e)]

    def vp(self, p, x):
        if p[0] == "not":
            return not self.vp(p[1], x)
        if p[0] == "self":
            return self.verb(p[1], x, x)
        return self.np(p[1], lambda y: self.verb(p[0], x, y))

    def np(self, p, scope):
        if p[0] == "name":
            return scope(self.names[p[1]])
        found = self.nbar(p[1])
        holds = [e for e in found if scope(e)]
        if p[0] == "every":
            return len(found) > 0 and len(holds) == len(found)
        return {"some": len(holds) > 0, "no": len(holds) == 0, "one": len(holds) == 1, "two": len(holds) == 2}[p[0]]

    def said(self, kind, *parts):
        """the expected answer"""
        if kind == "does":
            return "yes" if self.np(parts[0], lambda x: self.vp(parts[1], x)) else "no"
        if kind == "which":
            return [x for x in self.nbar(parts[0]) if self.vp(parts[1], x)]
        if kind == "which does":
            return [y for y in self.nbar(parts[0]) if self.np(parts[1], lambda x: self.verb(parts[2], x, y))]
        if kind == "how many":
            return len([x for x in self.nbar(parts[0]) if self.vp(parts[1], x)])
        if kind == "tell":
            self.ref["like"].append([self.names[parts[0]], self.names[parts[1]]])
        if kind == "kind":
            self.ref[parts[0]].append([self.names[parts[1]]])
        if kind == "learn":
            self.learned.append(parts)
        return "OK"

    def say(self, text, sentence):
        ctx = self.ctx
        _, exc = ctx.raises(lambda: self.system.enter(SentenceRequest(text)))
        ctx.check(exc is None, "the sentence is understood")
        want = self.said(*sentence)
        if isinstance(want, list):
            found = [r[0] for r in self.buffer.data_source.select("output_list", ["elements"], [None])]
            ctx.check(len(found) == 1, "one list")
            ctx.check(ctx.same_set(found[0], want) and ctx.distinct(found[0]), "exactly what the facts say, each once")
            ctx.check(ctx.eq(self.system.read_output(), "list: " + ",".join([str(e) for e in found[0]])), "the list is the output")
            ctx.cover("several" if len(want) > 1 else "none" if len(want) == 0 else "one")
        else:
            out = self.system.read_output()
            ctx.check(ctx.eq(out, str(want)), "the answer that follows from the facts")
            ctx.cover(str(want))


# ---- sentences: (text, structure)

NAMES = [("Ann", ("name", "ann")), ("Bob", ("name", "bob"))]


def noun_phrases(nouns):
    out = list(NAMES)
    for text, noun in nouns:
        for q in ("every", "some", "no", "one", "two"):
            out.append((q + " " + text, (q, noun)))
    return out


NOUNS = [("man", ("man", None)), ("woman", ("woman", None))]


def relative(verb, inner):
    return [(f"{n} that {verb} {text}", (n, (verb, np))) for n in ("man", "woman") for text, np in inner]


def question(ctx, kind, subjects, objects, verbs, negated, label=""):
    verb = ctx.choice("verb" + label, verbs)
    o, on = objects[ctx.choice("object" + label, list(range(len(objects))))]
    vp, meaning = (verb + " self", ("self", verb)) if on == "self" else (verb + " " + o, (verb, on))
    if ctx.choice("not" + label, negated):
        vp, meaning = "not " + vp, ("not", meaning)
    s, sn = subjects[ctx.choice("subject" + label, list(range(len(subjects))))]
    if kind == "does":
        return f"does {s} {vp}?", ("does", sn, meaning)
    if kind == "which does":
        return f"which {s} does {o} {verb}?", ("which does", sn, on, verb)
    return f"{kind} {s} {vp}?", (kind, sn, meaning)


def one(ctx, kind, subjects, objects, verbs, negated, rows, optimize, blocks="one"):
    d = Dialog(ctx, *rows, optimize, {"one": [FindOne, TryFirst, TryFirst], "all": [FindOne, FindAll, FindOne]}[blocks])
    d.say(*question(ctx, kind, subjects, objects, verbs, negated))


STATEMENTS = [("Ann likes Bob.", ("tell", "ann", "bob")), ("Bob likes Bob.", ("tell", "bob", "bob")), ("the man is Bob.", ("kind", "man", "bob")),
              ("mans like womans.", ("learn", "like", "man", "woman")), ("womans adore mans.", ("learn", "adore", "woman", "man"))]


def dialogue(ctx, kind, subjects, objects, verbs, statements, rows, optimize):
    """statements, questions in between, and a question"""
    d = Dialog(ctx, *rows, optimize, [FindOne, TryFirst, TryFirst])
    for t in range(statements):
        d.say(*STATEMENTS[ctx.choice(f"statement{t}", list(range(len(STATEMENTS))))])
    d.say(*question(ctx, kind, subjects, objects, verbs, [False]))


def large(ctx, kind, n, optimize):
    """more people"""
    d = Dialog(ctx, 1, 1, 1, optimize, [FindOne, TryFirst, TryFirst])
    men, women = list(range(100, 100 + n)), list(range(200, 200 + n))
    for which, more in (("man", [[m] for m in men]), ("woman", [[w] for w in women]), ("like", [[m, w] for m in men for w in women if (m + w) % 4] + [[w, m] for w in women[:3] for m in men])):
        for rows in (d.people.tables[which], d.ref[which]):
            rows.extend(clone(more))
    ctx.assume(ctx.all_([ctx.eq(d.ref["man"][0], [99]), ctx.eq(d.ref["woman"][0], [199])]))
    ctx.assume(d.ref["like"][0][0] == ctx.choice("liker", [100, 99, 200]))
    ctx.assume(ctx.all_([d.ref["like"][0][1] > 198, d.ref["like"][0][1] < 202 + n]))
    ctx.assume(ctx.all_([d.names["ann"] == 200, d.names["bob"] == 101]))
    nps = noun_phrases(NOUNS)
    objects = nps[:1] + [nps[7], nps[8], nps[11]]
    d.say(*question(ctx, kind, [nps[2], nps[3]] if kind == "does" else NOUNS[:1], objects, ["like"], [False]))


def obligations(tier):
    deep = tier == "thorough"
    out = []
    nps = noun_phrases(NOUNS)
    mans, womans = nps[:1] + nps[2:7], NAMES[1:] + nps[7:]
    for optimize in (False, True):
        o = " optimized" if optimize else ""
        for i, (s, sn) in enumerate(mans):
            out.append(Ob(f"does {s}{o}", one, dict(kind="does", subjects=[(s, sn)], objects=womans + [("self", "self")] if not optimize else womans, verbs=["like"], negated=[False, True], rows=(2, 1, 2), optimize=optimize),
                          covers=["yes", "no"], bounds="2 men, 1 woman, 2 likings, arbitrary entities, 2 names; 6 objects, negated or not"))
        for kind in ("which", "which does", "how many"):
            out.append(Ob(f"{kind}{o}", one, dict(kind=kind, subjects=NOUNS[:1], objects=womans, verbs=["like"], negated=[False, True] if kind != "which does" else [False], rows=(2, 1, 2), optimize=optimize),
                          covers=["one", "none"] if kind != "how many" else ["0", "1", "2"], bounds="2 men, 1 woman, 2 likings, arbitrary entities; 6 objects"))
        rel = relative("like", NAMES[:1] + nps[7:9])
        out.append(Ob(f"relative{o}", one, dict(kind="which", subjects=rel[:3], objects=NAMES[1:] + nps[7:9], verbs=["like"], negated=[False], rows=(2, 1, 2), optimize=optimize),
                      covers=["one", "none"], bounds="2 men, 1 woman, 2 likings; relative clauses"))
        out.append(Ob(f"relative object{o}", one, dict(kind="does", subjects=NAMES[:1], objects=noun_phrases(rel[3:4])[2:], verbs=["like"], negated=[False], rows=(1, 2, 2), optimize=optimize),
                      covers=["yes", "no"], bounds="1 man, 2 women, 2 likings; relative clauses"))
        out.append(Ob(f"rules{o}", one, dict(kind="which", subjects=NOUNS[:1], objects=NAMES[:1] + nps[8:9] + [("self", "self")], verbs=["adore", "trust"], negated=[False], rows=(1, 1, 2), optimize=optimize),
                      covers=["one", "none"], bounds="1 man, 1 woman, 2 likings; rules on rules"))
    out.append(Ob("does all blocks", one, dict(kind="does", subjects=[mans[1]], objects=womans, verbs=["like"], negated=[False], rows=(2, 1, 2), optimize=True, blocks="all"), covers=["yes", "no"], bounds="as above, another pipeline"))
    for kind in ("does", "which"):
        for optimize in (False, True):
            subjects = NAMES[:1] + nps[3:4] if kind == "does" else NOUNS[:1]
            out.append(Ob(f"dialogue {kind}{' optimized' if optimize else ''}", dialogue, dict(kind=kind, subjects=subjects, objects=NAMES[1:] + nps[7:8], verbs=["like", "adore"], statements=2 if deep else 1, rows=(1, 1, 1), optimize=optimize),
                          covers=["yes", "no"] if kind == "does" else ["one", "none"], bounds="1-2 of 5 statements (facts and rules), then a question; 1 man, 1 woman, 1 liking"))
    for kind in ("does", "which", "how many"):
        for optimize in (False, True):
            out.append(Ob(f"large {kind}{' optimized' if optimize else ''}", large, dict(kind=kind, n=6, optimize=optimize), bounds="7 men, 7 women, 46 likings, of which one is arbitrary within a range"))
    return out
