"""C11 SPARQL queries carry exactly the given constraints; the cache is transparent"""
import os
import sys
import tempfile

from props import sqlstub
from props.common import *

ASSUMPTIONS = ["the requests library is replaced by an endpoint model: a reader of the query text with a strict grammar (IRI, prefixed name, "
               "literal with escapes and language, FILTER on LANG) over a small store of triples; it may hold texts as subjects",
               "sha1 and pickle run concretely: cached texts are enumerated by the solver within their alphabet; sha1 is taken to be free of collisions"]


class SparqlError(Exception):
    pass


class Endpoint:
    """stands in for the requests module: endpoints by url"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.stores = {}
        self.requests = []
        self.status = 200
        self.error_data = None

    def get(self, url, params=None, headers=None, **kw):
        self.requests.append((url, dict(params), dict(headers or {})))
        if self.status != 200:
            return Response(self.status, self.error_data)
        return Response(200, answer(self.stores[url], params["query"]))

    def post(self, url, data=None, headers=None, **kw):
        return self.get(url, data, headers)


class Response:
    def __init__(self, status, data):
        self.status_code = status
        self.data = data
        self.text = "the error"
        self.ok = status == 200

    def json(self):
        if self.data is None:
            raise ValueError("no JSON")
        return self.data

    def raise_for_status(self):
        if not self.ok:
            raise Exception("status")


ENDPOINT = Endpoint()
sys.modules["requests"] = sqlstub.fake("requests", get=ENDPOINT.get, post=ENDPOINT.post)

from richard.data_source.SparqlDataSource import SparqlDataSource, ID, TEXT, CONSTANT
from richard.data_source.WikidataDataSource import WikidataDataSource

ESCAPES = {"n": "\n", "r": "\r", "t": "\t", "\\": "\\", "'": "'", '"': '"'}


def lex(text):
    """the terms of a SPARQL query"""
    out = []
    i = 0
    n = len(text)
    while i < n:
        c = text[i]
        if c in " \n\t\r":
            i += 1
        elif c in "{}()=*,":
            out.append((c,))
            i += 1
        elif c == ".":
            out.append((".",))
            i += 1
        elif c == "<":
            j = i + 1
            while j < n and not text[j] in "<>\"{}|^`\\ \n":
                j += 1
            if j >= n or text[j] != ">":
                raise SparqlError("IRI")
            out.append(("iri", text[i + 1:j]))
            i = j + 1
        elif c == "?" or c == "$":
            j = i + 1
            while j < n and (text[j].isalnum() or text[j] == "_"):
                j += 1
            if j == i + 1:
                raise SparqlError("variable")
            out.append(("var", text[i + 1:j]))
            i = j
        elif c == "'" or c == '"':
            if text[i:i + 3] == c * 3:
                raise SparqlError("long literal: not used")
            value = ""
            j = i + 1
            while True:
                if j >= n:
                    raise SparqlError("literal without end")
                d = text[j]
                if d == c:
                    break
                if d == "\n" or d == "\r":
                    raise SparqlError("line end in literal")
                if d == "\\":
                    if j + 1 >= n or text[j + 1] not in "nrt\\'\"":
                        raise SparqlError("escape")
                    e = text[j + 1]
                    for k in "nrt\\'\"":
                        if e == k:
                            value = value + ESCAPES[k]
                            break
                    j += 2
                else:
                    value = value + d
                    j += 1
            i = j + 1
            lang = ""
            if i < n and text[i] == "@":
                j = i + 1
                while j < n and (text[j].isalnum() or text[j] == "-"):
                    j += 1
                if j == i + 1:
                    raise SparqlError("language")
                lang = text[i + 1:j]
                i = j
            out.append(("text", value, lang))
        elif c.isalnum() or c in "_-:":
            j = i
            while j < n and (text[j].isalnum() or text[j] in "_-:/"):
                j += 1
            out.append(("name", text[i:j]))
            i = j
        else:
            raise SparqlError("character")
    return out


def is_word(tok, word):
    return tok is not None and tok[0] == "name" and tok[1].upper() == word


class Parse:
    def __init__(self, toks):
        self.toks = toks
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def next(self):
        t = self.peek()
        if t is None:
            raise SparqlError("end")
        self.i += 1
        return t

    def sign(self, c):
        if self.next()[0] != c:
            raise SparqlError("expected " + c)

    def word(self, w):
        if not is_word(self.next(), w):
            raise SparqlError("expected " + w)

    def accept(self, c):
        t = self.peek()
        if t is not None and t[0] == c:
            self.i += 1
            return True
        return False


def parse(text):
    p = Parse(lex(text))
    p.word("SELECT")
    if is_word(p.peek(), "DISTINCT"):
        raise SparqlError("DISTINCT drops rows")
    variables = []
    if p.accept("*"):
        variables = None
    else:
        while p.peek() is not None and p.peek()[0] == "var":
            variables.append(p.next()[1])
        if len(variables) == 0:
            raise SparqlError("no variables")
    if is_word(p.peek(), "WHERE"):
        p.next()
    p.sign("{")
    triples, filters = [], []
    while not p.accept("}"):
        if is_word(p.peek(), "FILTER"):
            p.next()
            p.sign("(")
            p.word("LANG")
            p.sign("(")
            v = p.next()
            if v[0] != "var":
                raise SparqlError("filter")
            p.sign(")")
            p.sign("=")
            lit = p.next()
            if lit[0] != "text":
                raise SparqlError("filter")
            p.sign(")")
            filters.append((v[1], lit[1]))
            p.accept(".")
        else:
            t = (p.next(), p.next(), p.next())
            for x in t:
                if len(x) == 1:
                    raise SparqlError("term")
            triples.append(t)
            if not p.accept(".") and p.peek() is not None and p.peek()[0] != "}" and not is_word(p.peek(), "FILTER"):
                raise SparqlError("expected .")
    if p.peek() is not None:
        raise SparqlError("after the query")
    if len(triples) != 1:
        raise SparqlError("one triple")
    return variables, triples[0], filters


def answer(store, text):
    variables, triple, filters = parse(text)
    rows = []
    if triple[1][0] != "name":
        raise SparqlError("predicate")
    used = [t[1] for t in (triple[0], triple[2]) if t[0] == "var"]
    if variables is None:
        variables = used
    for v in variables + [f[0] for f in filters]:
        if v not in used:
            raise SparqlError("unused variable")
    for s, p, o in store:
        if p != triple[1][1]:
            continue
        row = {}
        ok = True
        for term, node in ((triple[0], s), (triple[2], o)):
            if term[0] == "var":
                if term[1] in row and not row[term[1]] == node:
                    ok = False
                row[term[1]] = node
            elif term[0] != node[0] or not term == node:
                ok = False
        for v, lang in filters:
            if ok and (row[v][0] != "text" or row[v][2] != lang):
                ok = False
        if ok:
            rows.append({v: {"type": row[v][0], "value": row[v][1]} for v in variables})
    return {"head": {"vars": variables}, "results": {"bindings": rows}}


# -------------------------------------------------------------------------------------------------- harnesses


def node(ctx, name, kind, alphabet, maxlen, langs):
    if kind == ID:
        return ("iri", ctx.str(name, 1, "ab", 1))
    if kind == CONSTANT:
        return ("name", "wd:" + ctx.str(name, 1, "ab", 1))
    if kind == "number":
        return ("name", ctx.choice(name, ["0", "7"]))
    return ("text", ctx.str(name, maxlen, alphabet, 0), ctx.choice(name + "lang", langs))


def given(ctx, name, kind, alphabet, maxlen):
    if kind == ID:
        return ctx.str(name, 1, "ab", 1)
    if kind == CONSTANT:
        return "wd:" + ctx.str(name, 1, "ab", 1)
    if kind == "number":
        return ctx.choice(name, [0, 7])
    return ctx.str(name, maxlen, alphabet, 0)


def term(kind, value, lang):
    if kind == ID:
        return ("iri", value)
    if kind == CONSTANT:
        return ("name", value)
    if kind == "number":
        return ("name", str(value))
    return ("text", value, lang)


def expected(store, table, columns, values, lang):
    out = []
    for s, p, o in store:
        if p != table:
            continue
        row = []
        for kind, value, n in ((columns[0], values[0], s), (columns[1], values[1], o)):
            if value is None:
                if kind == TEXT and (n[0] != "text" or n[2] != lang):
                    break
                row.append(n[1])
            else:
                if not n == term(kind, value, lang):
                    break
                row.append(value)
        if len(row) == 2:
            out.append(row)
    return out


def select(ctx, columns, alphabet, maxlen, facts, wikidata):
    ENDPOINT.reset()
    lang = "en" if wikidata else ctx.choice("lang", ["en", "nl", "zh-min-nan"])
    langs = [lang, "de"]
    if wikidata:
        source = WikidataDataSource()
        url = source.url
        headers = source.headers
    else:
        url = "http://a/sparql"
        headers = {"User-Agent": "x"}
        source = SparqlDataSource(url, headers=headers, lang=lang)
    store = [(node(ctx, f"s{i}", columns[0], alphabet, maxlen, langs), ctx.choice(f"p{i}", ["wdt:P1", "wdt:P2"]) if i else "wdt:P1",
              node(ctx, f"o{i}", columns[1], alphabet, maxlen, langs)) for i in range(facts)]
    ENDPOINT.stores = {url: store, "http://other": []}
    values = [given(ctx, f"g{i}", c, alphabet, maxlen) if ctx.flag(f"with{i}") else None for i, c in enumerate(columns)]
    before = clone([columns, values])
    got, exc = ctx.raises(lambda: source.select("wdt:P1", columns, values))
    ctx.check(exc is None, "the endpoint accepts the query")
    ctx.observe("got", got)
    ctx.check(ctx.eq(got, expected(store, "wdt:P1", columns, values, lang)), "the rows of exactly the given constraints, in order")
    ctx.check(ctx.eq([columns, values], before), "columns and values are unchanged")
    ctx.check(len(ENDPOINT.requests) == 1, "one request")
    sent = ENDPOINT.requests[0]
    ctx.check(sent[0] == url and sent[1].get("format") == "json" and sent[2] == headers, "to the source's endpoint, with its headers")
    if wikidata:
        ctx.check(url == "https://query.wikidata.org/sparql" and "User-Agent" in headers, "Wikidata's endpoint and a user agent")
    if len(got) > 0:
        ctx.cover("rows")


def errors(ctx):
    ENDPOINT.reset()
    folder = tempfile.mkdtemp()
    try:
        source = SparqlDataSource("http://a", result_cache_path=folder if ctx.flag("cached") else None)
        ENDPOINT.stores = {"http://a": [(("iri", "a"), "wdt:P1", ("iri", "b"))]}
        ENDPOINT.status = ctx.choice("status", [400, 403, 429, 500, 503])
        if ENDPOINT.status < 500:
            # whatever the body looks like
            ENDPOINT.error_data = ctx.choice("body", [None, {"head": {"vars": []}, "results": {"bindings": []}},
                                                      {"head": {"vars": ["term1"]}, "results": {"bindings": [{"term1": {"type": "uri", "value": "c"}}]}}])
        _, exc = ctx.raises(lambda: source.select("wdt:P1", [ID, ID], ["a", None]))
        ctx.check(exc is not None, "an error response is an error")
        ENDPOINT.status = 200
        got = source.select("wdt:P1", [ID, ID], ["a", None])
        ctx.check(ctx.eq(got, [["a", "b"]]), "an error is not remembered")
        ctx.check(len(ENDPOINT.requests) == 2, "the endpoint is asked again")
    finally:
        cleanup(folder)


def cleanup(folder):
    for f in os.listdir(folder):
        os.remove(os.path.join(folder, f))
    os.rmdir(folder)


URLS = ["http://a", "http://b"]


def stores(ctx, tag, alphabet):
    """different endpoints hold different things"""
    out = {}
    for u in URLS:
        text = "ab"[URLS.index(u)]
        out[u] = [(("iri", "a"), "wdt:P1", ("text", text + tag, "en")), (("iri", "a"), "wdt:P1", ("text", text + tag + "nl", "nl")),
                  (("iri", "a"), "wdt:P2", ("text", "other", "en")), (("iri", "b"), "wdt:P1", ("text", "'", "en")),
                  (("iri", "a"), "wdt:P1", ("iri", "i" + text))]
    return out


def cache(ctx, vary, alphabet, ops):
    """sources that share a cache folder: every select returns what its own endpoint answers for it"""
    ENDPOINT.reset()
    folder = tempfile.mkdtemp()
    path = folder
    mode = ctx.choice("folder", ["plain", "slash", "missing"]) if "folder" in vary else "plain"
    if mode == "slash":
        path = folder + "/"
    if mode == "missing":
        path = folder + "/nothing"
    selects = []
    try:
        for i in range(ops):
            url = ctx.choice(f"url{i}", URLS) if "url" in vary else URLS[0]
            lang = ctx.choice(f"lang{i}", ["en", "nl"]) if "lang" in vary else "en"
            table = ctx.choice(f"table{i}", ["wdt:P1", "wdt:P2"]) if "table" in vary else "wdt:P1"
            columns = ctx.choice(f"columns{i}", [[ID, TEXT], [ID, ID], [TEXT, ID]]) if "columns" in vary else [ID, TEXT]
            v = ctx.choice(f"v{i}", [[None, None], ["a", None], [None, "a"], [None, ""], ["", None]]) if "values" in vary else ["a", None]
            if "texts" in vary:
                v = [None, ctx.str(f"t{i}", 1, alphabet, 0)]
            selects.append((url, lang, table, columns, v))
            source = SparqlDataSource(url, result_cache_path=path, lang=lang)
            ENDPOINT.stores = stores(ctx, "", alphabet)
            before = len(ENDPOINT.requests)
            got, exc = ctx.raises(lambda: source.select(table, columns, v))
            ctx.check(exc is None, "select does not fail")
            want = expected(ENDPOINT.stores[url], table, columns, v, lang)
            # the known findings: the first of the equal selects has been answered for another url or language
            first = [s for s in selects if s[2:] == selects[-1][2:]][0]
            if first[0] != url and "sparql-cache-url" in ctx.known or first[1] != lang and "sparql-cache-lang" in ctx.known:
                continue
            ctx.check(ctx.eq(got, want), "the endpoint's answer for this select")
            asked = len(ENDPOINT.requests)
            if mode != "missing" and any([ctx.eq(list(s), list(selects[-1])) for s in selects[:-1]]):
                ctx.check(asked == before, "what was answered before is not asked again")
            if len(ENDPOINT.requests) < i + 1:
                ctx.cover("from the cache")
    finally:
        cleanup(folder)


def torn(ctx):
    """a cache file that was written partially (a crash, a full disk) counts as absent"""
    ENDPOINT.reset()
    folder = tempfile.mkdtemp()
    try:
        ENDPOINT.stores = stores(ctx, "", "")
        source = SparqlDataSource(URLS[0], result_cache_path=folder)
        v = [None, ctx.str("t", 1, "a'", 0)]
        want = expected(ENDPOINT.stores[URLS[0]], "wdt:P1", [ID, TEXT], v, "en")
        ctx.check(ctx.eq(source.select("wdt:P1", [ID, TEXT], v), want), "the endpoint's answer")
        for f in os.listdir(folder):
            size = os.path.getsize(folder + "/" + f)
            keep = ctx.choice("keep", list(range(0, 40)))
            if keep < size:
                os.truncate(folder + "/" + f, keep)
                ctx.cover("torn")
        got, exc = ctx.raises(lambda: source.select("wdt:P1", [ID, TEXT], v))
        ctx.check(exc is None, "a torn cache file is not an error")
        ctx.check(ctx.eq(got, want), "the endpoint's answer with a torn cache file")
        ctx.check(ctx.eq(source.select("wdt:P1", [ID, TEXT], v), want), "and afterwards")
    finally:
        cleanup(folder)


def many(ctx, n, at):
    """an endpoint with many answers, in its order; also from the cache"""
    ENDPOINT.reset()
    folder = tempfile.mkdtemp()
    try:
        v = ctx.str("v", 1, "ab'", 0)
        ENDPOINT.stores = {URLS[0]: [(("iri", f"s{i % 7}"), "wdt:P1" if i % 10 else "wdt:P2", ("text", v if i == at else f"text {i}", "en" if i % 3 == at % 3 else "nl")) for i in range(n)]}
        store = ENDPOINT.stores[URLS[0]]
        given = ctx.choice("given", [[None, None], ["s1", None], [None, v]])
        want = expected(store, "wdt:P1", [ID, TEXT], given, "en")
        for path in (None, folder, folder):
            got = SparqlDataSource(URLS[0], result_cache_path=path).select("wdt:P1", [ID, TEXT], given)
            ctx.check(ctx.eq(got, want), "all rows of the endpoint, in order")
        ctx.cover("rows")
    finally:
        cleanup(folder)


def obligations(tier):
    deep = tier == "thorough"
    nasty = "a'\\\"\n\r@" if deep else "a'\\\"\n"
    out = []
    for name, columns in (("id text", [ID, TEXT]), ("text id", [TEXT, ID])):
        out.append(Ob(f"{name} escaping", select, dict(columns=columns, alphabet=nasty, maxlen=3 if deep else 2, facts=1, wikidata=False), covers=["rows"],
                      bounds=f"1 triple; texts of at most {3 if deep else 2} characters of {nasty!r}"))
        out.append(Ob(f"{name} more characters", select, dict(columns=columns, alphabet="}{.?>#@", maxlen=2 if deep else 1, facts=1, wikidata=False), covers=["rows"],
                      bounds="1 triple; texts of at most 1-2 characters of }{.?>#@"))
    for columns in ([ID, TEXT], [TEXT, ID], [ID, ID], [CONSTANT, ID], [ID, CONSTANT], [TEXT, TEXT], [ID, "number"], [CONSTANT, TEXT], ["number", CONSTANT]):
        for wiki in (False, True):
            if wiki and columns != [ID, TEXT] and not deep:
                continue
            out.append(Ob(f"{' '.join(columns)}{' wikidata' if wiki else ''}", select,
                          dict(columns=columns, alphabet="ab", maxlen=1, facts=3 if deep else 2, wikidata=wiki), covers=["rows"],
                          bounds="2-3 triples, 2 predicates, 2 languages; names and texts of at most 1 character"))
    out.append(Ob("errors", errors, bounds="5 error statuses, with and without cache"))
    for vary in (["texts"], ["values", "table"], ["columns", "values"], ["table", "columns"], ["url", "lang", "table"], ["folder", "values"]):
        out.append(Ob("cache " + " ".join(vary), cache, dict(vary=vary, alphabet="ab0'\"\\,", ops=3 if deep or vary == ["table", "columns"] else 2),
                      covers=["from the cache"], bounds="2-3 selects, sharing a cache folder"))
    out.append(Ob("torn cache file", torn, covers=["torn"], bounds="cut at any position"))
    for at in (1, 151, 299):
        out.append(Ob(f"many {at}", many, dict(n=300, at=at), covers=["rows"], bounds="300 triples, any text of 1 character in one of them"))
    return out
