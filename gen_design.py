"""writes DESIGN.md: python3 gen_design.py"""
import json
MISSED = {
 'c25-nocase': 'missed: names that differ in case, and collations in the SQL stand-in',
 'c20-disjunction-vars': 'missed: disjunctions in the conjunctions to isolate',
 'c20-infinite': 'missed: sizes up to 1000000000, and the cost of unsized relations is no longer taken from the code',
 'c22-strip': 'missed: a grammar with sentences that start with punctuation',
 'c29-output': 'missed: "exactly" (any outputs and expectations, with whitespace) was added',
 'c10-sqlite-like': 'missed: the SQL stand-in now models LIKE and collations',
 'c15-arity': 'missed: a grammar with one category of several arities was added',
 'c20-cost-max': 'missed: "twice" (the same atom twice) was added',
 'c21-find-all-collect': 'missed: "alike" (equal products) was added',
 'c03-distribute': 'missed: trees of nested disjunctions were added',
 'c04-write-first': 'missed: modules that can only store were added',
 'c06-percentage-round': 'missed: "more than all" was added',
 'c28-processor-name': 'missed: processors of the same name were added',
 'c28-falsy': 'missed: products of an error were added',
 'c28-tree-unary': 'missed: leaves with spaces at every depth were added',
 'c31-number': 'missed: "numbers" and "words" were added',
 'c13-nested-capture': 'missed: programs with local variables inside scoped, none and disjunctions were added',
 'c18-inferences': 'missed: "repeated" was added',
 'c31-encoding': 'missed: the stand-in for files now honours the way the reader is configured, and files with quoted fields were added',
 'c23-post-value': 'missed: "post value" (results that are not texts) was added',
 'c28-newline': 'missed: "long entries" was added',
 'c14-argcount': 'missed: "grow" (grammars that are learned rule by rule, in any order) was added',
 'c13-depth': 'missed: "long chain" (30 derivation steps and more) was added, and the like for the other properties',
 'c12-import-blocks': 'missed: files with empty lines within rules were added',
 'c24-fallback': 'missed: "names" (symbolic locales) was added',
}
REJECTED = "c03 tests every branch / evaluates eagerly, c06 minimum 0, c06 distinct sum and average, c08 falsy combinations, c09 falsy bindings, c11 shorter cache keys, c12 two comments, c13 head variables, c14 cached model / learned body / order of rules, c15 last unknown word, c16 order of ties / boost by depth, c18 reified variables / fresh locals, c20 one pass / all roots, c02 binding of 'all', c23 falsy argument, c22 arguments of errors, c03 redundant disjuncts, c13 constants in bound variables, c13 alias of a learned rule, c29 stripped names, c30 variables of scoped / scoped first, c31 blank lines, c16 unary depth, c02 memo of facts, c08 falsy find_one, c27 cache of regular expressions, c23 rules used persist, c16 maximum boost, c21 alternatives of the last run, c28 escaped values, c01 identity of values, c08 outer binding, c17 stripped quotes, c18 three arguments, c25 unbound body, c16 maximum of regular expressions / last depth, c23 falsy consequents, c30 nested variables / lower-case text, c02 in-place single row, c30 zero as text / cached modules, c01 answers compared by new variables, c19 filling values. Three changes were set aside because they turned out not to break the property as stated: the order of ties in an aggregate, anchors in the middle of a text, later rules for a known fact"
EXPERIMENTS = r"""
## Mutation experiment

Apart from the planted bugs, one-place mutants of the whole code base (a deleted statement, a negated or constant condition,
changed constants and operators; 3834 of them) were run through the existing tests: about 1170 survive these. Of a random
sample of 134 survivors the quick checks, cut off after 20 s each and only the three nearest, catch about 60 %. The others were
reviewed one by one: a few showed gaps, which were closed (they led to C28, C29 and a number of obligations); the rest do
not change behaviour (dead branches, default values that are always overwritten, equal results by another path) or concern what is not a
claimed property: the text of debug strings (`ChartState.to_string`, `__str__` of rules), the layout of headers, the width of the terminal.
"""
D = open('/verif/DESIGN.md').read()
head = D[:D.index("(The per-property table")] if "(The per-property table" in D else D[:D.index("## How a check decides")]
body = r'''
## How a check decides

`check.py CNN tier` builds the list of *obligations* of `props/cNN.py` and distributes them over 8 processes.  An
obligation is a function of a context `ctx`: it draws symbolic inputs (`ctx.int`, `ctx.str`, `ctx.choice`, ...), drives
the real code through its public entry points, computes what should have happened with an independent reference written
in the harness, and asserts that the two agree (`ctx.check`).  Nothing in a harness inspects how the code is written.

Exit codes: 0 nothing found in what was explored; 1 a reproduced counterexample (`VIOLATION` line, replay file under
`/verif/out`, run with `replay.py`); 2 a worker died; 3 the engine itself is inconsistent (nothing was asserted, a
completely explored obligation is vacuous or misses a cover point, or a sampled path behaves differently on the
unmodified code).  When exit code 0 does not cover everything within the bounds (unsupported operation, solver `unknown`,
out of time (700 s, thorough 3300 s), or a counterexample that does not reproduce on the real code) the check prints an
`INCOMPLETE` line for each such obligation, and the evidence has `exhaustive_within_bounds: false` and their names.  On
the committed tree there are none; `SYMX_STRICT=1` turns them into exit code 2, which is how the tree was checked.  A path that
does not end within 100 s is reported as a hang, and replayed as such.

What "holds" means: for all values of the symbolic inputs within the bounds named in the obligation (also in the
evidence file), the assertion is unsatisfiable together with the path condition, on each feasible path.  Integers are
unbounded mathematical integers as in Python.  Nothing is said outside the bounds: longer texts, more rows, deeper trees.

### Trust base, and how it is checked

* z3 (through the Python bindings of /opt/veriftools), CPython, and the engine in `symx/`.
* The engine's models are compared with Python itself on every run: each obligation's sampled paths are re-run on the
  plain code with concrete solver models and must give the same observations (`traces_validated_against_impl`).
* `props/c00.py` (`python3 check.py C00 quick`; not in the manifest as it is no property of richard) runs about 60 Python
  constructs (higher order builtins, caches, regex scanners, dataclasses, sorting, formatting...) on symbolic values and
  compares each path with plain Python.
* SQL: `props/sqlstub.py` stands in for sqlite3, MySQL and PostgreSQL.  It reads the query text with a strict grammar, so a
  value in the text shows as a literal or as a syntax error; sampled sqlite3 paths are re-run on the real sqlite3.  A query
  outside its grammar is passed to the real sqlite3 with the values enumerated by the solver.
* HTTP: the endpoint of C11 is a reader of the SPARQL text with a strict grammar over a small symbolic triple store.

### Robustness against refactoring

Harnesses use only what a user of the library uses: constructors, `process`, `solve`, `enter`, `read_output`, `select`...
As an experiment nearly every source file was rewritten in another style without a change of behaviour (comprehensions for
loops, `reduce`, `partial`, `re.compile` objects and named groups, `lru_cache`, helper methods, `dataclass`es, generators,
early returns, other data structures): all checks stay at exit 0 on that tree.  The experiment found, and led to models
for: `list.index`, bound methods of compiled patterns, `map(str, ..)`/`sorted(key=..)` over C functions, `dict.fromkeys`,
`Counter`, `OrderedDict`, decorators that cache, `math.*`, `match` statements on booleans.

### Sizes

Most obligations are exhaustive over small inputs.  A change that only shows with more (a limit on recursion, a buffer, a cache that is
full, a quadratic shortcut) is out of their reach; so most properties also have an obligation (`many`, `large`, `long ...`) with one large input:
tens to hundreds of rows, rules, atoms, tokens, sentences or blocks, of which only a few values (and which of them is the odd
one) are symbolic.  The claim there is for all values of these, at that size.

## What lies outside

Bounds and exclusions are listed per property below and in the evidence. General: no claim about termination outside the
bounds, about timing or memory, or about concurrent use of one system (richard is single threaded and says nothing about
threads). Not covered: the Wikidata/DBpedia demos (a live endpoint is needed), the interactive console examples.

## Per property

'''
P = {}
P['C01'] = ("`Solver.solve` over table modules, for 13 query shapes (one atom, repeated variables, constants, joins, swaps, cross products, no variable), with and without variables bound beforehand.",
 "nested loops over the tables in the harness; look-alikes (0, '0', '') as further cell values",
 "0-3 rows per relation of 2-3 columns, arbitrary integers; mixed cells for 1 or 2 atoms", "None as a fact; bool/float look-alikes (`True == 1` in Python)")
P['C02'] = ("A first query, its deep copy, a second query, and the first again on the same solver; the facts, the binding, the query and earlier answers are compared with copies.",
 "deep copies taken before, and a second solver that only ran the last query", "8 kinds of first and second query (negation, 'all', aggregates, collecting, disjunction...), 1-2 rows of arbitrary integers", "")
P['C03'] = ("Disjunctions of 2-3 branches that record what they execute, with branches that depend on bound variables, nested and after other atoms.",
 "the first branch for which the reference has answers; the trace of executed relations", "p: 0 or 2 rows, q: 1 row, arbitrary integers", "")
P['C04'] = ("The same relation in 1-3 modules with symbolic rows; stores to each; unknown predicates at 7 places; malformed answers of 8 kinds.",
 "union without duplicates in module order; which stores were called", "1-2 rows per module, integers or '', '0'", "")
P['C05'] = ("The comparison predicates, multiply and let on symbolic integers and rationals and on texts, lists and atoms, with each side a variable or a value.",
 "Python's comparison of the values by value and type", "all numbers", "floats are exact rationals (no rounding); let with an unbound value; let on a bound variable")
P['C06'] = ("Each aggregate over 8 kinds of sub-query with symbolic values (ties, signs, zeros), compared afterwards, confirmed, and with bound variables.",
 "the aggregate over the reference's answers", "1-3 distinct facts, arbitrary integers or decimals", "sum and avg leave the *element* variable bound to None in the outer binding; what a later atom does with it is not specified (documented behaviour: the element variable is local)")
P['C07'] = ("not, none, all, scoped, det_* over 7 bodies, nested in each other and in enclosing queries.",
 "count of the reference's answers compared with the number", "1-3 facts, arbitrary integers, arbitrary number to compare with; an announced number (ResultIterator)", "a ResultIterator within a conjunction (documented as not supported)")
P['C08'] = ("find_all / find_one of a variable or a list of variables over several bodies, destructure on all shapes.",
 "first occurrences of the reference's answers; structural match", "2-3 facts, patterns and atoms of at most 2 parts", "result variables that are bound already; pattern variables that are bound or repeated")
P['C09'] = ("Histories of write / store / clear on the conversation memory, the dialog context and the output buffer, followed by queries of each kind.",
 "a list of facts", "2-3 steps, arbitrary integers, texts of at most 2 characters, lists", "TEXT affinity of SQLite columns")
P['C10'] = ("select / insert / delete on the five data sources with all column orders and patterns of given values; SQL is read by the stand-in.",
 "list of records; the parameters seen by the driver in order", "2-3 rows of 3 columns, any integers or texts with quotes, `?`, `%`", "delete with absent values; MySQL's '0' = 0")
P['C11'] = ("SparqlDataSource.select against the endpoint model, with and without cache, statuses, torn cache files.",
 "the endpoint's answer for the exact triple pattern; in two selects the second one's own answer", "1-3 triples, texts of at most 3 characters out of quotes, backslash, newline, braces...", "identifiers that contain '>'; two known findings, see below")
P['C12'] = ("The rule reader on every edit (truncate, delete, insert, replace, swap) of 8 template texts with symbolic characters, all short texts, all layouts, comments and literals.",
 "a second reader in the harness written from the notation; `file` errors for imports", "one or two edits anywhere; texts of 3-5 characters", "ambiguities of the notation listed in the evidence's assumptions")
P['C13'] = ("Rule programs (copy, swap, join, constants in heads, repeated head variables, recursion, equal names...) queried in 11 argument shapes.",
 "bottom-up fixpoint over the symbolic facts", "p: 2-4 rows, q: 1-2 rows, arbitrary integers and constants", "cyclic facts for recursive rules (infinite by design); unbound arguments of rules that don't bind them")
P['C14'] = ("learn_rule for 10 heads/bodies with any of the variables bound, one or two learned rules, facts stored afterwards; learn_grammar_rule, then all short texts.",
 "the same rule in the rule base from the start; the parser on a grammar with the rule from the start", "p, q: 1-2 rows; texts of at most 5 characters", "")
P['C15'] = ("EarleyParser on all texts up to a length for 15 fixed grammars and for all grammars of 3-4 rules out of a pool; each tree is compared.",
 "a CYK-like enumeration of all derivations in the harness; for errors the furthest point reached", "texts of 3-8 characters", "empty constituents, cyclic unit rules, regular expressions other than greedy character classes")
P['C16'] = ("The sort heuristics and the whole parser on trees with symbolic boosts, and whitespace runs.", "stable sort by the documented keys", "3-4 trees of 8 shapes, any boosts; runs of at most 3 characters", "")
P['C17'] = ("The grammar rule reader on all edits of templates, short texts, layouts, escapes, and on all structures of optional parts; the parser on the rules read.",
 "a second reader; the set of texts that the constituents denote", "1-2 edits; 1-4 constituents; texts of at most 6 characters", "stray quotes are tolerated; empty quoted words; rules whose parts are all optional")
P['C18'] = ("SemanticComposer on 8 parse trees where the variable names of one or two rules are arbitrary.", "union-find over the occurrences along the tree", "any names out of 4-5 letters", "repeated antecedent variables; reified variables that are not in the rule's syntax; exec of a child under a parent with exec")
P['C19'] = ("apply() on all templates and arguments up to a depth, twice, nested.", "recursive substitution", "depth 2-4, at most 3 elements", "a slot token that equals a text")
P['C20'] = ("The optimizer on 13 queries with symbolic facts and sizes, on all conjunctions of 1-4 atoms, and on nested queries.", "Solver on the original query; multiset of atoms; cost by the documented formula; connectedness of isolated parts", "1-2 rows; sizes 0-1000", "answers are compared for plain facts (other predicates may depend on order)")
P['C21'] = ("All pipelines of 1-3 blocks with processors that deliver any number of alternatives, equal ones too, each failing or not; the trace of calls is compared.", "recursive definition of the three blocks", "at most 4 alternatives", "a processor that delivers nothing and no error")
P['C22'] = ("A complete application on all short texts, and a second sentence afterwards, under each kind of pipeline.", "an enumeration of the application's language in the harness; the error phrases", "texts of 3-8 characters, 31 different characters in one obligation", "predicates and output types that the application does not define")
P['C23'] = ("BasicGenerator on a story grammar with symbolic facts, renamed variables, all pairs or triples of rules with 6 conditions, optional parts, values of 9 kinds.", "a second generator in the harness", "1-3 rules or parts, 2-3 rows", "rules that call themselves forever; an unbound variable passed on becomes ''; separators around omitted optional parts")
P['C24'] = ("LanguageSelector and Multilingual with recording processors, then with real grammars of two languages.", "first language in order that succeeds", "3 languages, 3 sentences, any short names and texts", "")
P['C25'] = ("Operation trees of start / end / with (bodies that fail too), then queries.", "a multiset-free reading of the statement: active flags per name, restored by a scope", "2-3 operations, nested twice, any two names", "a body that itself starts the context it is in")
P['C26'] = ("AtomExecutor and the pipeline with recording relations: 6 kinds of inference, 11 actions, 10 queries.", "the trace of an interpreter in the harness", "1-2 rows of arbitrary integers", "")
P['C27'] = ("Parsing and composing any text after any other texts, compared with a fresh parser and composer.", "a fresh system; variables up to renaming", "texts of at most 4 characters", "rule functions that keep state of their own")
P['C28'] = ("Pipelines with every setting of the Logger, with recording processors; the products' log texts on symbolic trees, atoms, answers, locales; statistics; a whole application with and without logging.", "the run without logging; the parts of the log text that belong to the selected steps; counts by a recording module", "1-3 steps, trees and meanings of depth 2-3, texts of at most 2 characters", "the wording of the log; only the values and their order are compared")
P['C29'] = ("DialogTester.run over a system with symbolic answers, errors at any place, every logger setting; a real unittest.TestCase; a whole application.", "position of the first difference; the sentences that were entered; the marks in the log", "0-3 tests, texts of at most 2 characters", "wording of the report")
P['C30'] = ("A complete application from text to output: hundreds of questions built from quantified noun phrases, relative clauses, negation, names, 'self', rules; statements and generalisations before the question; with and without optimiser; three pipelines.", "evaluation of the question over the symbolic facts in the harness (first-order, by enumeration of the people)", "three people, at most 2 facts per relation, 1-2 statements", "an 'all' over an empty range has no answer (as documented for `all`); determiners count bindings, so inner noun phrases are wrapped in `scoped`")
P['C31'] = ("`CsvImporter` against files of 0-2 (3) rows of 1-3 columns with arbitrary short texts in the cells, empty lines anywhere, other column orders, one or two files into the same or different tables; into a recording data source and into `SimpleDataSource`.", "the rows as they were put in the file", "1-3 columns, 0-2 (3) rows, two files; cells of at most 2 characters, and of 3 (4) characters of numbers and 5 (6) of words", "the csv module itself is trusted: symbolic runs use a stand-in that delivers the rows (reader and DictReader), sampled runs the real module and real files; lines as wide as the header, or empty")
titles = {}
for l in open('/verif/properties.jsonl'):
    d = json.loads(l); titles[d['id']] = d['title']
for k in sorted(P):
    a, b, c, d = P[k]
    body += f"### {k} {titles[k]}\n\n* Executed: {a}\n* Oracle: {b}.\n* Bounds: {c}.\n" + (f"* Left out: {d}.\n" if d else "") + "\n"

body += "## Defects found in garfix/richard\n\nEach was found by the named check, reproduced on the real code, and repaired in a `fix:` commit of its own\n(`known_findings.jsonl` has the same list). On the original code (`SYMX_REPO=` a checkout of the base commit) the checks report them.\n\n"
known = []
for l in open('/verif/known_findings.jsonl'):
    l = l.strip()
    if l.startswith('fixed: '):
        prop, commit, what = l[len('fixed: property='):].split(' ', 2)
        body += f"* {prop} ({commit}): {what}\n"
    elif l.startswith('{'):
        known.append(json.loads(l))
body += "\nRecorded, not repaired (the repair would change the names of cache files that users may have, or their documented use):\n\n"
for k in known:
    body += f"* {k['property']} `{k['id']}`: {k['what']}. Only these inputs of that obligation are suppressed.\n"
body += EXPERIMENTS
import os, glob
body += "\n## Planted bugs\n\nEach is in `seeded/<id>`; all pass the repository's tests. 'First' tells whether the check caught it when it was planted; where it\ndid not, the column names what was added to the check. All of them are caught now, by the quick check of their property.\n\n| bug | what breaks | needs | first |\n|---|---|---|---|\n"
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    body += f"| {i} | {m['what_it_breaks']} | {m['needs']} | {MISSED.get(i, 'caught')} |\n".replace("'|'", "a bar")
body += "\nPlanted and set aside because the existing tests already notice them (so they don't count as bugs here): " + REJECTED + ".\n"
open('/verif/DESIGN.md','w').write(head + body)

