"""The rule that decides each property."""
import build_rules as BR
import core
import parser_tables as PT
from parser_client import Missing

META = {}
RULES = {}


PARSER_TECH = ("abstract interpretation of the parser's MIR (per-function summaries over a symbolic token vector: token classes, "
               "difference bounds, event-log typestate)")
PARSER_NOTE = ("Sound over the modelled MIR for every token vector the lexer rules allow; decided from all paths of all parsing functions, "
               "no input is executed. A construct the interpreter does not model makes the obligations it reaches undecided (listed in the evidence), not alarms.")


def prop(pid, explanation, rule, assumptions=(), technique=PARSER_TECH, note=PARSER_NOTE):
    def d(f):
        META[pid] = {"explanation": explanation, "rule": rule, "assumptions": list(assumptions), "technique": technique, "note": note}
        RULES[pid] = f
        return f
    return d


def run(pid, S, rep, thorough):
    try:
        RULES[pid](S, rep, thorough)
    except Missing as e:
        rep.bad("anchor", "the analysis cannot find what the property is anchored in: %s" % e)


LEX_ASSUME = ("tokens have the lengths their kinds document, gaps in the source belong to escaped tokens, and ranges are "
              "non-empty, increasing and on character boundaries (decided for the lexer by P06 and P07)")
COUNT_ASSUME = "usize and i32 counters of tokens do not overflow"


# ------------------------------------------------------------------ parser side
def parser_findings(S, rep, kinds):
    R = S.parser()
    E, C = R.E, R.C
    for (p, key, fn), f in sorted(E.findings.items(), key=repr):
        if p not in kinds:
            continue
        o = "%s in %s" % (key, fn)
        txt = "%s: %s (%s)\n    call path: %s" % (fn, f["what"], f["span"], f["chain"])
        if f["tainted"]:
            rep.undecided(o, "; ".join(f["taint"][:3]))
        else:
            rep.bad("%s:%s:%s" % (p, key, fn.split("::")[-1]), txt, o)
    rep.cov["functions_analysed"] = sorted(b for b in E.stats["bodies"] if b.startswith("yamd::"))
    rep.cov["abstract_states"] = E.stats["states"]
    rep.cov["joins"] = E.stats["joins"]
    rep.cov["function_summaries"] = len(C.summ)
    if E.stats["unmodelled"]:
        rep.cov["unmodelled"] = {k: v for k, v in sorted(E.stats["unmodelled"].items())[:40]}
    for fn, t in sorted(C.tainted.items()):
        rep.undecided("exits of " + fn, "; ".join(sorted(t)[:3]))
    return R


def fn_exits(R, rep):
    for o in sorted(R.E.stats["obligations"], key=repr):
        if o[0] == "exit":
            rep.ok("exits of " + o[1])


def floor_nodes(R, rep):
    for n in R.C.nodes:
        rep.require(n in R.C.closes or not clean(R), "node:" + n, "no place in the parser opens and closes a %s" % n)
    rep.require(sum(1 for o in R.E.stats["obligations"] if o[0] == "exit") >= 20 or not clean(R), "exits",
                "fewer than 20 parsing functions were summarised")


def clean(R):
    return not R.E.stats["unmodelled"] and not R.C.tainted


class Only:
    """a report that takes over the obligations of another rule, and of its findings those with the given keys"""

    def __init__(self, rep, keys):
        self.rep, self.keys = rep, keys
        self.cov = {}

    def ok(self, o):
        self.rep.ok(o)

    def undecided(self, o, why):
        self.rep.undecided(o, why)

    def bad(self, key, text, o=None):
        if key.startswith(self.keys):
            self.rep.bad(key, text, o) if o is not None else self.rep.bad(key, text)

    def require(self, cond, key, what):
        if cond:
            self.rep.require(cond, key, what)


PANICS = ("unwrap", "expect", "unwrap_err", "expect_err", "index", "index_mut", "remove", "swap_remove", "split_at", "split_off", "split_at_mut",
          "drain", "truncate", "insert", "insert_str", "replace_range", "copy_from_slice", "chunks", "windows", "step_by", "rem", "div", "pow")


def panic_sites(b):
    for bl in b.blocks:
        t = bl.term
        if t[0] == "assert":
            yield t[4][0], bl.span
        elif t[0] == "call":
            q = t[1].get("rp") or t[1].get("p") or ""
            if "panic" in q or not q.startswith("yamd::") and q.split("::")[-1] in PANICS:
                yield q, bl.span


def reach(prog, roots):
    kids = {}
    for b in prog.bodies.values():
        if b.local and b.parent:
            kids.setdefault(b.parent, []).append(b)
    seen, todo = {}, list(roots)
    while todo:
        b = todo.pop()
        if b.key in seen or not b.local:
            continue
        seen[b.key] = b
        todo.extend(kids.get(b.path, ()))
        for bl in b.blocks:
            if bl.term[0] == "call":
                n = prog.bodies.get(bl.term[1].get("inst"))
                if n is not None:
                    todo.append(n)
    return seen


@prop("P01", "The lexer, the parser, the fold and every printer are interpreted over arbitrary characters, tokens, events and field values; every overflow check, index, slice, "
      "unwrap and explicit panic they reach must be excluded by the abstract state. Every other function reachable from the public entry points is searched for such sites.",
      "no reachable panic: bounds, unwrap, subtraction, explicit panics, text cut off a character boundary",
      (LEX_ASSUME, COUNT_ASSUME, "memory and stack suffice", "byte ranges in a stream given to the fold lie inside the source, as those of parse do (P05)"),
      "abstract interpretation of the MIR of lexer, parser, fold and printers; call-graph search for panic sites outside them")
def p01(S, rep, thorough):
    import fold_rules as FR
    import show
    L = lexer_findings(S, rep, {"panic"})
    R = parser_findings(S, rep, {"panic", "nesting"})
    F = S.fold()
    FR.p11(S, Only(rep, ("panic:", "start-rejected", "value-rejected", "end-rejected", "complete-rejected")))
    D, names = S.show()
    for n in sorted(D):
        k, rows, un, fs = D[n]
        rep.ok("printer of " + n)
        if k == "error":
            rep.undecided("printer of " + n, rows)
        for f in fs:
            if f["prop"] != "panic":
                continue
            if f["tainted"]:
                rep.undecided("printer of " + n, "; ".join(f["taint"][:3]))
            else:
                rep.bad("panic:%s:%s" % (f["key"], n), "%s: %s (%s)\n    call path: %s" % (f["fn"], f["what"], f["span"], f["chain"]), "printer of " + n)
        if k != "error":
            for t in sorted({t for r in rows for t in r[3]}):
                rep.undecided("printer of " + n, t)
    seen = set(D.bodies)
    for E in (L.E, R.E, F.E):
        seen |= E.stats["bodies"]
        for o in sorted((o for o in E.stats["obligations"] if o[0] == "assert"), key=repr):
            rep.ok("%s: %s (%s)" % (o[1], o[3], o[2]))
    for o in sorted(D.obligations, key=repr):
        rep.ok(" ".join(str(x) for x in o))
    # what the interpreters did not enter
    roots = [R.root, L.C.new, L.C.next, F.entry] + [b for b, _ in show.printers(S.prog)]
    keys = {b.key for b in roots}
    for b in S.prog.bodies.values():
        if b.local and any(bl.term[0] == "call" and bl.term[1].get("inst") in keys for bl in b.blocks):
            roots.append(b)
    rs = reach(S.prog, roots)
    for b in sorted(rs.values(), key=lambda b: b.key):
        if b.key in seen:
            continue
        for q, sp in panic_sites(b):
            o = "%s: %s (%s)" % (b.path, q, sp)
            if q in ("core::result::Result::<T, E>::expect", "core::result::Result::<T, E>::unwrap") and \
                    any(bl.term[0] == "call" and bl.term[1].get("inst") == F.entry.key for bl in b.blocks):
                rep.ok(o)       # the fold accepts what parse returns: nesting (above) and the accepting cases of the fold
            else:
                rep.undecided(o, "a panic site the interpreters did not reach")
    rep.cov["functions_reachable"] = len(rs)
    rep.cov["functions_interpreted"] = len([k for k in rs if k in seen])


@prop("P02", "Every loop and recursion reachable from parse is given a ranking over the abstract state; an iteration or a "
      "recursive call that may leave the cursor where it was is reported.",
      "lexicographic ranking per natural loop of the MIR flow graph; strictly increasing cursor on every call-graph cycle",
      (LEX_ASSUME, COUNT_ASSUME))
def p02(S, rep, thorough):
    lexer_findings(S, rep, {"progress"})
    R = parser_findings(S, rep, {"progress"})
    for l in sorted(R.E.stats["loops"], key=repr):
        rep.ok("loop %s" % (l,))
    floor_nodes(R, rep)
    # recursion: the calls that do not consume a token first must not form a cycle
    g = {}
    for (a, b), strict in R.C.edges.items():
        if not strict:
            g.setdefault(a, set()).add(b)
        rep.ok("call %s -> %s" % (a, b))
    col = {}

    def go(v, path):
        col[v] = 1
        for w in sorted(g.get(v, ())):
            if col.get(w) == 1:
                cyc = path[path.index(w):] if w in path else [v]
                o = "call %s -> %s" % (v, w)
                if any(x in R.C.tainted for x in cyc):
                    rep.undecided(o, "imprecise summaries")
                else:
                    rep.bad("recursion:" + "->".join(x.split("::")[-1] for x in cyc),
                            "%s can be re-entered without consuming a token: %s" % (w, " -> ".join(cyc + [w])), o)
            elif w not in col:
                go(w, path + [w])
        col[v] = 2
    for v in sorted(g):
        if v not in col:
            go(v, [v])


@prop("P03", "Abstract interpretation of every parsing function over an arbitrary token vector, with the operation log as a "
      "stack of open nodes: every End is matched against the innermost open Start of the same call, and no function returns, "
      "on any path, with a node it opened still open.",
      "typestate of the operation log: Start pushes, End pops the same node, insertion of a Start only where a call recorded the log length",
      (LEX_ASSUME,))
def p03(S, rep, thorough):
    R = parser_findings(S, rep, {"nesting", "trace"})
    fn_exits(R, rep)
    for o in R.E.stats["obligations"]:
        if o[0] == "close":
            rep.ok("close of %s in %s" % (o[2], o[1]))
    floor_nodes(R, rep)
    doc, meta = R.C.nodes.index("Document"), R.C.nodes.index("Metadata")
    for ch, tainted in R.roots:
        if tainted:
            rep.undecided("root", "imprecise")
        elif ch[2] is None or not ch[2] <= {(doc,), (meta, doc)}:
            rep.bad("root-shape", "parse can return a stream that is not one Document, optionally after one Metadata: %s" %
                    ("unbounded" if ch[2] is None else [[R.C.nname(i) for i in q] for q in sorted(ch[2])]), "root")
        else:
            rep.ok("root")
    rep.require(bool(R.roots) or not clean(R), "roots", "no return of parse was analysed")


@prop("P04", "For every parsing function and every exit: a call that reports failure (emits nothing) leaves the cursor, the "
      "operation log and the stop-condition stack exactly as it found them, and log truncation only ever removes what the same "
      "call emitted.",
      "exit condition of every summarised function: log unchanged => cursor unchanged; truncation target is a length recorded by the same call; stop stack balanced",
      (LEX_ASSUME,))
def p04(S, rep, thorough):
    R = parser_findings(S, rep, {"trace", "stops"})
    fn_exits(R, rep)
    floor_nodes(R, rep)


@prop("P05", "Every operation carries the token interval it covers; the intervals of each node's Start, children and End must be "
      "adjacent, every parsing function must cover exactly the tokens between entry and exit cursor, and the stream returned by "
      "parse must cover the whole token vector in order.",
      "symbolic token intervals on operations; adjacency at every End; exact cover at every function exit; byte spans only over tokens without gaps",
      (LEX_ASSUME, COUNT_ASSUME,
       "the line break directly before a collapsible's closing marker belongs to no operation (pinned by an upstream test) and is exempt"))
def p05(S, rep, thorough):
    lexer_findings(S, rep, {"tile"})
    BR.lexer_entry(S.prog, rep)
    BR.parse_entry(S.prog, rep)
    R = parser_findings(S, rep, {"cover", "trace"})
    fn_exits(R, rep)
    for o in R.E.stats["obligations"]:
        if o[0] == "close":
            rep.ok("adjacency in %s in %s" % (o[2], o[1]))
        if o[0] == "span":
            rep.ok("span built at %s (%s)" % (o[1], o[2]))
    floor_nodes(R, rep)
    rep.require(R.C.slices >= 1 or not clean(R), "spans", "no byte span is built from tokens")
    rep.cov["collapsible_eol_exemptions"] = R.C.carve


@prop("P09", "For every node, the set of token sequences its Start and its End can be built from, over all paths and inputs, is "
      "computed and compared with the documented delimiter table; the plain text inside a construct must exclude its closing delimiter.",
      "abstract token classes (kind, length, column 0, escaped) at every Start/End; equality with the delimiter table in parser_tables.py",
      (LEX_ASSUME,))
def p09(S, rep, thorough):
    lexer_findings(S, rep, {"kinds"})
    R = parser_findings(S, rep, set())
    floor_nodes(R, rep)
    PT.delimiters(R, rep, clean(R))


@prop("P10", "For every node, the set of child sequences its operations can hold, over all paths and inputs, is computed from the "
      "parser and compared with the documented grammar.",
      "abstract child alphabet and short sequences per node, collected at every End",
      (LEX_ASSUME,))
def p10(S, rep, thorough):
    R = parser_findings(S, rep, {"nesting"})
    floor_nodes(R, rep)
    PT.children(R, rep, clean(R))


# ------------------------------------------------------------------ lexer
import lexer as LX

LEX_TECH = ("abstract interpretation of the lexer's MIR over an arbitrary character stream (character classes, difference bounds on offsets, columns and rows), "
            "in lock step with a reference automaton of the documented token rules")
LEX_NOTE = ("Every character the code or the documentation mentions is a class of its own, all others are one class per UTF-8 width; every stream of them is covered by a fixpoint over "
            "the lexer's state. A construct the interpreter does not model makes the run undecided, not alarmed.")


def lexer_findings(S, rep, kinds):
    try:
        R = S.lexer()
    except LX.Missing as e:
        raise Missing(str(e))
    E, C = R.E, R.C
    for (p, key, fn), f in sorted(E.findings.items(), key=repr):
        if p not in kinds:
            continue
        txt = "%s: %s (%s)\n    call path: %s" % (fn, f["what"], f["span"], f["chain"])
        for k in LX.KINDS:
            if k in f["what"].split() or k in key.split(":"):
                txt += "".join("\n    %s tokens are built in %s" % (k, x) for x in sorted(C.sites.get(k, ())))
        if f["tainted"]:
            rep.undecided(key, "; ".join(f["taint"][:3]))
        else:
            rep.bad("%s:%s" % (p, key), txt, key)
    for k in E.stats["unmodelled"]:
        rep.undecided("lexer", k)
    if C.pruned:
        rep.undecided("lexer", "tokens are held back further than the analysis follows")
    cl = not E.stats["unmodelled"] and not C.pruned
    broken = bool(E.findings)
    for k in LX.KINDS:
        rep.require(k in C.kinds_seen or not cl or broken, "kind:" + k, "no %s token was seen to leave the lexer" % k)
    rep.require(R.outs > 0 or not cl or broken, "end", "the lexer never reaches the end of its input")
    for b in sorted(E.stats["bodies"]):
        if b in C.code:
            rep.ok("lexer function " + b)
    rep.cov["lexer_functions_analysed"] = sorted(b for b in E.stats["bodies"] if "yamd::" in b)
    rep.cov["lexer_abstract_states"] = E.stats["states"]
    rep.cov["lexer_joins"] = E.stats["joins"]
    rep.cov["character_classes"] = len(C.all)
    rep.cov["token_returns_compared"] = C.checked
    if E.stats["unmodelled"]:
        rep.cov["lexer_unmodelled"] = dict(sorted(E.stats["unmodelled"].items())[:40])
    return R


@prop("P06", "At every return of a token from the lexer the token's range is compared, in the zone domain, with the end of the previous token and the positions of the "
      "escaping backslashes in between; at the end of the input the last token's end is compared with the input's length.",
      "start == end of previous, or one escaping backslash after it; start < end <= length; no escaping backslash inside a token; nothing left at the end",
      ("usize does not overflow",), LEX_TECH, LEX_NOTE)
def p06(S, rep, thorough):
    lexer_findings(S, rep, {"tile"})
    BR.lexer_entry(S.prog, rep)


@prop("P07", "Every token returned is compared with the one a reference automaton of the documented rules, fed the same characters, has produced at that point: kind, first and last byte, escape flag, order.",
      "equality with the reference automaton (lexer.py: step) at every return", ("usize does not overflow",), LEX_TECH, LEX_NOTE)
def p07(S, rep, thorough):
    lexer_findings(S, rep, {"kinds"})
    BR.lexer_entry(S.prog, rep)


@prop("P16", "Row and column are counted by the reference automaton as symbols of the zone domain and compared with those of every token returned.",
      "byte_index == range start; row, column equal to the reference counters", ("usize does not overflow",), LEX_TECH, LEX_NOTE)
def p16(S, rep, thorough):
    lexer_findings(S, rep, {"pos"})


# ------------------------------------------------------------------ events to tree
import fold_rules as FR

FOLD_TECH = ("abstract interpretation of the fold's MIR in a provenance domain: the transfer of every event kind from an arbitrary stack of open nodes, "
             "as terms over the event and the frames it touches")
FOLD_NOTE = ("Every case of one loop iteration is enumerated from an arbitrary stack (root frame at the bottom), so the result holds for streams of any length by induction; "
             "cases the interpreter cannot express are undecided, not alarms.")


@prop("P11", "The effect of one event on an arbitrary stack of open nodes is computed for every event kind, node and frame: a Start pushes exactly one frame of its own kind, "
      "a Value keeps the stack, an End closes exactly the frame of its node and is an error on any other, and only a stream that ends with the root alone is accepted.",
      "typestate of the frame stack over the one-step transfer table of the fold", (), FOLD_TECH, FOLD_NOTE)
def p11(S, rep, thorough):
    FR.p11(S, rep)


@prop("P12", "The level a list frame is created with is computed as a term over the stack, and the list built at its End is compared with it.",
      "level == number of open list frames below; kind of list == kind of node; level unchanged between Start and End", (), FOLD_TECH, FOLD_NOTE)
def p12(S, rep, thorough):
    FR.p12(S, rep)


@prop("P15", "For every (parent, child) pair of the grammar the change a closed child makes to its parent's frame is computed as a term and compared with the tree the grammar prescribes.",
      "provenance terms of every field of every AST node, per grammar pair; heading level evaluated over the six possible markers",
      ("the stream is one parse can return (P03, P10): pairs outside the grammar are not judged", "byte spans lie inside the source (P05)"), FOLD_TECH, FOLD_NOTE)
def p15(S, rep, thorough):
    FR.p15(S, rep)
    BR.tree_entries(S.prog, rep, BR.parse_entry(S.prog, core.Report()))


# ------------------------------------------------------------------ printers
import show_rules as SR

SHOW_NOTE = ("What each Display implementation writes is extracted from its MIR as a term over the node's fields, with one row per combination of branch outcomes; "
             "a term the interpreter cannot express is undecided, not an alarm.")


@prop("P13", "The text every printer writes for a string field is a chain of one-pass stages (replacements, character maps, fixed text around); the product of that chain, "
      "the branch conditions on the text, the un-escaping of the lexer and the documented token rules is searched exhaustively, over all its states.",
      "for every string: un-escape(print(s)) = s, and no forbidden token between or across the delimiters",
      ("characters that no stage, condition or delimiter mentions behave alike (one stands for all)", "the lexer splits text into tokens as documented (P06, P07)"),
      "dataflow over MIR to provenance terms, read as sequential transducers; reachability in the product automaton", SHOW_NOTE)
def p13(S, rep, thorough):
    SR.p13(S, rep)


@prop("P14", "The term each printer writes is compared with the documented form of the node on every combination of absent and present parts, child kinds, and up to three children; "
      "field values are opaque symbols.",
      "printed term without escapes == documented template",
      ("loops over children treat every child alike: the loop body's effect is computed once for an arbitrary child",),
      "abstract interpretation of every Display implementation's MIR to a symbolic template, compared with the documented one", SHOW_NOTE)
def p14(S, rep, thorough):
    SR.p14(S, rep)


# ------------------------------------------------------------------ the crate as a whole
import effects as EF


@prop("P17", "Every function of the crate is searched for anything its result could depend on besides its arguments: shared or thread-local state, streams, clock, environment, hash order, "
      "addresses; the types a caller holds are walked for interior mutability; the calls and stores of every function are compared between a build with and a build without debug assertions.",
      "no mutable state outlives a call, no effect outside the result, no hash order, no address, no interior mutability in nodes or events, same calls in every build profile",
      ("the standard library's core and alloc parts are functions of their arguments", "a OnceLock or LazyLock filled without captures always holds the same value"),
      "effect analysis over the MIR of every function, type walk, comparison of two build profiles",
      "Sound for safe code; unsafe blocks and calls the rule does not know make their obligation undecided.")
def p17(S, rep, thorough):
    EF.scan(S.prog, rep)
    EF.same_in_release(S.prog, S.release(), rep)
    roots = [(im["self"], "a printed node") for im in S.prog.impls if im["trait"].endswith("fmt::Display")]
    roots += [(i, "a printed node") for i, t in enumerate(S.prog.types) if t and t.get("local") and t["p"].split("::")[-1] in ("Op", "Token")]
    rep.require(len(roots) >= 15, "types", "fewer than 15 printed types")
    EF.plain(S.prog, rep, roots)
    rep.require(any(i["p"] == "yamd::deserialize" for i in S.prog.items), "entry", "no deserialize function")


@prop("P18", "Every cycle of the whole crate's call graph is found. In a cycle of parsing functions, the event log of the abstract state must hold a node opened by the caller itself at some call of the cycle; "
      "in any other cycle (printers, comparisons) some call must pass a part of what the caller was given, by the provenance of its arguments.",
      "call-graph cycles minus calls made inside an open construct or on a field of the argument are empty",
      (LEX_ASSUME, "one call's stack frame is of bounded size (no alloca in Rust)"),
      "call-graph analysis over MIR; event-log typestate at recursive parser calls; argument provenance at other recursive calls",
      "Sound for the calls visible in MIR; derived implementations recurse over the value's own structure.")
def p18(S, rep, thorough):
    import stack
    R = parser_findings(S, rep, set())
    comps = stack.check(S, rep)
    rep.require(bool(comps) or not clean(R), "recursion", "no recursion was found at all: lists and collapsibles nest")
    floor_nodes(R, rep)


@prop("P20", "The crate is compiled with its serde feature and the real serde_derive; the implementations of Serialize and Deserialize and the serde attributes of every type of the tree and of the event stream, "
      "as the compiler resolved them, are judged by what serde_derive makes of them on the way out and on the way in.",
      "both traits derived; written name is an accepted name and no sibling's; nothing skipped without a default; tags fit their values; untagged variants have disjoint shapes",
      ("serde_derive implements its attributes as documented", "the format is self-describing and keeps strings, numbers, sequences and maps"),
      "attribute and type query over the compiler's representation with the serde feature on", "Implementations written by hand are undecided.")
def p20(S, rep, thorough):
    import serde_rules
    serde_rules.check(S, rep)


@prop("P23", "Per function summary, the parser's state keeps for every token whether one of the stop conditions in force on entry holds at it. Four things are decided: at which tokens each "
      "stop condition holds (its test is followed branch by branch on a window of three symbolic tokens, list levels 0 to 3); which conditions are in force at every call that reads one "
      "construct inside another; that no path on which a construct is recorded moves the cursor over a token at which a condition holds; and at which tokens paragraphs, headings, list "
      "items, lists and image groups end.",
      "stop conditions are the documented end marks; each is pushed for the constructs it ends; no construct but a code body passes one; text ends only at one",
      (LEX_ASSUME, COUNT_ASSUME))
def p23(S, rep, thorough):
    import boundary
    boundary.decide(S, rep)
    fl = sum(1 for o in rep.oblig if "inside" in o)
    rep.require(fl >= 20 or not clean(S.parser()), "boundaries", "fewer than 20 obligations about boundaries were found")


@prop("P24", "Every constructor, conversion, default, hand-written comparison or copy, and every accessor of an event's text is executed on arbitrary arguments; the term it returns is compared "
      "with the documented one, exactly, or over small values that tell the two apart. From parse, deserialize and to_yamd the text is followed to the lexer, the parser and the fold.",
      "the value of every field is the argument of that name; conversions pick the variant of their type; equal iff all parts are equal; the text parsed is the text given",
      ("derived implementations compare and copy all parts", "a trimmed line break in metadata and code is the documented one"),
      "abstract interpretation of MIR to provenance terms; comparison with a table of the documented ones", "A term the rule cannot express is undecided, not an alarm.")
def p24(S, rep, thorough):
    BR.decide(S, rep)
