"""Writes /verif/properties.jsonl (the source of truth for statements is this file)."""
import json, os
P = []


def p(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=("the op stream returned by parse",)):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
              "observe_at": list(observe), "hook_needed": None}})


SAMPLE = "The tests parse a few hundred hand-picked strings; "
OPS = ["src/op/*.rs"]

p("P01", "No text and no tree makes the library panic",
  "Lexing and parsing any text, building the tree from the event stream that parse returned for it, and printing any tree never panic: no index or slice is out of range or off a character "
  "boundary, no absent value is unwrapped, no counter goes below zero, no explicit panic is reached. (Exhausted memory or stack are not meant.)",
  "every &str passed to Lexer::new, parse or deserialize; every value of the node types passed to to_string",
  SAMPLE + "a panic needs one text that breaks one unstated assumption of one branch (an empty slice, a missing neighbour, a multi-byte character at a cut).",
  ["src/lexer/*.rs", "src/op/*.rs", "src/nodes/*.rs"], [("guards before indexing and unwrapping", "src/op/*.rs"), ("saturating and guarded arithmetic on levels", "src/op/list.rs, src/op/to_yamd.rs"), ("the fold's expect in to_yamd", "src/op/to_yamd.rs to_yamd")],
  over=("inputs",), observe=["Lexer, parse, to_yamd, deserialize, to_string return"])

p("P02", "Parsing terminates on every input",
  "Parsing any text returns: every loop of the block and inline parsers consumes at least one token per iteration or leaves "
  "the loop, and no construct is entered recursively at the position where it was already entered. "
  "No text, however malformed or unterminated, makes the parser spin without advancing.",
  "every &str passed to parse or deserialize",
  SAMPLE + "a stall needs one particular unfinished construct followed by one particular boundary, and a sample never covers all combinations of open constructs and boundaries.",
  OPS, [("the cursor only moves back when a construct gives up", "src/op/*.rs, p.pos = start"), ("every scan advances by one token", "src/op/parser.rs Parser::eat_until, Parser::next")],
  observe=["parse and deserialize return"])

p("P03", "The event stream is well nested",
  "In the event stream returned by parsing any text, every End closes the innermost open Start of the same node, no Start is left open, "
  "and at top level there is exactly one Document, preceded by at most one Metadata block.",
  "every &str",
  SAMPLE + "an unbalanced stream needs a construct that is abandoned halfway (at end of input, at an enclosing block's end, inside another construct), and the abandonment points multiply with nesting.",
  OPS, [("each construct pushes its Start and End itself and truncates the log when it gives up", "src/op/*.rs"), ("late Start insertion at a remembered log position", "src/op/list.rs list_inner, src/op/images.rs images")])

p("P04", "A construct that does not match leaves no trace",
  "When the parser tries a construct and the text turns out not to be one, the attempt has no lasting effect: no event of the abandoned "
  "attempt stays in the stream, no text it looked at is skipped, and no block-ending rule it put in force stays in force. "
  "An attempt never removes events that were emitted before it began.",
  "every &str, every construct, every point at which an attempt can fail",
  SAMPLE + "each construct has several failure exits (missing middle part, missing end, wrong boundary), each of which must restore three pieces of state, under every enclosing construct.",
  OPS, [("saved cursor and log length restored on failure", "src/op/*.rs, p.pos = start; p.ops.truncate(snap)"), ("scoped stop conditions", "src/op/parser.rs with_eof, with_eofs, with_no_stops")])

p("P05", "Events cover the text exactly once, in order",
  "The contents of the events, taken in stream order, cover every token of the source exactly once and in source order: nothing is "
  "dropped, duplicated or moved, and the byte range or text of each event is that of the tokens it covers with only the escaping backslashes removed. "
  "The only exception is the line break directly before a collapsible's closing marker, which belongs to no event.",
  "every &str",
  SAMPLE + "dropping or duplicating text needs a particular interleaving of plain text with constructs that succeed or fail, and tests compare only the streams somebody wrote down.",
  OPS, [("pending plain text is emitted before the construct that follows it", "src/op/paragraph.rs, heading.rs, bold.rs"), ("content of a token range", "src/op/parser.rs Parser::span, src/op/mod.rs Content::from_tokens")])

p("P09", "Constructs open and close only at their documented delimiters",
  "Each construct is opened and closed by exactly the delimiter its documentation gives (kind, run length, start of line, following space or line break), "
  "never by a longer, shorter or misplaced run, and each documented form does occur. "
  "Plain text held by a construct that is delimited by a single marker never contains that marker: the first one closes it.",
  "every &str, all 24 node kinds",
  SAMPLE + "an off-by-one in a run length or a lost start-of-line condition only shows on the neighbouring run length in the position nobody wrote a test for.",
  OPS, [("token predicates of each construct", "src/op/*.rs, is_* functions"), ("scan to the first matching token", "src/op/parser.rs Parser::eat_until")])

p("P10", "Every node holds only the children its grammar allows",
  "In the event stream of any text each node contains only the kinds of children its documented grammar lists, in the documented number and order "
  "(an image is a title then a destination; an embed is a kind, a separator and arguments; a list item is a paragraph and at most one nested list), and every listed child can occur.",
  "every &str, all 24 node kinds",
  SAMPLE + "a forbidden child appears only when one construct is nested in another at a position the author did not think of; whole-document property tests generate only documents the printer can print.",
  OPS, [("each construct calls only the parsers of its permitted children", "src/op/*.rs")])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")).read())

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for x in sorted(P, key=lambda x: x["id"]):
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
