FOLD = ["src/op/to_yamd.rs", "src/op/mod.rs", "src/nodes/*.rs"]
p("P11", "A stream folds into a tree only if it is well nested",
  "For any sequence of events whose byte ranges lie inside the source: try_to_yamd returns an error when an End does not match the innermost open Start, "
  "when an End comes with nothing open, or when a Start is still open at the end of the sequence; it accepts every stream the parser can produce. "
  "Every Start opens exactly one level, every End closes exactly one, a Value neither. The fold never panics on such a sequence.",
  "every sequence of events, whatever its nesting, including ones written by hand",
  SAMPLE.replace("parse", "fold") + "whether a mismatched End is noticed depends on the pair of node kinds that meet (24 x 24), and tests try three of them.",
  FOLD, [("one frame per open node, each End matched with the frame it closes", "src/op/to_yamd.rs try_to_yamd")],
  over=("inputs", "histories"), observe=["try_to_yamd", "to_yamd"])

p("P12", "A list's level and kind are those of its nesting and marker",
  "In the tree built from any event stream, every list's level is the number of lists (of either kind) that enclose it, "
  "and it is unordered exactly when the stream opened it as an UnorderedList. Level and kind do not change while the list is being filled.",
  "every event stream, every depth of nesting, every mixture of the two kinds of list",
  "Tests nest lists two or three deep and seldom mix the kinds; the level of a list deeper down, after other lists were closed, or inside a list of the other kind is never sampled.",
  FOLD, [("the level is counted over the open frames when the list opens", "src/op/to_yamd.rs count_list_depth"), ("list kinds", "src/op/to_yamd.rs finish_list")],
  observe=["List::level, List::list_type"])

LEXER = ["src/lexer/mod.rs", "src/lexer/token.rs"]
p("P06", "The tokens tile the text",
  "For every text, the ranges of the tokens the lexer yields are non-empty, in order, on character boundaries and adjacent: every byte of the text is in exactly one token, "
  "except the backslash of an escape (a backslash that is not itself escaped), which is in none. No byte is skipped, covered twice or left over at the end.",
  "every &str",
  "The tests lex about sixty short strings; a byte is lost or doubled only for a particular pair of neighbouring tokens with a particular state pending in between, at a particular point of the text.",
  LEXER, [("tokens wait in a one-token buffer and a queue before they are returned", "src/lexer/mod.rs emit, eol, emit_literal_if_started, advance")],
  observe=["the tokens Lexer yields"])

p("P07", "Tokens have their documented kinds, extents and escapes",
  "For every text the lexer yields exactly the documented tokens: the longest run of each repeatable marker as one token (a run of spaces only where no literal is under way; inside a literal spaces belong to it), "
  "single tokens for brackets, parentheses, underscore and pipe, {% and %} as collapsible markers ({% only where the brace starts its token), \\n or \\r\\n as one Eol and two adjacent ones as one Terminator, "
  "everything else as the longest possible literal. A character after a backslash never acts as a marker: it starts a new literal flagged as escaped; no other token is flagged.",
  "every &str",
  "The tests sample single tokens and a few pairs; the kind of a token depends on the characters before it (literal pending, escape, a first Eol, a brace) and after it, in all combinations and at any distance.",
  LEXER, [("dispatch on the character", "src/lexer/mod.rs parse"), ("escapes", "src/lexer/mod.rs escaped, literal_start"), ("Terminator from two Eols", "src/lexer/mod.rs eol")],
  observe=["the tokens Lexer yields"])

p("P16", "Every token's position is where its first character is",
  "For every token of every text: position.byte_index is the start of its range, position.row the number of unescaped line breaks (\\n or \\r\\n) before it, and position.column the number of characters "
  "(not bytes) since the last of those, where the backslash of an escape does not count and an escaped line feed counts as a character.",
  "every &str",
  "A column that drifts needs multi-byte characters, escapes or carriage returns earlier on the same line; the parser's rule that a marker must be at column 0 only shows the drift at the start of a line.",
  LEXER, [("column and row are advanced as characters are taken", "src/lexer/mod.rs next_char, eol")], observe=["Token::position"])

NODES = ["src/nodes/*.rs"]
p("P13", "Printed text is escaped so that it reads back as text",
  "For every string held by a field of a node, removing the escaping backslashes from what is printed for it gives the string back, and, by the documented token rules, what is printed for it "
  "holds no bare token that would end or change the construct around it (the closing delimiter; two consecutive line feeds in inline text and headings; any line feed in a title, an icon or a code language; "
  "in plain text the inline delimiters) and does not merge with the delimiters around it. A printed paragraph does not begin with a bare block marker (heading, list item, highlight, image, thematic break, "
  "at document level metadata, in a highlight an icon), a highlight's paragraphs hold no bare !! at the start of a line, and a top-level list's items hold no bare marker of that list at the start of a line. "
  "Not covered: carriage returns, texts that start with a space right after a one-space delimiter, paragraphs that start with a line feed, and the empty texts documented as lossy.",
  "every string, of any length, in every field of every node",
  "The round-trip tests draw short texts from a fixed list of fragments: a delimiter at the edge of the text, next to a backslash, doubled, or in a field the generator keeps plain, is not drawn.",
  NODES, [("each Display implementation escapes with a chain of replacements", "src/nodes/*.rs"), ("leading block markers", "src/nodes/paragraph.rs escape_leading_block_marker")],
  observe=["to_string() of every node"])

p("P14", "Every node prints all its parts once, in its documented form",
  "Apart from escaping backslashes, every node prints exactly its documented form: each of its fields and children once, completely and in order, between its documented delimiters and separators "
  "(one blank line between blocks, a line break between images and between list items, a list item indented by its level), an absent title, icon, metadata or nested list prints nothing, "
  "and an empty code span or a bold without content prints nothing.",
  "every value of every node type, whatever its fields hold and however many children it has",
  "Tests print a handful of trees per node; which part is lost, doubled or misplaced can depend on which optional parts are present, on the kind of a child, or on the number of children.",
  NODES, [("Display implementations", "src/nodes/*.rs")], observe=["to_string() of every node"])

p("P15", "The tree holds exactly what the event stream says",
  "In the tree built from the event stream of any text, every node of the stream appears exactly once, inside the node that encloses it in the stream and after its earlier siblings, "
  "and each of its parts (text, title, url, alt, src, language, code, embed kind and arguments, highlight title and icon, collapsible title, nested list, heading level, metadata) comes from "
  "its own events, complete and in order. Text is changed in only three ways: line feeds are removed at the end of a code body, at the end of the paragraph of a list item or a highlight "
  "(the text node goes away when nothing else is left in it), and around the metadata. A part without events is empty or absent.",
  "every &str; every pair of a node kind and a parent kind the grammar allows (about 100)",
  SAMPLE + "a part lost, swapped or taken from the wrong event shows only for the pair of nodes concerned and only when that part is not empty; the wider property tests compare printed documents, which hides parts the printer drops as well.",
  FOLD, [("each End folds its frame into the parent's", "src/op/to_yamd.rs try_to_yamd"), ("text of an event", "src/op/mod.rs Content::as_str")],
  observe=["the Yamd returned by to_yamd and deserialize"])

p("P17", "Results depend on the argument alone",
  "Lexing, parsing, building the tree, printing, comparing and cloning are functions of their argument: what one call does depends on no earlier or concurrent call, on no global, thread-local or lazily "
  "filled state, on no environment, file, clock, randomness, address or hash order, and is the same in debug and release builds. Trees, events and tokens are plain data: they own or borrow what they hold, "
  "without interior mutability or shared ownership, so that they can be sent to and shared between threads.",
  "every history of calls, every thread schedule, every environment, both build profiles",
  "A test runs in one process state, once, in one profile: state that leaks from an earlier document or another thread, or a step that exists only in debug builds, shows only in a different history, schedule or profile.",
  ["src/**/*.rs"], [("no statics, no interior mutability", "src/lib.rs and all modules"), ("derived and hand-written traits of the node types", "src/nodes/*.rs, src/op/mod.rs")],
  observe=["the values returned by Lexer, parse, to_yamd, deserialize, to_string"], over=("histories", "schedules", "inputs"))

p("P18", "Call depth follows nesting, never length",
  "The call depth of parsing a text, of building its tree, and of printing, comparing and cloning a tree is bounded by how deeply constructs nest in it; it does not grow with the length of the text "
  "or with the number of sibling blocks, list items, words, lines or tokens. A long flat document therefore never exhausts the stack.",
  "every &str and every tree",
  "Tests use texts of a few dozen bytes, on which recursion per item or per line is as good as a loop; the stack overflows only with tens of thousands of siblings.",
  ["src/**/*.rs"], [("blocks, items and lines are handled by loops", "src/op/document.rs, src/op/list.rs, src/op/parser.rs"), ("lists and collapsibles are the constructs that nest", "src/op/list.rs, src/op/collapsible.rs"), ("the fold keeps its own stack", "src/op/to_yamd.rs")],
  observe=["a long flat document is parsed and printed without overflowing the stack"])

p("P20", "Serialised trees and events read back equal",
  "With the serde feature on, every node type, every event type and what they hold implement Serialize and Deserialize, and any value of them, serialised in a self-describing format and deserialised "
  "again, gives an equal value: no field or variant is left out, renamed in one direction only, confused with another, or impossible to write.",
  "every tree and every event stream; every self-describing serde format",
  "The tests are built without the serde feature; and a field lost only when it is empty, or two variants with the same outer shape, need just that value.",
  ["src/nodes/*.rs", "src/op/mod.rs", "Cargo.toml"], [("derives and serde attributes on each type", "src/nodes/*.rs, src/op/mod.rs")],
  observe=["from_str(to_string(value)) == value with any serde format"], over=("inputs",))

p("P21", "Printing a parsed document and parsing it again gives the same document",
  "For every text, parsing it, printing the tree and parsing the printout yields an equal tree.",
  "every &str and every tree the parser can build",
  SAMPLE + "the property test draws documents from a generator that avoids the characters that need escaping.",
  ["src/nodes/*.rs", "src/op/*.rs"], [("Display implementations escape what the parser would read as markup", "src/nodes/*.rs")],
  observe=["deserialize(&deserialize(s).to_string()) == deserialize(s)"])

p("P22", "Parsing takes time linear in the length of the text",
  "Parse time grows linearly with the length of the text, for every family of texts.",
  "every &str",
  "Tests do not measure time; the benchmark has a handful of benign documents.",
  OPS, [("constructs scan ahead and back off", "src/op/parser.rs Parser::eat_until")], observe=["wall time of parse"])

p("P23", "Constructs end at the end marks around them, and text only there",
  "In the event stream of any text: (1) The end marks are a blank line (a Terminator token) for a heading, paragraph, list or image group of a document and for the paragraphs of a highlight; "
  "%} at the start of a line, or the line break before it, for everything inside a collapsible; exactly !! at the start of a line for the paragraphs of a highlight; and for the text of a list item of level n "
  "a list marker at the start of a line (level many spaces, one - or +, exactly one space after it) of any level up to n+1 and either kind, except that at level n itself only the item's own kind counts. "
  "(2) The end marks of all open constructs stay in force inside them, however deep, except in a code block. (3) No construct but a code block takes in a token at which an end mark in force holds, "
  "other than its own delimiters; an inline construct that would have to is not one. (4) Text ends only there: a paragraph, heading, list item, list, image group or document goes on until an end mark in force or the end of the text "
  "(a list item or list also ends before a list marker; a document only at the marks of what is around it), and so does an image, code block or embed that ends without a line break.",
  "every &str, every nesting of constructs, every list level",
  "Which mark ends what depends on the pair of constructs and on what is nested between them: a %} inside a list item's bold text inside a collapsible, a marker of the other kind two levels up. Tests try the direct pairs.",
  ["src/op/parser.rs", "src/op/*.rs"], [("stack of stop conditions, asked at every token", "src/op/parser.rs StopCondition::matches, at_eof, with_eof, with_eofs, with_no_stops"),
   ("scanning for a delimiter stops at them", "src/op/parser.rs eat_until"), ("list markers", "src/op/parser.rs at_list_boundary; src/op/list.rs list_item")],
  observe=["Parser::at_eof", "parse"])

p("P24", "Constructors, conversions and entry points keep exactly what they are given",
  "For all arguments: every constructor of a node puts each argument, unchanged, into the field of its name (only Code::new removes line feeds at the end of the code, and Yamd::new those around the metadata); "
  "Op::new_start, new_end and new_value make the event they name from the node and content given. Every From conversion picks the variant of the type given, with the value unchanged inside, a default value has nothing in it, "
  "and two values are equal exactly if all their parts are, a clone being equal to its original. Content::as_str gives the whole text of a content, to_string the same, and is_empty holds exactly if that text is empty. "
  "parse lexes the text it is given from its first byte to its last and returns the events in the order recorded; deserialize(s) is to_yamd(&parse(s), s); to_yamd folds exactly the events and the text it is given.",
  "every argument value: every text, every vector of children, every number, every content in every source",
  "Tests call a constructor with one or two plain values; an argument that is trimmed, clamped, deduplicated or dropped only when it is long, empty, repeated or has white space around it is not called for, "
  "and equality is tested on equal values only.",
  ["src/nodes/*.rs", "src/op/mod.rs", "src/op/to_yamd.rs", "src/lib.rs", "src/lexer/mod.rs"],
  [("new of each node", "src/nodes/*.rs"), ("From of each variant", "src/nodes/yamd.rs, src/nodes/paragraph.rs, src/nodes/bold.rs"), ("Content", "src/op/mod.rs"), ("entry points", "src/lib.rs deserialize, src/op/mod.rs parse, src/op/to_yamd.rs to_yamd")],
  observe=["the values returned by new, from, default, ==, clone, as_str, parse, deserialize, to_yamd"])
