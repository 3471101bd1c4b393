N = "src/nodes/"; O = "src/op/"
PRE = '''use yamd::nodes::*;
use yamd::{deserialize, Yamd};
#[allow(dead_code)]
fn doc(n: Vec<YamdNodes>) -> Yamd { Yamd::new(None, n) }
#[allow(dead_code)]
fn para(n: Vec<ParagraphNodes>) -> YamdNodes { Paragraph::new(n).into() }
fn main() {
'''
BUGS = []
def bug(id, prop, edits, body, needs, breaks, kind=None):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=PRE + body + "\n}\n", needs=needs, breaks=breaks, kind=kind))

bug("list-kind-remembered", "P17", [(N+"list_item.rs", "impl Display for ListItem {", '''thread_local! {
    /// Indentation of the list that is being printed.
    pub(super) static INDENT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

impl Display for ListItem {'''), (N+"list_item.rs", '''            None => write!(f, "{}", text),''', '''            // a line that looks like an item of the list's own level stays text
            None if INDENT.get() > 1 => {
                let marker = format!("\\n{}- ", " ".repeat(INDENT.get()));
                write!(f, "{}", text.replace(&marker, &marker.replace('-', "\\\\-")))
            }
            None => write!(f, "{}", text),'''), (N+"list.rs", "        let (pat, rep) = match", "        super::list_item::INDENT.set(self.level);\n        let (pat, rep) = match")], '''
    let item = ListItem::new(vec![ParagraphNodes::Text("a\\n  - b".into())], None);
    let before = item.to_string();
    let _ = List::new(ListTypes::Unordered, 2, vec![ListItem::new(vec![], None)]).to_string();
    assert_eq!(before, item.to_string());''', "an item printed on its own after a nested list was printed on the same thread", "what an item prints depends on the list printed before it")
bug("debug-only-terminator", "P17", [(O+"highlight.rs", '''        } else if let Some(term_range) = p.eat(is_terminator) {
            let term_content = p.span(term_range);
            p.ops.push(Op::new_value(term_content));
        }
        p.with_eofs(
            &[StopCondition::HighlightEnd, StopCondition::Terminator],
            |p| {
                paragraph(p);
            },
        );
''', '''        } else if let Some(term_range) = p.eat(is_terminator) {
            let term_content = p.span(term_range);
            p.ops.push(Op::new_value(term_content));
        }
        p.with_eofs(
            &[StopCondition::HighlightEnd, StopCondition::Terminator],
            |p| debug_assert!(paragraph(p) || p.at_eof()),
        );
''')], '''
    let y = deserialize("!!\\na\\n\\nb\\n!!");
    assert!(matches!(&y.body[0], YamdNodes::Highlight(h) if h.body.len() == 2), "{y:?}");''', "a build without debug assertions", "the paragraphs of a highlight are parsed only in debug builds", "release")
bug("first-document-metadata", "P17", [(N+"yamd.rs", '''        let metadata = metadata.map(''', '''        static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let metadata = metadata.filter(|m| !m.is_empty() || SEEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < 1000);
        let metadata = metadata.map(''')], '''
    let first = Yamd::new(Some(String::new()), vec![]);
    for _ in 0..1000 { assert_eq!(first, Yamd::new(Some(String::new()), vec![])); }''', "more than a thousand documents with empty metadata in one process", "the thousandth document is built differently from the first")
bug("images-recursive-print", "P18", [(N+"images.rs", "impl Display for Images {", '''fn print(images: &[Image], f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match images {
        [] => Ok(()),
        [last] => write!(f, "{last}"),
        [first, rest @ ..] => {
            writeln!(f, "{first}")?;
            print(rest, f)?;
            f.write_str("")
        }
    }
}

impl Display for Images {'''), (N+"images.rs", '''        write!(
            f,
            "{}",
            self.body
                .iter()
                .map(|image| image.to_string())
                .collect::<Vec<_>>()
                .join("\\n")
        )
''', "        print(&self.body, f)\n")], '''
    let v = vec![Image::new("a", "b"); 400_000];
    assert!(Images::new(v).to_string().len() > 400_000);''', "an image gallery with hundreds of thousands of images", "printing recurses once per image and overflows the stack")
bug("document-recursive", "P18", [(O+"document.rs", '''    while !p.at_eof() {
        let before = p.pos;
''', '''    blocks(p);
    p.ops.push(Op::new_end(Node::Document, Content::Span(0..0)));
}

fn blocks(p: &mut Parser) {
    if !p.at_eof() {
        let before = p.pos;
'''), (O+"document.rs", '''            "document loop made no progress at token {before}"
        );
    }
    p.ops.push(Op::new_end(Node::Document, Content::Span(0..0)));
''', '''            "document loop made no progress at token {before}"
        );
        blocks(p);
    }
''')], '''
    let s = "a\\n\\n".repeat(300_000);
    assert_eq!(deserialize(&s).body.len(), 300_000);''', "a document with hundreds of thousands of blocks", "parsing recurses once per block and overflows the stack")
bug("list-siblings-recursive", "P18", [(O+"list.rs", '''    while list_item(p, level, Some(list_kind)).is_some() {}

    p.ops''', '''    siblings(p, level, list_kind);

    p.ops'''), (O+"list.rs", '''pub fn list(p''', '''fn siblings(p: &mut Parser, level: usize, kind: ListKind) -> usize {
    match list_item(p, level, Some(kind)) {
        Some(kind) => 1 + siblings(p, level, kind),
        None => 0,
    }
}

pub fn list(p''')], '''
    let s = "- a\\n".repeat(400_000);
    let y = deserialize(&s);
    assert_eq!(y.body.len(), 1);''', "a list with hundreds of thousands of items at one level", "parsing recurses once per item and overflows the stack")
J = "\n#[allow(dead_code)]\nfn same(y: Yamd) { let s = serde_json::to_string(&y).unwrap(); let z: Yamd = serde_json::from_str(&s).expect(&s); assert_eq!(y, z, \"{s}\"); }\n"
def sbug(id, edits, body, needs, breaks):
    BUGS.append(dict(id=id, property="P20", edits=edits, demo=PRE.replace("fn main", J + "fn main") + body + "\n let _ = deserialize(\"\");}\n", needs=needs, breaks=breaks, kind="serde"))
sbug("highlight-empty-body-skipped", [(N+"highlight.rs", "    pub body: Vec<Paragraph>,", '    #[cfg_attr(feature = "serde", serde(skip_serializing_if = "Vec::is_empty"))]\n    pub body: Vec<Paragraph>,')],
 'same(doc(vec![Highlight::new(Some("t"), None::<&str>, vec![]).into()]));', "a highlight without paragraphs, serialised and read back", "a highlight without paragraphs cannot be read back")
sbug("bold-nodes-untagged", [(N+"bold.rs", '#[cfg_attr(feature = "serde", serde(tag = "type", content = "value"))]', '#[cfg_attr(feature = "serde", serde(untagged))]')],
 'same(doc(vec![para(vec![Bold::new(vec![BoldNodes::Strikethrough(Strikethrough::new("s"))]).into()])]));', "struck or italic text inside bold, serialised and read back", "struck text is read back as another kind of text")
sbug("image-src-renamed", [(N+"image.rs", "    pub src: String,", '    #[cfg_attr(feature = "serde", serde(rename(serialize = "url"), alias = "href"))]\n    pub src: String,')],
 'same(doc(vec![Image::new("a", "s").into()]));', "an image, serialised and read back", "an image cannot be read back")
bug("metadata-cut-mid-character", "P01", [(N+"yamd.rs", '''if metadata.starts_with("---") {''', '''if metadata.len() >= 3 && &metadata[..3] == "---" {''')], '''
    let y = Yamd::new(Some("a\\u{e9}\\u{e9}".into()), vec![]);
    assert!(y.to_string().contains('a'));''', "metadata whose third byte lies inside a character", "printing panics")
bug("list-marker-lookahead", "P01", [(O+"list.rs", '''    let marker_kind = ListKind::try_from(p.get(marker_idx)?).ok()?;
''', '''    let marker_kind = ListKind::try_from(p.get(marker_idx)?).ok()?;
    // the item must have something to hold
    if p.get(marker_idx + 2).is_none() && p.get(marker_idx + 1).unwrap().range.len() > 1 {
        return None;
    }
''')], '''
    for s in ["- a\\n -", "-", "+"] { let _ = deserialize(s); }''', "a list marker as the very last character of the text", "parsing panics")
bug("item-blank-first-char", "P01", [(N+"list_item.rs", '''            Some(nested) => write!(f, "{}\\n{}", text, nested),''', '''            // the level of the nested list tells how far it is indented
            Some(nested) if nested.level > 0 && text.chars().last().unwrap() == '\\n' => write!(f, "{}{}", text, nested),
            Some(nested) => write!(f, "{}\\n{}", text, nested),''')], '''
    let l = List::new(ListTypes::Unordered, 1, vec![ListItem::new(vec![ParagraphNodes::Text("b".into())], None)]);
    assert!(ListItem::new(vec![], Some(l)).to_string().contains("- b"));''', "a list item without text that holds a nested list", "printing panics")
