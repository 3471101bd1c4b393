N = "src/nodes/"
PRE = '''use yamd::nodes::*;
use yamd::{deserialize, Yamd};
#[allow(dead_code)]
fn doc(n: Vec<YamdNodes>) -> Yamd { Yamd::new(None, n) }
#[allow(dead_code)]
fn same(y: Yamd) { let s = y.to_string(); let z = deserialize(&s); assert_eq!(y, z, "{s:?}"); }
#[allow(dead_code)]
fn para(n: Vec<ParagraphNodes>) -> YamdNodes { Paragraph::new(n).into() }
fn main() {
'''
BUGS = []
def bug(id, prop, edits, body, needs, breaks):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=PRE + body + "\n}\n", needs=needs, breaks=breaks))

bug("anchor-url-balanced", "P13", [(N+"anchor.rs", '''            self.url
                .replace("\\\\", "\\\\\\\\")
                .replace("(", "\\\\(")
                .replace(")", "\\\\)")
''', '''            escape_url(&self.url)
'''), (N+"anchor.rs", "impl Display for Anchor {", '''fn escape_url(url: &str) -> String {
    let url = url.replace("\\\\", "\\\\\\\\");
    // balanced parentheses are part of the url as they are
    if url.matches('(').count() == url.matches(')').count() {
        return url;
    }
    url.replace("(", "\\\\(").replace(")", "\\\\)")
}

impl Display for Anchor {''')], '''same(doc(vec![para(vec![Anchor::new("t", "a)b(c").into()])]));''', "a url that holds as many opening as closing parentheses, in the wrong order", "the url is cut at its first closing parenthesis")
bug("strike-double-only", "P13", [(N+"strikethrough.rs", '.replace("~", "\\\\~")', '.replace("~~", "\\\\~\\\\~")')], '''same(doc(vec![para(vec![Strikethrough::new("a~").into()])]));''', "struck text that begins or ends with one tilde", "the tilde joins the closing marker and the strikethrough is lost")
bug("embed-args-pairs", "P13", [(N+"embed.rs", '.replace("}", "\\\\}")', '.replace("}}", "\\\\}\\\\}")')], '''same(doc(vec![Embed::new("youtube", "a}").into()]));''', "embed arguments that end in one brace", "the brace joins the closing marker")
bug("paragraph-three-lines", "P13", [(N+"paragraph.rs", '.replace("\\n\\n", "\\\\\\n\\\\\\n")', '.replace("\\n\\n", "\\\\\\n\\n")')], '''same(doc(vec![para(vec![ParagraphNodes::Text("a\\n\\n\\nb".into())])]));''', "paragraph text with three line feeds in a row", "the second and third line feed end the paragraph")
bug("ordered-item-marker", "P13", [(N+"list.rs", '''        let (pat, rep) = match self.list_type {
            ListTypes::Unordered => ("\\n- ", "\\n\\\\- "),
            ListTypes::Ordered => ("\\n+ ", "\\n\\\\+ "),
        };''', '''        let (pat, rep) = match (&self.list_type, self.level) {
            (ListTypes::Unordered, _) | (ListTypes::Ordered, 1..) => ("\\n- ", "\\n\\\\- "),
            (ListTypes::Ordered, 0) => ("\\n+ ", "\\n\\\\+ "),
        };''')], '''
    let i = |s: &str| ListItem::new(vec![ParagraphNodes::Text(s.into())], None);
    let l = List::new(ListTypes::Ordered, 1, vec![i("a\\n+ b")]).to_string();
    assert_eq!(l, " + a\\n\\\\+ b");''', "an item of a nested ordered list whose text holds a line starting with its marker", "the line becomes an item of its own")
bug("nested-list-needs-text", "P14", [(N+"list_item.rs", "Some(nested) => write!", "Some(nested) if !text.is_empty() => write!"), (N+"list_item.rs", "None => write!", "_ => write!")], '''
    let l = List::new(ListTypes::Unordered, 1, vec![ListItem::new(vec![ParagraphNodes::Text("b".into())], None)]);
    assert_eq!(ListItem::new(vec![], Some(l)).to_string(), "\\n - b");''', "a list item without text of its own that holds a nested list", "the nested list is not printed")
bug("bold-blank-dropped", "P14", [(N+"bold.rs", "BoldNodes::Text(t) => !t.is_empty(),", "BoldNodes::Text(t) => !t.trim().is_empty(),")], '''
    assert_eq!(Bold::new(vec![BoldNodes::Text(" ".into())]).to_string(), "** **");''', "bold text made of blanks only", "the bold run is not printed at all")
bug("icon-needs-title", "P14", [(N+"highlight.rs", '''            title,
            icon,
''', '''            title,
            if self.title.is_some() || self.body.is_empty() { icon } else { icon.replace("! ", "!! ") },
''')], '''
    let h = Highlight::new(None::<String>, Some("i".to_string()), vec![Paragraph::new(vec![ParagraphNodes::Text("x".into())])]);
    same(doc(vec![h.into()]));''', "a highlight with an icon but no title", "the icon line is printed as another opening line")
bug("code-fence-longer", "P13", [(N+"code.rs", '.replace("```", "\\\\```")', '.replace("\\n```", "\\n\\\\```")')], '''same(doc(vec![Code::new("rs", "```").into()]));''', "code whose first line starts with a fence", "the code block ends at its first line")
bug("heading-hash-only-last", "P14", [(N+"heading.rs", '.replace("#", "\\\\#")', '.trim_end_matches("#")')], '''
    let h = Heading::new(2, vec![HeadingNodes::Text("C#".into())]).to_string();
    assert!(h.contains("C\\\\#") || h == "## C#", "{h}");''', "heading text that ends in a hash", "the hash is dropped from the text")
bug("lang-line", "P13", [(N+"code.rs", '''                .replace("`", "\\\\`")
                .replace("\\n", "\\\\\\n"),''', '''                .replace("`", "\\\\`")
                .replace("\\n", "\\\\\\n")
                .replace("\\\\\\n\\\\\\n", "\\\\\\n\\n"),''')], '''same(doc(vec![Code::new("a\\n\\nb", "x").into()]));''', "a code language holding two line feeds in a row", "the second line feed ends the language")
bug("collapsible-sep", "P14", [(N+"collapsible.rs", '''                .collect::<Vec<_>>()
                .join("\\n\\n")
''', '''                .collect::<Vec<_>>()
                .join(if self.body.len() > 2 { "\\n" } else { "\\n\\n" })
''')], '''
    let p = |s: &str| para(vec![ParagraphNodes::Text(s.into())]);
    same(doc(vec![Collapsible::new("t", vec![p("a"), p("b"), p("c")]).into()]));''', "a collapsible with more than two items", "its items run together")
