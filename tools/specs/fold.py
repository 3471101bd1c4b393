F = "src/op/to_yamd.rs"
PRE = '''use yamd::nodes::*;
fn main() {
'''
BUGS = []
def bug(id, prop, edits, body, needs, breaks):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=PRE + body + "\n}\n", needs=needs, breaks=breaks))

bug("list-level-same-kind", "P12", [(F, '''fn count_list_depth(stack: &[Frame]) -> usize {
    stack
        .iter()
        .filter(|f| matches!(f, Frame::UnorderedList { .. } | Frame::OrderedList { .. }))
        .count()
}''', '''fn count_list_depth(stack: &[Frame]) -> usize {
    stack
        .iter()
        .filter(|f| matches!(f, Frame::UnorderedList { .. } | Frame::ListItem { nested_list: Some(_), .. }))
        .count()
}''')], '''
    let y = yamd::deserialize("+ a\\n + b\\n  + c");
    let YamdNodes::List(l) = &y.body[0] else { panic!("{y:?}") };
    let l1 = l.body[0].nested_list.as_ref().unwrap();
    let l2 = l1.body[0].nested_list.as_ref().unwrap();
    assert_eq!((l.level, l1.level, l2.level), (0, 1, 2));''', "an ordered list nested in an ordered list", "the level of lists inside an ordered list is too small")

bug("item-trim-one-newline", "P15", [(F, '''        let trimmed = t.trim_end_matches('\\n');
        if trimmed''', '''        let trimmed = t.strip_suffix('\\n').unwrap_or(t);
        if trimmed''')], '''
    use yamd::op::*;
    let s = "- a";
    let t = |x: &str| Op::new_value(Content::Materialized(x.to_string()));
    let st = |n| Op::new_start(n, Vec::new());
    let en = |n| Op::new_end(n, Vec::new());
    let _ = (s, t, st, en);
    let y = yamd::deserialize("!!\\na\\n\\\\\\n\\n!!");
    let z = yamd::deserialize("!! t\\na\\n\\n\\n!!");
    for y in [y, z] {
        for n in &y.body {
            if let YamdNodes::Highlight(h) = n {
                for p in &h.body {
                    if let Some(ParagraphNodes::Text(t)) = p.body.last() { assert!(!t.ends_with('\\n'), "{t:?}"); }
                }
            }
        }
    }''', "a highlight whose last paragraph is followed by several line breaks", "only one trailing line break is removed")

bug("item-trim-spaces", "P15", [(F, '''        let trimmed = t.trim_end_matches('\\n');
        if trimmed''', '''        let trimmed = t.trim_end();
        if trimmed''')], '''
    let y = yamd::deserialize("- a  \\n- b");
    let YamdNodes::List(l) = &y.body[0] else { panic!("{y:?}") };
    assert_eq!(l.body[0].text, vec![ParagraphNodes::Text("a  ".into())]);''', "a list item that ends in spaces", "spaces at the end of a list item's text are removed along with the line break")

bug("code-trim-leading", "P15", [(F, '''let code = code.trim_end_matches('\\n').to_owned();''', '''let code = code.trim_matches('\\n').to_owned();''')], '''
    let y = yamd::deserialize("```rs\\n\\nfn a\\n```");
    let YamdNodes::Code(c) = &y.body[0] else { panic!("{y:?}") };
    assert_eq!(c.code, "\\nfn a");''', "a code block whose body starts with an empty line", "empty lines at the start of a code body are removed")

bug("highlight-empty-title", "P15", [(F, '''Frame::Highlight { title, .. } => *title = Some(text),''', '''Frame::Highlight { title, .. } => *title = Some(text).filter(|t| !t.trim().is_empty()),''')], '''
    let y = yamd::deserialize("!!  \\na\\n!!");
    let YamdNodes::Highlight(h) = &y.body[0] else { panic!("{y:?}") };
    assert!(h.title.is_some(), "{h:?}");''', "a highlight whose title is blank", "a blank highlight title becomes no title")

bug("metadata-trim-spaces", "P15", [(F, '''let metadata = text.trim_matches('\\n').to_owned();''', '''let metadata = text.trim().to_owned();''')], '''
    let y = yamd::deserialize("---\\n  a: b\\n  c: d\\n---\\n\\nx");
    assert_eq!(y.metadata.as_deref(), Some("  a: b\\n  c: d"));''', "metadata whose first line is indented", "the indentation of the first metadata line is lost")

bug("ordered-end-closes-unordered", "P11", [(F, '''                    (Node::UnorderedList, Frame::UnorderedList { level, items }) => {''', '''                    (
                        Node::UnorderedList | Node::OrderedList,
                        Frame::UnorderedList { level, items },
                    ) => {''')], '''
    use yamd::op::*;
    let st = |n| Op::new_start(n, Vec::new());
    let en = |n| Op::new_end(n, Vec::new());
    let ops = vec![st(Node::Document), st(Node::UnorderedList), st(Node::ListItem), en(Node::ListItem), en(Node::OrderedList), en(Node::Document)];
    assert!(yamd::op::try_to_yamd(&ops, "").is_err());''', "a hand-built stream that closes an unordered list with End(OrderedList)", "a mismatched End is accepted")

bug("unclosed-document-accepted", "P11", [(F, '''        Frame::Yamd { metadata, body } => Ok(Yamd::new(metadata, body)),''', '''        Frame::Yamd { metadata, body } => Ok(Yamd::new(metadata, body)),
        Frame::Document { children } if !children.is_empty() => match stack.pop() {
            Some(Frame::Yamd { metadata, .. }) => Ok(Yamd::new(metadata, children)),
            _ => Err(UnbalancedOpStream),
        },''')], '''
    use yamd::op::*;
    let st = |n| Op::new_start(n, Vec::new());
    let en = |n| Op::new_end(n, Vec::new());
    let ops = vec![st(Node::Document), st(Node::ThematicBreak), en(Node::ThematicBreak)];
    assert!(yamd::op::try_to_yamd(&ops, "").is_err());''', "a stream cut off after a complete block", "a stream whose Document is never closed is accepted")

bug("nested-list-overwrites", "P15", [(F, '''                            Frame::ListItem { text, .. } => {
                                trim_trailing_newline_from_text(&mut body);
                                *text = body;''', '''                            Frame::ListItem { text, .. } => {
                                if body.len() > 1 {
                                    trim_trailing_newline_from_text(&mut body);
                                }
                                *text = body;''')], '''
    let y = yamd::deserialize("- a\\n- b\\n\\nx");
    let YamdNodes::List(l) = &y.body[0] else { panic!("{y:?}") };
    assert_eq!(l.body[0].text, vec![ParagraphNodes::Text("a".into())]);''', "an item of plain text", "the line break after an item of plain text stays in its text")

bug("embed-args-trim", "P15", [(F, '''let args = values.get(2).cloned().unwrap_or_default();''', '''let args = values.get(2).map(|a| a.trim_start_matches('|').to_owned()).unwrap_or_default();''')], '''
    let y = yamd::deserialize("{{youtube|||a}}");
    let y2 = yamd::deserialize("{{youtube||a}}");
    for (y, w) in [(y, "||a"), (y2, "|a")] {
        if let YamdNodes::Embed(e) = &y.body[0] { assert_eq!(e.args, w); }
    }
    let y3 = yamd::deserialize("{{y|\\\\|a}}");
    let YamdNodes::Embed(e) = &y3.body[0] else { panic!("{y3:?}") };
    assert_eq!(e.args, "|a");''', "embed arguments that start with a bar", "bars at the start of the arguments are removed")

bug("alt-collapsed", "P15", [(F, '''Frame::Image { alt, .. } => *alt = text,''', '''Frame::Image { alt, .. } => *alt = text.replace('\\n', " "),''')], '''
    let y = yamd::deserialize("![a\\nb](u)");
    let YamdNodes::Image(i) = &y.body[0] else { panic!("{y:?}") };
    assert_eq!(i.alt, "a\\nb");''', "an image whose alternative text has a line break", "the line break becomes a space")
