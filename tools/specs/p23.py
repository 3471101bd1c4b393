P='src/op/parser.rs'
PRE='''use yamd::op::{parse, Op, OpKind, Node};
use yamd::deserialize;
use yamd::nodes::*;
#[allow(dead_code)]
fn kinds(s: &str) -> Vec<String> { parse(s).iter().filter_map(|o| match &o.kind { OpKind::Start(n) => Some(format!("{n:?}")), _ => None }).collect() }
#[allow(dead_code)]
fn n(s: &str, k: &str) -> usize { kinds(s).iter().filter(|x| *x == k).count() }
'''
BUGS=[
dict(id='delimiter-before-boundary',property='P23',edits=[(P,'''            if self.at_eof() {
                break;
            }
            if matcher(token) {
                let before = start..self.pos;
                let match_start = self.pos;
                self.pos += 1;
                return Some((before, match_start..self.pos));
            }
''','''            if matcher(token) {
                let before = start..self.pos;
                let match_start = self.pos;
                self.pos += 1;
                return Some((before, match_start..self.pos));
            }
            if self.at_eof() {
                break;
            }
''')],demo=PRE+'''fn main(){
 // the line break before the outer %} is its end mark: the inner opener is not a title line
 let d = deserialize("{% outer\\n{% inner\\n%}\\n\\ntail");
 let YamdNodes::Collapsible(c) = &d.body[0] else { panic!("{d:?}") };
 assert!(matches!(c.body.last(), Some(YamdNodes::Paragraph(_))), "{c:?}");
 assert_eq!(d.body.len(), 2);
}''',needs="a delimiter token that is itself the end mark of an enclosing construct: a line break before %} that closes a title line inside a collapsible",
breaks="eat_until accepts the delimiter before asking the stop conditions, so a construct inside takes the end mark of the construct around it"),
dict(id='two-marks-deep',property='P23',edits=[(P,'self.eof_stack.iter().any(|cond| cond.matches(token, self))','self.eof_stack.iter().rev().take(2).any(|cond| cond.matches(token, self))')],demo=PRE+'''fn main(){
 // collapsible > document > list > item > list > item > list > item: the %} still ends it
 let s = "{% t\\n- a\\n - b\\n  - c\\n   - d\\n%}";
 let d = deserialize(s);
 assert!(matches!(d.body[0], YamdNodes::Collapsible(_)), "{d:?}");
 let d = deserialize("{% t\\n- a\\n - b\\n  - c\\n   - d\\n    - e\\n%}");
 assert!(matches!(d.body[0], YamdNodes::Collapsible(_)), "{d:?}");
 for k in 1..6 { let s = format!("{}!! h\\nx\\n!!\\n{}", "{% t\\n".repeat(k), vec!["%}"; k].join("\\n"));
  assert_eq!(n(&s, "Collapsible"), k, "{s}"); assert_eq!(n(&s, "Highlight"), 1); }
 let s = "{% a\\n{% b\\n{% c\\n{% d\\n!! \\nx [y\\n%}](u)\\n%}\\n%}\\n%}";
 assert!(!kinds(s).contains(&"Anchor".to_string()), "{:?}", kinds(s));
}''',needs="three different end marks in force at once: a list or a highlight inside a collapsible",
breaks="only the innermost two stop conditions are asked, so the end marks of constructs further out are no longer in force deep inside"),
dict(id='child-marker-only-own-kind',property='P23',edits=[(P,'''        let k = if level == current_level {
            Some(kind)''','''        let k = if level == current_level || level > max_level - 1 && max_level > 2 {
            Some(kind)''')],demo=PRE+'''fn main(){
 let s = "- a\\n - b\\n  - c\\n   + d";
 assert_eq!(n(s, "OrderedList"), 1, "{:?}", kinds(s));
}''',needs="a list at level 3 of the other kind than the list item it is nested in",
breaks="the text of a list item of level 2 and deeper no longer ends at a child marker of the other kind"),
dict(id='level-capped',property='P23',edits=[('src/op/list.rs','''            level,
            kind: marker_kind,
        },''','''            level: level.min(7),
            kind: marker_kind,
        },''')],demo=PRE+'''fn main(){
 let s: String = (0..11).map(|i| format!("{}- x\\n", " ".repeat(i))).collect();
 assert_eq!(n(&s, "UnorderedList"), 11, "{:?}", kinds(&s));
}''',needs="lists nested nine levels deep",
breaks="the level of the list boundary is capped at 7, so the text of a deeper item does not end at the marker of its children"),
dict(id='highlight-close-any-length',property='P23',edits=[(P,'''                    && token.position.column == 0
                    && token.range.len() == 2''','''                    && token.position.column == 0
                    && token.range.len() % 2 == 0''')],demo=PRE+'''fn main(){
 let d = deserialize("!! t\\nsome\\n!!!!\\ntext\\n!!");
 let YamdNodes::Highlight(h) = &d.body[0] else { panic!("{d:?}") };
 assert_eq!(h.body.len(), 1, "{h:?}");
 let d = deserialize("!! t\\nsome **bold\\n!!!!\\n** text\\n!!");
 let YamdNodes::Highlight(h) = &d.body[0] else { panic!("{d:?}") };
 assert!(h.body[0].body.iter().any(|n| matches!(n, ParagraphNodes::Bold(_))), "{h:?}");
}''',needs="a line that starts with four exclamation marks inside a highlight",
breaks="a longer run of ! at the start of a line counts as the end mark of a highlight and ends the paragraph"),
dict(id='bold-skips-boundary-after-child',property='P23',edits=[('src/op/bold.rs','''                    p.ops.insert(before_snap, Op::new_value(content));
                }
            } else {''','''                    p.ops.insert(before_snap, Op::new_value(content));
                }
                if p.at(|t| t.kind == TokenKind::Eol) {
                    text_start = Some(p.pos);
                    p.next();
                }
            } else {''')],demo=PRE+'''fn main(){
 let d = deserialize("{% t\\n**a _b_\\n%} c**");
 assert!(matches!(d.body[0], YamdNodes::Collapsible(_)), "{d:?}");
}''',needs="bold text whose last nested node ends right before the line break in front of the %} of an enclosing collapsible",
breaks="after a nested italic or strikethrough, bold takes the following line break without asking the stop conditions"),
]
