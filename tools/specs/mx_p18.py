M=[
('items-rec','P18',[('src/op/list.rs','    while list_item(p, level, Some(list_kind)).is_some() {}','    items(p, level, list_kind);'),
  ('src/op/list.rs','pub fn list(p','fn items(p: &mut Parser, level: usize, kind: ListKind) {\n    if list_item(p, level, Some(kind)).is_some() {\n        items(p, level, kind);\n    }\n}\n\npub fn list(p')]),
('doc-rec','P18',[('src/op/document.rs','''                if !list(p, 0) && !images(p) && !thematic_break(p) && !heading(p) {
                    paragraph(p);
                }
            });
        }
''','''                if !list(p, 0) && !images(p) && !thematic_break(p) && !heading(p) {
                    paragraph(p);
                }
            });
        }
        blocks(p);
'''),('src/op/document.rs','#[cfg(test)]\nmod tests','fn blocks(p: &mut Parser) {\n    if let Some(range) = p.eat(is_terminator) {\n        let content = p.span(range);\n        p.ops.push(Op::new_value(content));\n        blocks(p);\n    }\n}\n\n#[cfg(test)]\nmod tests')]),
('images-rec','P18',[('src/op/images.rs','''    while p.peek().is_some() {
        if image(p) {
            count += 1;
        } else if''','''    while p.peek().is_some() {
        if image(p) {
            count += 1 + more(p);
        } else if'''),('src/op/images.rs','#[cfg(test)]\nmod tests','fn more(p: &mut Parser) -> usize {\n    if image(p) { 1 + more(p) } else { 0 }\n}\n\n#[cfg(test)]\nmod tests')]),
('print-rec','P18',[('src/nodes/images.rs',None,'\nfn rest(items: &[Image], out: &mut String) {\n    if let Some((h, t)) = items.split_first() {\n        out.push_str(&h.to_string());\n        rest(t, out);\n    }\n}\npub fn all(i: &Images) -> String { let mut s = String::new(); rest(&i.body, &mut s); s }\n')]),
('print-ok','P18',[('src/nodes/list.rs','#[cfg(test)]','pub fn walk(l: &List, out: &mut String) {\n    for i in &l.body {\n        item(i, out);\n    }\n}\nfn item(i: &ListItem, out: &mut String) {\n    for t in &i.text { out.push_str(&t.to_string()); }\n    if let Some(n) = &i.nested_list { walk(n, out); }\n}\n#[cfg(test)]')]),
('print-ok2','P18',[('src/nodes/list.rs','#[cfg(test)]','pub fn depth(l: &List) -> usize {\n    l.body.iter().filter_map(|i| i.nested_list.as_ref()).map(depth).max().unwrap_or(0) + 1\n}\n#[cfg(test)]')]),
('print-ok3','P18',[('src/nodes/list.rs','#[cfg(test)]','pub fn depth(l: &List) -> usize {\n    l.body.iter().map(|i| i.nested_list.as_ref().map_or(0, |n| depth(n))).max().unwrap_or(0) + 1\n}\n#[cfg(test)]')]),
('lex-rec','P18',[('src/lexer/mod.rs',None,'\nimpl Lexer<\'_> {\n    pub fn skip_to(&mut self, k: TokenKind) -> Option<Token> {\n        let t = self.next()?;\n        if t.kind == k { Some(t) } else { self.skip_to(k) }\n    }\n}\n')]),
('get-rec','P18',[('src/op/images.rs',None,'\npub fn find(p: &Parser, i: usize) -> usize {\n    match p.get(i) { Some(t) if t.range.len() > 3 => i, Some(_) => find(p, i + 1), None => i }\n}\n')]),
]
