M=[
('parser-from-trim','P24',[('src/op/parser.rs','tokens: Lexer::new(input).collect(),','tokens: Lexer::new(input.trim_end_matches(char::is_control)).collect(),')]),
('parser-from-take','P24',[('src/op/parser.rs','tokens: Lexer::new(input).collect(),','tokens: Lexer::new(input).take(1 << 20).collect(),')]),
('parser-from-filter','P24',[('src/op/parser.rs','tokens: Lexer::new(input).collect(),','tokens: Lexer::new(input).filter(|t| !t.range.is_empty() && t.position.column < 100_000).collect(),')]),
('deser-bom','P24',[('src/lib.rs','    let ops = op::parse(input);','    let input = input.strip_prefix(\'\\u{feff}\').unwrap_or(input);\n    let ops = op::parse(input);')]),
('deser-two','P24',[('src/lib.rs','    op::to_yamd(&ops, input)\n','    op::to_yamd(&ops, input.trim_end())\n')]),
('deser-skip','P24',[('src/lib.rs','    let ops = op::parse(input);\n','    if input.trim().is_empty() {\n        return Yamd::default();\n    }\n    let ops = op::parse(input);\n')]),
('parse-trim','P24',[('src/op/mod.rs','let mut parser = Parser::from(input);','let mut parser = Parser::from(input.trim_end_matches(\'\\0\'));')]),
('parse-nul','P24',[('src/op/mod.rs','    parser.into_ops()\n','    let mut ops = parser.into_ops();\n    ops.dedup_by(|a, b| a.kind == OpKind::Value && b.kind == OpKind::Value && a.content == b.content && a.content.is_empty());\n    ops\n')]),
('asstr-trim','P24',[('src/op/mod.rs','Content::Materialized(s) => s.as_str(),','Content::Materialized(s) => s.trim_start_matches(\'\\u{feff}\'),')]),
('asstr-len1','P24',[('src/op/mod.rs','''                if range.is_empty() {
                    ""''','''                if range.len() < 1 || range.start == source.len() - 1 && source.ends_with('\\0') {
                    ""''')]),
('isempty-trim','P24',[('src/op/mod.rs','Content::Materialized(s) => s.is_empty(),','Content::Materialized(s) => s.trim().is_empty(),')]),
('isempty-never','P24',[('src/op/mod.rs','Content::Materialized(s) => s.is_empty(),','Content::Materialized(_) => false,')]),
('tostring-trim','P24',[('src/op/mod.rs','self.as_str(source).to_owned()','self.as_str(source).replace(\'\\r\', "")')]),
('fromtok-first2','P24',[('src/op/mod.rs','''            .windows(2)
            .all(|w| w[0].range.end == w[1].range.start);''','''            .windows(2)
            .any(|w| w[0].range.end == w[1].range.start);''')]),
('fromtok-win3','P24',[('src/op/mod.rs','''            .windows(2)
            .all(|w| w[0].range.end == w[1].range.start);''','''            .windows(3)
            .all(|w| w[0].range.end == w[1].range.start);''')]),
('from-slice-last','P24',[('src/op/mod.rs','''            let start = tokens.first().unwrap().range.start;
            let end = tokens.last().unwrap().range.end;
            Content::Span(start..end)
        }
    }
}

impl<const''','''            let start = tokens.first().unwrap().range.start;
            let end = tokens.first().unwrap().range.end;
            Content::Span(start..end)
        }
    }
}

impl<const''')]),
('newend-start','P24',[('src/op/mod.rs','            kind: OpKind::End(node),','            kind: if node == Node::Destination { OpKind::Start(node) } else { OpKind::End(node) },')]),
('from-string-trim','P24',[('src/nodes/paragraph.rs','ParagraphNodes::Text(value)','ParagraphNodes::Text(value.trim_end_matches(\'\\0\').to_string())')]),
('from-vec','P24',[('src/nodes/bold.rs','Self::new(value)','Self::new(value.into_iter().take(1000).collect())')]),
('anchor-swap','P24',[('src/nodes/anchor.rs','text: text.into(),\n            url: url.into(),','text: url.into(),\n            url: text.into(),')]),
('heading-clamp','P24',[('src/nodes/heading.rs','Self { level, body: nodes }','Self { level: level.min(6), body: nodes }')]),
('list-clamp','P24',[('src/nodes/list.rs','            level,\n            body,','            level: level.min(255),\n            body,')]),
('hl-empty','P24',[('src/nodes/highlight.rs','title: title.map(|title| title.into()),','title: title.map(|title| title.into()).filter(|t: &String| !t.is_empty()),')]),
('yamd-trim','P24',[('src/nodes/yamd.rs',"m.trim_matches('\\n').to_owned()","m.trim().to_owned()")]),
('yamd-filter','P24',[('src/nodes/yamd.rs',"metadata.map(|m| m.trim_matches('\\n').to_owned());","metadata.map(|m| m.trim_matches('\\n').to_owned()).filter(|m| !m.is_empty());")]),
('eq-manual','P24',[('src/nodes/heading.rs','#[derive(Debug, PartialEq, Clone, Eq)]\n#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]\npub struct Heading {','impl PartialEq for Heading {\n    fn eq(&self, o: &Self) -> bool {\n        self.level.min(6) == o.level.min(6) && self.body == o.body\n    }\n}\n\n#[derive(Debug, Clone, Eq)]\n#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]\npub struct Heading {')]),
('eq-manual2','P24',[('src/nodes/code.rs','#[derive(Debug, PartialEq, Clone, Eq)]','impl PartialEq for Code {\n    fn eq(&self, o: &Self) -> bool {\n        self.code == o.code || self.lang == o.lang && self.code.trim_end() == o.code.trim_end()\n    }\n}\n\n#[derive(Debug, Clone, Eq)]')]),
('clone-manual','P24',[('src/nodes/embed.rs','#[derive(Debug, PartialEq, Clone, Eq)]','impl Clone for Embed {\n    fn clone(&self) -> Self {\n        Self { kind: self.kind.clone(), args: self.args.trim().to_string() }\n    }\n}\n\n#[derive(Debug, PartialEq, Eq)]')]),
]
