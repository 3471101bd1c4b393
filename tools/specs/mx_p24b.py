O='    parser.into_ops()\n'
M=[
('ops-retain','P24',[('src/op/mod.rs',O,'    let mut ops = parser.into_ops();\n    ops.retain(|op| op.kind != OpKind::Value || !op.content.as_str(input).trim().is_empty());\n    ops\n')]),
('ops-retain-ok','P24',[('src/op/mod.rs',O,'    let mut ops = parser.into_ops();\n    ops.retain(|op| matches!(op.kind, OpKind::Start(_) | OpKind::End(_) | OpKind::Value));\n    ops\n')]),
('ops-retain2','P24',[('src/op/mod.rs',O,'    let mut ops = parser.into_ops();\n    ops.retain(|op| !(matches!(op.kind, OpKind::End(_)) && op.content.is_empty()));\n    ops\n')]),
('ops-pop','P24',[('src/op/mod.rs',O,'    let mut ops = parser.into_ops();\n    if ops.len() > 1_000_000 {\n        ops.pop();\n    }\n    ops\n')]),
('ops-filter','P24',[('src/op/mod.rs',O,'    parser.into_ops().into_iter().filter(|op| op.kind != OpKind::Start(Node::ThematicBreak)).collect()\n')]),
('ops-take','P24',[('src/op/mod.rs',O,'    parser.into_ops().into_iter().take(1 << 16).collect()\n')]),
('ops-dedup','P24',[('src/op/mod.rs',O,'    let mut ops = parser.into_ops();\n    ops.dedup();\n    ops\n')]),
('ops-shrink','P24',[('src/op/mod.rs',O,'    let mut ops = parser.into_ops();\n    ops.shrink_to_fit();\n    ops\n')]),
('ops-empty','P24',[('src/op/mod.rs','    let mut parser = Parser::from(input);\n','    if input.chars().all(char::is_whitespace) {\n        return Vec::new();\n    }\n    let mut parser = Parser::from(input);\n')]),
('lex-new-trim','P24',[('src/lexer/mod.rs','    pub fn new(input: &\'input str) -> Self {\n','    pub fn new(input: &\'input str) -> Self {\n        let input = input.trim_end_matches(\'\\0\');\n')]),
('to-yamd-empty','P24',[('src/op/to_yamd.rs',None,'')]),
]
