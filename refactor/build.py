N = "src/nodes/"; O = "src/op/"; L = "src/lexer/"
R = {}
R["anchor-let"] = [(N+"anchor.rs", '''        Anchor {
            text: text.into(),
            url: url.into(),
        }''', '''        let url: String = url.into();
        let text: String = text.into();
        Self { url, text }''')]
R["highlight-match"] = [(N+"highlight.rs", "title: title.map(|title| title.into()),", '''title: match title {
                Some(t) => Some(t.into()),
                None => None,
            },'''), (N+"highlight.rs", "icon: icon.map(|icon| icon.into()),", "icon: icon.map(Into::into),")]
R["highlight-iflet"] = [(N+"highlight.rs", '''        Self {
            title: title.map(|title| title.into()),
            icon: icon.map(|icon| icon.into()),
            body,
        }''', '''        let mut h = Self { title: None, icon: None, body };
        if let Some(t) = title {
            h.title = Some(t.into());
        }
        if let Some(i) = icon {
            h.icon.replace(i.into());
        }
        h''')]
R["code-trim-loop"] = [(N+"code.rs", "let code = code.trim_end_matches('\\n').to_owned();", '''let mut code: String = code;
        while code.ends_with('\\n') {
            code.pop();
        }''')]
R["code-trim-truncate"] = [(N+"code.rs", "let code = code.trim_end_matches('\\n').to_owned();", '''let mut code: String = code;
        let keep = code.trim_end_matches('\\n').len();
        code.truncate(keep);''')]
R["code-trim-closure"] = [(N+"code.rs", "let code = code.trim_end_matches('\\n').to_owned();", '''let code = code.trim_end_matches(|c: char| c == '\\n').to_string();''')]
R["code-trim-str"] = [(N+"code.rs", "let code = code.trim_end_matches('\\n').to_owned();", '''let code = String::from(code.trim_end_matches("\\n"));''')]
R["code-strip-loop"] = [(N+"code.rs", "let code = code.trim_end_matches('\\n').to_owned();", '''let mut rest: &str = &code;
        while let Some(r) = rest.strip_suffix('\\n') {
            rest = r;
        }
        let code = rest.to_owned();''')]
R["yamd-match"] = [(N+"yamd.rs", "let metadata = metadata.map(|m| m.trim_matches('\\n').to_owned());\n        Self { metadata, body }", '''match metadata {
            None => Self { metadata: None, body },
            Some(m) => {
                let m = m.trim_start_matches('\\n').trim_end_matches('\\n');
                Self { metadata: Some(m.to_string()), body }
            }
        }''')]
R["yamd-helper"] = [(N+"yamd.rs", "metadata.map(|m| m.trim_matches('\\n').to_owned());", "metadata.map(Self::clean);"),
    (N+"yamd.rs", "    pub fn new(metadata: Option<String>", '''    fn clean(m: String) -> String {
        m.trim_matches('\\n').to_owned()
    }

    pub fn new(metadata: Option<String>''')]
R["yamd-into"] = [(N+"yamd.rs", "metadata.map(|m| m.trim_matches('\\n').to_owned());", "metadata.as_deref().map(|m| m.trim_matches(['\\n']).into());")]
R["bold-from-inline"] = [(N+"bold.rs", "        Self::new(value)\n", "        Bold { body: value }\n")]
R["bold-new-from"] = [(N+"bold.rs", "        Self { body }\n", "        Bold::from(body)\n"), (N+"bold.rs", "        Self::new(value)\n", "        Bold { body: value }\n")]
R["collapsible-collect"] = [(N+"collapsible.rs", "            body,\n            title", "            body: body.into_iter().collect(),\n            title")]
R["collapsible-push"] = [(N+"collapsible.rs", '''        Self {
            body,
            title: title.into(),
        }''', '''        let mut c = Self { title: title.into(), body: Vec::with_capacity(body.len()) };
        for node in body {
            c.body.push(node);
        }
        c''')]
R["collapsible-extend"] = [(N+"collapsible.rs", '''        Self {
            body,
            title: title.into(),
        }''', '''        let mut c = Self { title: title.into(), body: Vec::new() };
        c.body.extend(body);
        c''')]
R["heading-assert"] = [(N+"heading.rs", "        Self { level, body: nodes }", "        let body = nodes;\n        let _count = body.len();\n        Self { level, body }")]
R["list-from-tuple"] = [(N+"list.rs", '''        Self {
            list_type,
            level,
            body,
        }''', '''        let (kind, depth, items) = (list_type, level, body);
        Self { body: items, level: depth, list_type: kind }''')]
R["from-macro"] = [(N+"yamd.rs", '''impl From<Paragraph> for YamdNodes {
    fn from(value: Paragraph) -> Self {
        YamdNodes::Paragraph(value)
    }
}

impl From<Heading> for YamdNodes {
    fn from(value: Heading) -> Self {
        YamdNodes::Heading(value)
    }
}
''', '''macro_rules! from_node {
    ($($t:ident),*) => {
        $(impl From<$t> for YamdNodes {
            fn from(value: $t) -> Self {
                Self::$t(value)
            }
        })*
    };
}
from_node!(Paragraph, Heading);
''')]
R["clone-hand"] = [(N+"anchor.rs", "#[derive(Debug, PartialEq, Clone, Eq)]", "#[derive(Debug, PartialEq, Eq)]"), (N+"anchor.rs", "impl Anchor {", '''impl Clone for Anchor {
    fn clone(&self) -> Self {
        Self { text: self.text.clone(), url: self.url.clone() }
    }
}

impl Anchor {''')]
R["clone-hand-tostring"] = [(N+"anchor.rs", "#[derive(Debug, PartialEq, Clone, Eq)]", "#[derive(Debug, PartialEq, Eq)]"), (N+"anchor.rs", "impl Anchor {", '''impl Clone for Anchor {
    fn clone(&self) -> Self {
        let Anchor { text, url } = self;
        Anchor::new(text.to_string(), url.as_str().to_owned())
    }
}

impl Anchor {''')]
R["eq-hand"] = [(N+"anchor.rs", "#[derive(Debug, PartialEq, Clone, Eq)]", "#[derive(Debug, Clone, Eq)]"), (N+"anchor.rs", "impl Anchor {", '''impl PartialEq for Anchor {
    fn eq(&self, other: &Self) -> bool {
        self.url == other.url && self.text == other.text
    }
}

impl Anchor {''')]
R["eq-hand-tuple"] = [(N+"anchor.rs", "#[derive(Debug, PartialEq, Clone, Eq)]", "#[derive(Debug, Clone, Eq)]"), (N+"anchor.rs", "impl Anchor {", '''impl PartialEq for Anchor {
    fn eq(&self, other: &Self) -> bool {
        (&self.text, &self.url) == (&other.text, &other.url)
    }
}

impl Anchor {''')]
R["eq-hand-enum"] = [(N+"bold.rs", "#[derive(Debug, PartialEq, Clone, Eq)]\n#[cfg_attr(feature = \"serde\", derive(Serialize, Deserialize))]\n#[cfg_attr(feature = \"serde\", serde(tag", "#[derive(Debug, Clone, Eq)]\n#[cfg_attr(feature = \"serde\", derive(Serialize, Deserialize))]\n#[cfg_attr(feature = \"serde\", serde(tag"), (N+"bold.rs", "impl From<Italic> for BoldNodes {", '''impl PartialEq for BoldNodes {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (BoldNodes::Italic(a), BoldNodes::Italic(b)) => a == b,
            (BoldNodes::Strikethrough(a), BoldNodes::Strikethrough(b)) => a == b,
            (BoldNodes::Text(a), BoldNodes::Text(b)) => a == b,
            _ => false,
        }
    }
}

impl From<Italic> for BoldNodes {''')]
R["default-hand"] = [(N+"paragraph.rs", "        Self::new(vec![])\n", "        Self { body: Vec::new() }\n")]
R["asstr-get"] = [(O+"mod.rs", '''                if range.is_empty() {
                    ""
                } else {
                    &source[range.clone()]
                }''', '''                if range.is_empty() {
                    return "";
                }
                &source[range.start..range.end]''')]
R["asstr-guard"] = [(O+"mod.rs", '''            Content::Span(range) => {
                if range.is_empty() {
                    ""
                } else {
                    &source[range.clone()]
                }
            }
            Content::Materialized(s) => s.as_str(),''', '''            Content::Span(range) if range.start >= range.end => "",
            Content::Span(range) => &source[range.clone()],
            Content::Materialized(s) => s,''')]
R["asstr-noempty"] = [(O+"mod.rs", '''                if range.is_empty() {
                    ""
                } else {
                    &source[range.clone()]
                }''', '''                let Range { start, end } = *range;
                if start < end { &source[start..end] } else { "" }''')]
R["isempty-matches"] = [(O+"mod.rs", '''        match self {
            Content::Span(range) => range.is_empty(),
            Content::Materialized(s) => s.is_empty(),
        }''', '''        match self {
            Content::Span(range) => !(range.start < range.end),
            Content::Materialized(s) => s.len() == 0,
        }''')]
R["isempty-cmp"] = [(O+"mod.rs", '''            Content::Span(range) => range.is_empty(),
            Content::Materialized(s) => s.is_empty(),
        }
    }''', '''            Content::Span(range) => range.end <= range.start,
            Content::Materialized(s) => s.as_str() == "",
        }
    }''')]
R["tostring-match"] = [(O+"mod.rs", "        self.as_str(source).to_owned()", '''        match self {
            Content::Materialized(s) => s.clone(),
            Content::Span(_) => String::from(self.as_str(source)),
        }''')]
R["fromtok-loop"] = [(O+"mod.rs", "            let s: String = tokens.iter().map(|t| &source[t.range.clone()]).collect();", '''            let mut s = String::new();
            for t in tokens {
                s.push_str(&source[t.range.clone()]);
            }''')]
R["fromtok-fold"] = [(O+"mod.rs", "            let s: String = tokens.iter().map(|t| &source[t.range.clone()]).collect();", '''            let s = tokens.iter().fold(String::new(), |mut s, t| {
                s += &source[t.range.clone()];
                s
            });''')]
R["fromtok-zip"] = [(O+"mod.rs", '''        let is_contiguous = tokens
            .windows(2)
            .all(|w| w[0].range.end == w[1].range.start);''', '''        let is_contiguous = tokens
            .iter()
            .zip(tokens.iter().skip(1))
            .all(|(a, b)| a.range.end == b.range.start);''')]
R["fromtok-slicepat"] = [(O+"mod.rs", '''        if is_contiguous {
            let start = tokens.first().unwrap().range.start;
            let end = tokens.last().unwrap().range.end;
            Content::Span(start..end)''', '''        if is_contiguous {
            Content::from(tokens)''')]
R["fromslice-match"] = [(O+"mod.rs", '''        if tokens.is_empty() {
            Content::Span(0..0)
        } else {
            let start = tokens.first().unwrap().range.start;
            let end = tokens.last().unwrap().range.end;
            Content::Span(start..end)
        }''', '''        match (tokens.first(), tokens.last()) {
            (Some(first), Some(last)) => Content::Span(first.range.start..last.range.end),
            _ => Content::Span(0..0),
        }''')]
R["fromslice-idx"] = [(O+"mod.rs", '''        if tokens.is_empty() {
            Content::Span(0..0)
        } else {
            let start = tokens.first().unwrap().range.start;
            let end = tokens.last().unwrap().range.end;
            Content::Span(start..end)
        }''', '''        match tokens {
            [] => Content::Span(0..0),
            [one] => Content::Span(one.range.clone()),
            [first, .., last] => Content::Span(first.range.start..last.range.end),
        }''')]
R["fromslice-map"] = [(O+"mod.rs", '''        if tokens.is_empty() {
            Content::Span(0..0)
        } else {
            let start = tokens.first().unwrap().range.start;
            let end = tokens.last().unwrap().range.end;
            Content::Span(start..end)
        }''', '''        let Some(last) = tokens.last() else {
            return Content::Span(0..0);
        };
        Content::Span(tokens[0].range.start..last.range.end)''')]
R["op-new-helper"] = [(O+"mod.rs", '''        Self {
            kind: OpKind::Start(node),
            content: tokens.into(),
        }''', '''        Self::make(OpKind::Start(node), tokens.into())'''), (O+"mod.rs", "    /// Creates a [`Value`](OpKind::Value) operation", '''    fn make(kind: OpKind, content: Content) -> Self {
        Op { kind, content }
    }

    /// Creates a [`Value`](OpKind::Value) operation''')]
R["parser-collect-loop"] = [(O+"parser.rs", '''        Self {
            source: input,
            tokens: Lexer::new(input).collect(),''', '''        let mut tokens = Vec::new();
        for token in Lexer::new(input) {
            tokens.push(token);
        }
        Self {
            source: input,
            tokens,''')]
R["parser-collect-extend"] = [(O+"parser.rs", '''        Self {
            source: input,
            tokens: Lexer::new(input).collect(),''', '''        let mut tokens = Vec::new();
        tokens.extend(Lexer::new(input));
        Self {
            source: input,
            tokens,''')]
R["parser-collect-while"] = [(O+"parser.rs", '''        Self {
            source: input,
            tokens: Lexer::new(input).collect(),''', '''        let mut lexer = Lexer::new(input);
        let mut tokens = Vec::new();
        while let Some(token) = lexer.next() {
            tokens.push(token);
        }
        Self {
            source: input,
            tokens,''')]
R["parser-capacity"] = [(O+"parser.rs", "            ops: Vec::new(),\n        }\n    }\n}", "            ops: Vec::with_capacity(input.len() / 4),\n        }\n    }\n}")]
R["parser-new"] = [(O+"parser.rs", '''    fn from(input: &'a str) -> Self {
        Self {''', '''    fn from(input: &'a str) -> Self {
        Parser::new(input, Lexer::new(input).collect())
    }
}

impl<'a> Parser<'a> {
    fn new(input: &'a str, tokens: Vec<Token>) -> Self {
        Self {'''), (O+"parser.rs", "            tokens: Lexer::new(input).collect(),", "            tokens,")]
R["parse-early"] = [(O+"mod.rs", "    let mut parser = Parser::from(input);\n", "    if input.is_empty() {\n        let mut parser = Parser::from(\"\");\n        document::document(&mut parser);\n        return parser.ops;\n    }\n    let mut parser: Parser = input.into();\n")]
R["parse-field"] = [(O+"mod.rs", "    parser.into_ops()\n", "    let Parser { ops, .. } = parser;\n    ops\n")]
R["parse-shrink"] = [(O+"mod.rs", "    parser.into_ops()\n", "    let mut ops = parser.into_ops();\n    ops.shrink_to_fit();\n    ops\n")]
R["parse-helper"] = [(O+"mod.rs", '''    metadata::metadata(&mut parser);
    document::document(&mut parser);
    parser.into_ops()
}''', '''    run(&mut parser);
    parser.into_ops()
}

fn run(parser: &mut Parser<'_>) {
    metadata::metadata(parser);
    document::document(parser);
}''')]
R["parse-take"] = [(O+"mod.rs", "    parser.into_ops()\n", "    std::mem::take(&mut parser.ops)\n")]
R["deser-try"] = [("src/lib.rs", "    op::to_yamd(&ops, input)", "    op::try_to_yamd(&ops, input).expect(\"parse() returns a balanced stream\")")]
R["deser-one"] = [("src/lib.rs", "    let ops = op::parse(input);\n    op::to_yamd(&ops, input)", "    to_yamd(&parse(input), input)")]
R["deser-match"] = [("src/lib.rs", "    op::to_yamd(&ops, input)", "    match op::try_to_yamd(ops.as_slice(), input) {\n        Ok(doc) => doc,\n        Err(e) => panic!(\"{e}\"),\n    }")]
R["toyamd-match"] = [(O+"to_yamd.rs", "    try_to_yamd(ops, source).expect(\"op stream produced by parse() is always well-formed\")", "    match try_to_yamd(ops, source) {\n        Ok(doc) => doc,\n        Err(e) => unreachable!(\"{e}\"),\n    }")]
R["toyamd-orelse"] = [(O+"to_yamd.rs", "    try_to_yamd(ops, source).expect(\"op stream produced by parse() is always well-formed\")", "    try_to_yamd(ops, source).unwrap_or_else(|e| panic!(\"not well-formed: {e}\"))")]
R["lexer-fields"] = [(L+"mod.rs", '''        Self {
            position: Position::default(),
            len: input.len(),
            iter: input.char_indices().peekable(),''', '''        let iter = input.char_indices().peekable();
        let len = input.as_bytes().len();
        Self {
            position: Position { byte_index: 0, column: 0, row: 0 },
            len,
            iter,''')]
R["lexer-queue"] = [(L+"mod.rs", "queue: VecDeque::with_capacity(2),", "queue: VecDeque::new(),")]
R["token-escaped"] = [(L+"token.rs", '''        Self {
            kind,
            range,
            position,
            escaped: false,
        }''', '''        let escaped = false;
        Token { escaped, position, range, kind }''')]
