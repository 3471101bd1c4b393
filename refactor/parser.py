R = {}
R["helper-fail"] = [("src/op/bold.rs", '''    p.pos = start;
    p.ops.truncate(snap);
    false
}''', '''    give_up(p, start, snap)
}

fn give_up(p: &mut Parser, start: usize, snap: usize) -> bool {
    p.pos = start;
    p.ops.truncate(snap);
    false
}''')]
R["parser-rewind"] = [("src/op/parser.rs", '''    /// Consumes the parser and returns''', '''    pub(crate) fn rewind(&mut self, pos: usize, snap: usize) {
        self.pos = pos;
        self.ops.truncate(snap);
    }

    /// Consumes the parser and returns'''), ("src/op/image.rs", '''    if !title(p) {
        p.pos = start;
        p.ops.truncate(snap);
        return false;
    }

    if !destination(p) {
        p.pos = start;
        p.ops.truncate(snap);
        return false;
    }
''', '''    if !(title(p) && destination(p)) {
        p.rewind(start, snap);
        return false;
    }
''')]
R["checkpoint-struct"] = [("src/op/parser.rs", '''    /// Consumes the parser and returns''', '''    pub(crate) fn checkpoint(&self) -> Checkpoint {
        Checkpoint { pos: self.pos, ops: self.ops.len() }
    }

    pub(crate) fn restore(&mut self, c: &Checkpoint) {
        self.ops.truncate(c.ops);
        self.pos = c.pos;
    }

    /// Consumes the parser and returns'''), ("src/op/parser.rs", '''impl Parser<'_> {''', '''#[derive(Clone, Copy)]
pub(crate) struct Checkpoint {
    pos: usize,
    ops: usize,
}

impl Parser<'_> {'''), ("src/op/highlight.rs", '''    let start = p.pos;
    let snap = p.ops.len();

    let Some(start_range) = eat_seq!(p, is_two_bangs''', '''    let cp = p.checkpoint();

    let Some(start_range) = eat_seq!(p, is_two_bangs'''), ("src/op/highlight.rs", '''    if !p.at(|t: &Token| t.position.column == 0) {
        p.pos = start;
        p.ops.truncate(snap);
        return false;
    }''', '''    if !p.at(|t: &Token| t.position.column == 0) {
        p.restore(&cp);
        return false;
    }'''), ("src/op/highlight.rs", '''    p.pos = start;
    p.ops.truncate(snap);
    false
}

#[cfg''', '''    p.restore(&cp);
    false
}

#[cfg'''), ]
R["attempt-closure"] = [("src/op/parser.rs", '''    /// Consumes the parser and returns''', '''    /// Runs `f`; when it fails nothing is left behind.
    pub(crate) fn attempt(&mut self, f: impl FnOnce(&mut Self) -> bool) -> bool {
        let (pos, snap) = (self.pos, self.ops.len());
        let ok = f(self);
        if !ok {
            self.pos = pos;
            self.ops.truncate(snap);
        }
        ok
    }

    /// Consumes the parser and returns'''), ("src/op/anchor.rs", '''    let start = p.pos;
    let snap = p.ops.len();
    p.ops.push(Op::new_start(Node::Anchor, Content::Span(0..0)));
    if !title(p) || !destination(p) {
        p.pos = start;
        p.ops.truncate(snap);
        return false;
    }
    p.ops.push(Op::new_end(Node::Anchor, Content::Span(0..0)));
    true
''', '''    p.attempt(|p| {
        p.ops.push(Op::new_start(Node::Anchor, Content::Span(0..0)));
        if !title(p) || !destination(p) {
            return false;
        }
        p.ops.push(Op::new_end(Node::Anchor, Content::Span(0..0)));
        true
    })
''')]
R["emit-helper"] = [("src/op/parser.rs", '''    /// Consumes the parser and returns''', '''    pub(crate) fn emit_leaf(&mut self, node: impl Fn() -> Node, start: Range<usize>, body: Range<usize>, end: Range<usize>) {
        let s = self.span(start);
        self.ops.push(Op::new_start(node(), s));
        let b = self.span(body);
        self.ops.push(Op::new_value(b));
        let e = self.span(end);
        self.ops.push(Op::new_end(node(), e));
    }

    /// Consumes the parser and returns''')] + [(f, '''    let start_content = p.span(start_range);
    let body_content = p.span(body_range);
    let end_content = p.span(end_range);
    p.ops.push(Op::new_start(Node::%s, start_content));
    p.ops.push(Op::new_value(body_content));
    p.ops.push(Op::new_end(Node::%s, end_content));
''' % (n, n), '''    p.emit_leaf(|| Node::%s, start_range, body_range, end_range);
''' % n) for f, n in (("src/op/italic.rs", "Italic"), ("src/op/emphasis.rs", "Emphasis"), ("src/op/metadata.rs", "Metadata"))]
R["matches-macro"] = [("src/op/highlight.rs", '''fn is_eol(t: &Token) -> bool {
    t.kind == TokenKind::Eol
}''', '''fn is_eol(t: &Token) -> bool {
    matches!(t.kind, TokenKind::Eol)
}'''), ("src/op/modifier.rs", "t.kind == TokenKind::Eol || t.kind == TokenKind::Terminator", "matches!(t.kind, TokenKind::Eol | TokenKind::Terminator)"),
    ("src/op/bold.rs", '''    t.kind == TokenKind::Star && t.range.len() == 2''', '''    match &t.kind {
        TokenKind::Star => t.range.end - t.range.start == 2,
        _ => false,
    }''')]
R["loop-form"] = [("src/op/paragraph.rs", '''    while !p.at_eof() {
        let pos''', '''    loop {
        if p.at_eof() {
            break;
        }
        let pos'''), ("src/op/heading.rs", '''    while let Some((pos, _)) = p.peek() {
        if p.at_eof() {
            break;
        } else {
            let before_pos = p.pos;''', '''    while !p.at_eof() {
        {
            let pos = p.pos;
            let before_pos = p.pos;'''), ("src/op/parser.rs", '''        while let Some(token) = self.tokens.get(self.pos) {
            if self.at_eof() {
                break;
            }
            if matcher(token) {''', '''        while !self.at_eof() {
            if self.tokens.get(self.pos).is_some_and(&matcher) {''')]
R["if-let-chain"] = [("src/op/italic.rs", '''    let Some((body_range, end_range)) = p.eat_until(is_underscore) else {
        p.pos = start;
        return false;
    };
''', '''    let scan = p.eat_until(is_underscore);
    if scan.is_none() {
        p.pos = start;
        return false;
    }
    let (body_range, end_range) = scan.unwrap();
'''), ("src/op/strikethrough.rs", '''    let Some((''', '''    #[allow(clippy::question_mark)]
    let Some((''')]
R["flush-helper"] = [("src/op/paragraph.rs", '''            if let Some(start) = text_start.take() {
                let content = p.span(start..pos);
                p.ops.insert(snap, Op::new_value(content));
            }''', '''            flush(p, &mut text_start, pos, snap);'''), ("src/op/paragraph.rs", '''pub fn paragraph(p''', '''fn flush(p: &mut Parser, text_start: &mut Option<usize>, end: usize, at: usize) {
    if let Some(start) = text_start.take() {
        let content = p.span(start..end);
        p.ops.insert(at, Op::new_value(content));
    }
}

pub fn paragraph(p''')]
R["flush-opt"] = [("src/op/heading.rs", '''    if let Some(s) = text_start {
        let content = p.span(s..p.pos);
        p.ops.push(Op::new_value(content));
    }''', '''    let tail = text_start.map(|s| p.span(s..p.pos));
    p.ops.extend(tail.map(Op::new_value));''')]
R["reorder"] = [("src/op/embed.rs", '''    let start_content = p.span(start_range);
    let lhs_content = p.span(lhs_range);
    let sep_content = p.span(sep_range);
    let rhs_content = p.span(rhs_range);
    let end_content = p.span(end_range);
    p.ops.push(Op::new_start(Node::Embed, start_content));''', '''    let end_content = p.span(end_range);
    let rhs_content = p.span(rhs_range);
    let sep_content = p.span(sep_range);
    let lhs_content = p.span(lhs_range);
    let start_content = p.span(start_range);
    p.ops.push(Op::new_start(Node::Embed, start_content));'''), ("src/op/code.rs", '''    let start_pos = p.pos;
    let snap = p.ops.len();
''', '''    let snap = p.ops.len();
    let start_pos = p.pos;
'''), ("src/op/collapsible.rs", '''        p.pos = start;
        p.ops.truncate(snap);
        p.flip_to_literal(start);
        return false;
    };''', '''        p.flip_to_literal(start);
        p.ops.truncate(snap);
        p.pos = start;
        return false;
    };''')]
R["doc-match"] = [("src/op/list.rs", '''    while list_item(p, level, Some(list_kind)).is_some() {}
''', '''    loop {
        match list_item(p, level, Some(list_kind)) {
            Some(_) => continue,
            None => break,
        }
    }
''')]
R["images-for"] = [("src/op/images.rs", '''    let mut count = 0;
    while p.peek().is_some() {
        if image(p) {
            count += 1;
        } else if p.at_eof() {
            break;
        } else {
            p.pos = start;
            p.ops.truncate(snap);
            return false;
        }
    }
''', '''    let mut count = 0;
    loop {
        if p.peek().is_none() {
            break;
        }
        if image(p) {
            count += 1;
            continue;
        }
        if p.at_eof() {
            break;
        }
        p.pos = start;
        p.ops.truncate(snap);
        return false;
    }
''')]
R["images-flags"] = [("src/op/images.rs", '''            count += 1;
''', '''            several = any;
            any = true;
'''), ("src/op/images.rs", "    let mut count = 0;\n", "    let (mut any, mut several) = (false, false);\n"), ("src/op/images.rs", "    if count > 1 {", "    if several {"), ("src/op/images.rs", "    count > 0\n", "    any\n")]
R["span-slices"] = [("src/op/parser.rs", '''            let byte_start = tokens.first().unwrap().range.start;
            let byte_end = tokens.last().unwrap().range.end;
            Content::Span(byte_start..byte_end)''', '''            match (tokens.first(), tokens.last()) {
                (Some(a), Some(b)) => Content::Span(a.range.start..b.range.end),
                _ => Content::Span(0..0),
            }'''), ("src/op/mod.rs", '''            let s: String = tokens.iter().map(|t| &source[t.range.clone()]).collect();
            Content::Materialized(s)''', '''            let mut s = String::new();
            for t in tokens {
                s.push_str(&source[t.range.clone()]);
            }
            Content::Materialized(s)''')]
R["span-index"] = [("src/op/parser.rs", '''            let byte_start = tokens.first().unwrap().range.start;
            let byte_end = tokens.last().unwrap().range.end;
            Content::Span(byte_start..byte_end)''', '''            Content::Span(tokens[0].range.start..tokens[tokens.len() - 1].range.end)'''),
 ("src/op/mod.rs", '''        let is_contiguous = tokens
            .windows(2)
            .all(|w| w[0].range.end == w[1].range.start);''', '''        let is_contiguous = tokens
            .iter()
            .zip(tokens.iter().skip(1))
            .all(|(a, b)| a.range.end == b.range.start);''')]
R["stop-flag"] = [("src/op/parser.rs", '''        self.eof_stack.iter().any(|cond| cond.matches(token, self))''', '''        for cond in &self.eof_stack {
            if cond.matches(token, self) {
                return true;
            }
        }
        false''')]
R["stops-truncate"] = [("src/op/parser.rs", '''        for &c in conds {
            self.eof_stack.push(c);
        }
        let result = f(self);
        for _ in conds {
            self.eof_stack.pop();
        }
        result''', '''        let depth = self.eof_stack.len();
        self.eof_stack.extend_from_slice(conds);
        let result = f(self);
        self.eof_stack.truncate(depth);
        result''')]
R["highlight-nested"] = [("src/op/highlight.rs", '''        p.with_eofs(
            &[StopCondition::HighlightEnd, StopCondition::Terminator],
            |p| {
                paragraph(p);
            },
        );''', '''        p.with_eof(StopCondition::HighlightEnd, |p| p.with_eof(StopCondition::Terminator, paragraph));''')]
R["code-split"] = [("src/op/code.rs", '''    let end_range = if let Some(eol_range) = p.eat(is_eol) {
        close_range.start..eol_range.end
    } else if p.at_block_boundary() {
        close_range
    } else {
        p.pos = start_pos;
        p.ops.truncate(snap);
        return false;
    };
''', '''    let Some(end_range) = closing(p, close_range) else {
        p.pos = start_pos;
        p.ops.truncate(snap);
        return false;
    };
'''), ("src/op/code.rs", '''pub fn code(''', '''fn closing(p: &mut Parser, close: std::ops::Range<usize>) -> Option<std::ops::Range<usize>> {
    if let Some(eol_range) = p.eat(is_eol) {
        return Some(close.start..eol_range.end);
    }
    p.at_block_boundary().then_some(close)
}

pub fn code(''')]
R["list-boundary"] = [("src/op/parser.rs", '''    for level in 0..=max_level {
        let k = if level == current_level {
            Some(kind)
        } else {
            None
        };''', '''    let mut next = 0;
    while next <= max_level {
        let level = next;
        next += 1;
        let k = (level == current_level).then_some(kind);''')]
R["list-boundary-any"] = [("src/op/parser.rs", '''        let matched = if level == 0 {''', '''        #[allow(clippy::let_and_return)]
        let matched = if level == 0 {'''), ("src/op/parser.rs", '''fn is_space_1(t: &Token) -> bool {
    t.kind == TokenKind::Space && t.range.len() == 1''', '''fn is_space_of(t: &Token, n: usize) -> bool {
    t.kind == TokenKind::Space && t.range.len() == n
}

fn is_space_1(t: &Token) -> bool {
    is_space_of(t, 1)''')]
R["meta-inline"] = [("src/op/mod.rs", '''    metadata::metadata(&mut parser);
    document::document(&mut parser);
    parser.into_ops()''', '''    run(&mut parser);
    let Parser { ops, .. } = parser;
    ops'''), ("src/op/mod.rs", '''pub fn parse(input''', '''fn run(parser: &mut Parser) {
    let _ = metadata::metadata(parser);
    document::document(parser);
}

/// Parses
pub fn parse(input''')]
R["open-close-helpers"] = [("src/op/parser.rs", '''    /// Consumes the parser and returns''', '''    pub(crate) fn open(&mut self, node: Node, r: Range<usize>) {
        let c = self.span(r);
        self.ops.push(Op::new_start(node, c));
    }

    pub(crate) fn close(&mut self, node: Node, r: Range<usize>) {
        let c = self.span(r);
        self.ops.push(Op::new_end(node, c));
    }

    /// Consumes the parser and returns'''), ("src/op/collapsible.rs", '''    let start_content = p.span(start_range);
    p.ops.push(Op::new_start(Node::Collapsible, start_content));''', '''    p.open(Node::Collapsible, start_range);'''), ("src/op/collapsible.rs", '''    let end_content = p.span(end_range);
    p.ops.push(Op::new_end(Node::Collapsible, end_content));''', "    p.close(Node::Collapsible, end_range);"),
 ("src/op/list.rs", '''    let start_content = p.span(start_range);
    p.ops.push(Op::new_start(Node::ListItem, start_content));''', '''    p.open(Node::ListItem, start_range);''')]
R["end-helper"] = [("src/op/heading.rs", '''    p.ops.push(Op::new_end(Node::Heading, Content::Span(0..0)));

    true
}''', '''    finish(p)
}

fn finish(p: &mut Parser) -> bool {
    p.ops.push(Op::new_end(Node::Heading, Content::Span(0..0)));
    true
}'''), ("src/op/highlight.rs", '''    let start_content = p.span(start_range);
    p.ops.push(Op::new_start(Node::Highlight, start_content));

    if !skip_title {
        modifier(p);
    }

    p.with_eof(StopCondition::Terminator, |p| {
        icon(p);
    });
''', '''    let start_content = p.span(start_range);
    p.ops.push(Op::new_start(Node::Highlight, start_content));

    head(p, skip_title);
'''), ("src/op/highlight.rs", "pub fn highlight(", '''fn head(p: &mut Parser, skip_title: bool) {
    if !skip_title {
        modifier(p);
    }

    p.with_eof(StopCondition::Terminator, |p| {
        icon(p);
    });
}

pub fn highlight(''')]
