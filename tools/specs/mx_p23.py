P='src/op/parser.rs'
M=[
('listb-or','P23',[(P,'''p.tokens.get(offset).is_some_and(|t| is_list_marker(t, k)) && {
                    offset += 1;''','''p.tokens.get(offset).is_some_and(|t| is_list_marker(t, k)) || {
                    offset += 1;''')]),
('listb-maxlevel','P23',[(P,'at_list_boundary(parser, *level, *level + 1, *kind)','at_list_boundary(parser, *level, *level, *kind)')]),
('listb-maxlevel2','P23',[(P,'at_list_boundary(parser, *level, *level + 1, *kind)','at_list_boundary(parser, *level, *level + 2, *kind)')]),
('listb-kind','P23',[(P,'''        let k = if level == current_level {
            Some(kind)''','''        let k = if level >= current_level {
            Some(kind)''')]),
('listb-kind2','P23',[(P,'''        let k = if level == current_level {
            Some(kind)''','''        let k = if level <= current_level {
            Some(kind)''')]),
('listb-space','P23',[(P,'t.kind == TokenKind::Space && t.range.len() == level)','t.kind == TokenKind::Space && t.range.len() >= level)')]),
('hl-col','P23',[(P,'''                token.kind == TokenKind::Bang
                    && token.position.column == 0
                    && token.range.len() == 2''','''                token.kind == TokenKind::Bang
                    && token.range.len() == 2''')]),
('hl-len','P23',[(P,'''                    && token.position.column == 0
                    && token.range.len() == 2''','''                    && token.position.column == 0
                    && token.range.len() >= 2''')]),
('col-nocol','P23',[(P,'t.kind == TokenKind::CollapsibleEnd && t.position.column == 0\n','t.kind == TokenKind::CollapsibleEnd\n')]),
('col-eol','P23',[(P,'''                    || (token.kind == TokenKind::Eol
                        && parser.tokens.get(parser.pos + 1)''','''                    || (token.kind == TokenKind::Eol
                        && parser.tokens.get(parser.pos + 2)''')]),
('eatuntil','P23',[(P,'''            if self.at_eof() {
                break;
            }
            if matcher(token) {''','''            if token.kind == TokenKind::Terminator {
                break;
            }
            if matcher(token) {''')]),
('eatuntil-order','P23',[(P,'''            if self.at_eof() {
                break;
            }
            if matcher(token) {
                let before = start..self.pos;
                let match_start = self.pos;
                self.pos += 1;
                return Some((before, match_start..self.pos));
            }
''','''            if matcher(token) {
                let before = start..self.pos;
                let match_start = self.pos;
                self.pos += 1;
                return Some((before, match_start..self.pos));
            }
            if self.at_eof() {
                break;
            }
''')]),
('ateof-last','P23',[(P,'self.eof_stack.iter().any(|cond| cond.matches(token, self))','self.eof_stack.last().is_some_and(|cond| cond.matches(token, self))')]),
('ateof-rev2','P23',[(P,'self.eof_stack.iter().any(|cond| cond.matches(token, self))','self.eof_stack.iter().rev().take(3).any(|cond| cond.matches(token, self))')]),
('doc-notstop','P23',[('src/op/document.rs','''            p.with_eof(StopCondition::Terminator, |p| {
                if !list(p, 0) && !images(p) && !thematic_break(p) && !heading(p) {
                    paragraph(p);
                }
            });''','''            if !list(p, 0) {
                p.with_eof(StopCondition::Terminator, |p| {
                    if !images(p) && !thematic_break(p) && !heading(p) {
                        paragraph(p);
                    }
                });
            }''')]),
('doc-nostops','P23',[('src/op/document.rs','''            p.with_eof(StopCondition::Terminator, |p| {
                if !list(p, 0)''','''            p.with_no_stops(|p| p.with_eof(StopCondition::Terminator, |p| {
                if !list(p, 0)'''),('src/op/document.rs','''                    paragraph(p);
                }
            });''','''                    paragraph(p);
                }
            }));''')]),
('list-level','P23',[('src/op/list.rs','''            level,
            kind: marker_kind,
        },''','''            level: level.min(1),
            kind: marker_kind,
        },''')]),
('list-level+','P23',[('src/op/list.rs','''            level,
            kind: marker_kind,
        },''','''            level: level + 1,
            kind: marker_kind,
        },''')]),
('list-kind','P23',[('src/op/list.rs','''            level,
            kind: marker_kind,
        },''','''            level,
            kind: kind.unwrap_or(ListKind::Unordered),
        },''')]),
('heading-eol','P23',[('src/op/heading.rs','''        if p.at_eof() {
            break;''','''        if p.at_eof() || (p.pos > 40 && p.at(crate::op::parser::eol)) {
            break;''')]),
('heading-lookahead','P23',[('src/op/heading.rs','''                text_start.get_or_insert(pos);
                p.next();''','''                text_start.get_or_insert(pos);
                p.next();
                if p.at(|t| t.kind == TokenKind::Eol) { p.next(); }''')]),
]
