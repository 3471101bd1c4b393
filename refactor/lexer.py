R = {}
L = "src/lexer/mod.rs"
R["queue-helper"] = [(L, '''            if let Some(token) = self.token.replace(Token {
                kind: TokenKind::Literal,
                range: start_position.byte_index..end_byte_index,
                position: start_position,
                escaped: self.escaped,
            }) {
                self.queue.push_back(token);
            }
            self.escaped = false;
        }
    }
''', '''            let escaped = std::mem::take(&mut self.escaped);
            self.hold(Token {
                kind: TokenKind::Literal,
                range: start_position.byte_index..end_byte_index,
                position: start_position,
                escaped,
            });
        }
    }

    fn hold(&mut self, token: Token) {
        if let Some(previous) = self.token.replace(token) {
            self.queue.push_back(previous);
        }
    }
'''), (L, '''        if let Some(l) = self.token.replace(token) {
            self.queue.push_back(l);
        }
    }

    fn next_is''', '''        self.hold(token);
    }

    fn next_is''')]
R["literal-early-return"] = [(L, '''        if let Some(start_position) = self.literal_start.take() {
            if let Some(token) = self.token.replace(Token {
                kind: TokenKind::Literal,
                range: start_position.byte_index..end_byte_index,
                position: start_position,
                escaped: self.escaped,
            }) {
                self.queue.push_back(token);
            }
            self.escaped = false;
        }
''', '''        let Some(position) = self.literal_start.take() else {
            return;
        };
        let range = position.byte_index..end_byte_index;
        let mut literal = Token::new(TokenKind::Literal, range, position);
        literal.escaped = self.escaped;
        self.escaped = false;
        match self.token.replace(literal) {
            Some(token) => self.queue.push_back(token),
            None => {}
        }
''')]
R["eol-match"] = [(L, '''        let Some(t) = self
            .token
            .replace(self.to_token(TokenKind::Eol, position, len_in_bytes))
        else {
            return;
        };
        if t.kind == TokenKind::Eol {
            self.token.replace(self.to_token(
                TokenKind::Terminator,
                t.position,
                t.range.len() + len_in_bytes,
            ));
            return;
        }
        self.queue.push_back(t);
''', '''        match self.token.take() {
            Some(t) if matches!(t.kind, TokenKind::Eol) => {
                let len = t.range.end - t.range.start + len_in_bytes;
                self.token = Some(self.to_token(TokenKind::Terminator, t.position, len));
            }
            previous => {
                self.token = Some(self.to_token(TokenKind::Eol, position, len_in_bytes));
                self.queue.extend(previous);
            }
        }
''')]
R["eol-extend"] = [(L, '''        let Some(t) = self
            .token
            .replace(self.to_token(TokenKind::Eol, position, len_in_bytes))
        else {
            return;
        };
        if t.kind == TokenKind::Eol {
            self.token.replace(self.to_token(
                TokenKind::Terminator,
                t.position,
                t.range.len() + len_in_bytes,
            ));
            return;
        }
        self.queue.push_back(t);
''', '''        if let Some(t) = self.token.as_mut() {
            if t.kind == TokenKind::Eol {
                t.kind = TokenKind::Terminator;
                t.range.end += len_in_bytes;
                return;
            }
        }
        let eol = self.to_token(TokenKind::Eol, position, len_in_bytes);
        if let Some(t) = self.token.replace(eol) {
            self.queue.push_back(t);
        }
''')]
R["next-if"] = [(L, '''        let Some((_, next_char)) = self.iter.peek() else {
            return false;
        };
        if *next_char == char {
            self.next_char(false);
            return true;
        }
        false
''', '''        if self.iter.peek().is_some_and(|(_, next)| *next == char) {
            self.next_char(false);
            true
        } else {
            false
        }
''')]
R["next-matches"] = [(L, '''        let Some((_, next_char)) = self.iter.peek() else {
            return false;
        };
        if *next_char == char {
            self.next_char(false);
            return true;
        }
        false
''', '''        let found = matches!(self.iter.peek(), Some(&(_, next)) if next == char);
        found && self.next_char(false).is_some()
''')]
R["next-if-eq"] = [(L, '''        let Some((_, next_char)) = self.iter.peek() else {
            return false;
        };
        if *next_char == char {
            self.next_char(false);
            return true;
        }
        false
''', '''        let Some((byte_offset, _)) = self.iter.next_if(|(_, next)| *next == char) else {
            return false;
        };
        self.position.byte_index = byte_offset;
        if char != '\\\\' {
            self.position.column += 1;
        }
        true
''')]
R["next-char-question"] = [(L, '''        if let Some((byte_offset, char)) = self.iter.next() {
            self.position.byte_index = byte_offset;
            let res = Some((self.position.clone(), char));
            if char != '\\\\' || escaped {
                self.position.column += 1;
            }
            return res;
        }
        None
''', '''        let (byte_index, char) = self.iter.next()?;
        self.position.byte_index = byte_index;
        let at = self.position.clone();
        let is_mark = !escaped && char == '\\\\';
        self.position.column += usize::from(!is_mark);
        Some((at, char))
''')]
R["next-char-map"] = [(L, '''        if let Some((byte_offset, char)) = self.iter.next() {
            self.position.byte_index = byte_offset;
            let res = Some((self.position.clone(), char));
            if char != '\\\\' || escaped {
                self.position.column += 1;
            }
            return res;
        }
        None
''', '''        self.iter.next().map(|(byte_offset, char)| {
            let position = Position {
                byte_index: byte_offset,
                ..self.position.clone()
            };
            self.position.byte_index = byte_offset;
            if escaped || char != '\\\\' {
                self.position.column = position.column + 1;
            }
            (position, char)
        })
''')]
R["advance-match"] = [(L, '''        while self.queue.is_empty() {
            if let Some((position, char)) = self.next_char(false) {
                self.parse(position, char);
            } else {
                self.position.byte_index = self.len;
                self.emit_literal_if_started(self.position.byte_index);
                if let Some(token) = self.token.take() {
                    self.queue.push_back(token)
                }
                return;
            }
        }
''', '''        loop {
            if !self.queue.is_empty() {
                break;
            }
            match self.next_char(false) {
                Some((position, char)) => self.parse(position, char),
                None => {
                    self.finish();
                    break;
                }
            }
        }
    }

    fn finish(&mut self) {
        let end = self.len;
        self.position.byte_index = end;
        self.emit_literal_if_started(end);
        self.queue.extend(self.token.take());
''')]
R["advance-inline"] = [(L, '''        self.advance();
        self.queue.pop_front()
''', '''        if let Some(token) = self.queue.pop_front() {
            return Some(token);
        }
        self.advance();
        self.queue.pop_front()
''')]
R["advance-len"] = [(L, "while self.queue.is_empty() {", "while self.queue.len() == 0 {")]
R["single-helper"] = [(L, '''            '[' => self.emit(self.to_token(TokenKind::LeftSquareBracket, position, 1)),
            ']' => self.emit(self.to_token(TokenKind::RightSquareBracket, position, 1)),
            '(' => self.emit(self.to_token(TokenKind::LeftParenthesis, position, 1)),
            ')' => self.emit(self.to_token(TokenKind::RightParenthesis, position, 1)),
            '_' => self.emit(self.to_token(TokenKind::Underscore, position, 1)),
            '|' => self.emit(self.to_token(TokenKind::Pipe, position, 1)),
            _ => {
                self.literal_start.get_or_insert(position);
            }
''', '''            _ => match single(char) {
                Some(kind) => self.emit(self.to_token(kind, position, 1)),
                None => {
                    self.literal_start.get_or_insert(position);
                }
            },
'''), (L, "impl<'input> Iterator for Lexer", '''fn single(char: char) -> Option<TokenKind> {
    Some(match char {
        '[' => TokenKind::LeftSquareBracket,
        ']' => TokenKind::RightSquareBracket,
        '(' => TokenKind::LeftParenthesis,
        ')' => TokenKind::RightParenthesis,
        '_' => TokenKind::Underscore,
        '|' => TokenKind::Pipe,
        _ => return None,
    })
}

impl<'input> Iterator for Lexer''')]
R["run-helper"] = [(L, '''            '~' => self.take_while('~', TokenKind::Tilde, position),
            '*' => self.take_while('*', TokenKind::Star, position),
            '}' => self.take_while('}', TokenKind::RightCurlyBrace, position),
            '{' => self.take_while('{', TokenKind::LeftCurlyBrace, position),
            ' ' if self.literal_start.is_none() => self.take_while(' ', TokenKind::Space, position),
            '-' => self.take_while('-', TokenKind::Minus, position),
            '#' => self.take_while('#', TokenKind::Hash, position),
            '>' => self.take_while('>', TokenKind::GreaterThan, position),
            '!' => self.take_while('!', TokenKind::Bang, position),
            '`' => self.take_while('`', TokenKind::Backtick, position),
            '+' => self.take_while('+', TokenKind::Plus, position),
''', '''            '~' | '*' | '}' | '{' | '-' | '#' | '>' | '!' | '`' | '+' => {
                let kind = match char {
                    '~' => TokenKind::Tilde,
                    '*' => TokenKind::Star,
                    '}' => TokenKind::RightCurlyBrace,
                    '{' => TokenKind::LeftCurlyBrace,
                    '-' => TokenKind::Minus,
                    '#' => TokenKind::Hash,
                    '>' => TokenKind::GreaterThan,
                    '!' => TokenKind::Bang,
                    '`' => TokenKind::Backtick,
                    _ => TokenKind::Plus,
                };
                self.take_while(char, kind, position)
            }
            ' ' if self.literal_start.is_none() => self.take_while(' ', TokenKind::Space, position),
''')]
R["take-while-count"] = [(L, '''        while self.next_is(c) {}
        self.emit(Token::new(
            kind,
            start.byte_index..self.position.byte_index + 1,
            start,
        ))
''', '''        let mut len = 1;
        while self.next_is(c) {
            len += 1;
        }
        let token = self.to_token(kind, start, len);
        self.emit(token)
''')]
R["take-while-end"] = [(L, '''        while self.next_is(c) {}
        self.emit(Token::new(
            kind,
            start.byte_index..self.position.byte_index + 1,
            start,
        ))
''', '''        loop {
            if !self.next_is(c) {
                break;
            }
        }
        let end = self.position.byte_index + c.len_utf8();
        let range = start.byte_index..end;
        self.emit(Token {
            kind,
            range,
            position: start,
            escaped: false,
        })
''')]
R["parse-cr-nested"] = [(L, '''            '\\r' if self.next_is('\\n') => self.eol(position, 2),
            '{' if self.next_is('%') => {
                self.emit(self.to_token(TokenKind::CollapsibleStart, position, 2))
            }
''', '''            '\\r' => {
                if self.next_is('\\n') {
                    self.eol(position, "\\r\\n".len())
                } else {
                    self.literal_start.get_or_insert(position);
                }
            }
            '{' if self.next_is('%') => {
                let token = self.to_token(TokenKind::CollapsibleStart, position, 2);
                self.emit(token)
            }
''')]
R["escape-helper"] = [(L, '''            '\\\\' => {
                self.emit_literal_if_started(position.byte_index);
                if let Some((pos, _)) = self.next_char(true) {
                    self.escaped = true;
                    self.literal_start.get_or_insert(pos);
                }
            }
''', '''            '\\\\' => self.escape(position.byte_index),
'''), (L, "    fn advance(&mut self) {", '''    fn escape(&mut self, at: usize) {
        self.emit_literal_if_started(at);
        match self.next_char(true) {
            Some((start, _)) => {
                self.escaped = true;
                self.literal_start = Some(start);
            }
            None => (),
        }
    }

    fn advance(&mut self) {''')]
R["row-order"] = [(L, '''        self.emit_literal_if_started(position.byte_index);
        self.position.row += 1;
        self.position.column = 0;
        let Some(t)''', '''        self.position.column = 0;
        self.position.row += 1;
        self.emit_literal_if_started(position.byte_index);
        let Some(t)''')]
R["literal-flag-struct"] = [(L, '''    literal_start: Option<Position>,
    len: usize,
    escaped: bool,
''', '''    literal: Option<(Position, bool)>,
    len: usize,
'''), (L, '''            literal_start: None,
            escaped: false,
''', '''            literal: None,
'''), (L, '''        if let Some(start_position) = self.literal_start.take() {
            if let Some(token) = self.token.replace(Token {
                kind: TokenKind::Literal,
                range: start_position.byte_index..end_byte_index,
                position: start_position,
                escaped: self.escaped,
            }) {
                self.queue.push_back(token);
            }
            self.escaped = false;
        }
''', '''        if let Some((start_position, escaped)) = self.literal.take() {
            if let Some(token) = self.token.replace(Token {
                kind: TokenKind::Literal,
                range: start_position.byte_index..end_byte_index,
                position: start_position,
                escaped,
            }) {
                self.queue.push_back(token);
            }
        }
'''), (L, '''                    self.escaped = true;
                    self.literal_start.get_or_insert(pos);
''', '''                    self.literal = Some((pos, true));
'''), (L, "' ' if self.literal_start.is_none()", "' ' if self.literal.is_none()"), (L, '''                self.literal_start.get_or_insert(position);
''', '''                self.literal.get_or_insert((position, false));
''')]
R["queue-array"] = [(L, "    queue: VecDeque<Token>,", "    queue: Vec<Token>,"), (L, "queue: VecDeque::with_capacity(2)", "queue: Vec::with_capacity(2)"), (L, ".queue.push_back(", "ALL:.queue.push("), (L, "self.queue.pop_front()", '''if self.queue.is_empty() {
            None
        } else {
            Some(self.queue.remove(0))
        }'''), (L, "use std::{char, collections::VecDeque, iter::Peekable, str::CharIndices};", "use std::{char, iter::Peekable, str::CharIndices};")]
R["table-const"] = [(L, '''            '[' => self.emit(self.to_token(TokenKind::LeftSquareBracket, position, 1)),
            ']' => self.emit(self.to_token(TokenKind::RightSquareBracket, position, 1)),
            '(' => self.emit(self.to_token(TokenKind::LeftParenthesis, position, 1)),
            ')' => self.emit(self.to_token(TokenKind::RightParenthesis, position, 1)),
            '_' => self.emit(self.to_token(TokenKind::Underscore, position, 1)),
            '|' => self.emit(self.to_token(TokenKind::Pipe, position, 1)),
            _ => {
                self.literal_start.get_or_insert(position);
            }
''', '''            _ => {
                for (c, kind) in SINGLES {
                    if c == char {
                        self.emit(self.to_token(kind, position, 1));
                        return;
                    }
                }
                self.literal_start.get_or_insert(position);
            }
'''), (L, "impl<'input> Iterator for Lexer", '''const SINGLES: [(char, TokenKind); 6] = [
    ('[', TokenKind::LeftSquareBracket),
    (']', TokenKind::RightSquareBracket),
    ('(', TokenKind::LeftParenthesis),
    (')', TokenKind::RightParenthesis),
    ('_', TokenKind::Underscore),
    ('|', TokenKind::Pipe),
];

impl<'input> Iterator for Lexer''')]
R["own-cursor"] = [(L, "    iter: Peekable<CharIndices<'input>>,", "    input: &'input str,\n    at: usize,"), (L, "            iter: input.char_indices().peekable(),", "            input,\n            at: 0,"), (L, '''        let Some((_, next_char)) = self.iter.peek() else {
            return false;
        };
        if *next_char == char {
            self.next_char(false);
            return true;
        }
        false
''', '''        if self.input[self.at..].starts_with(char) {
            self.next_char(false);
            return true;
        }
        false
'''), (L, "if let Some((byte_offset, char)) = self.iter.next() {", '''if let Some(char) = self.input[self.at..].chars().next() {
            let byte_offset = self.at;
            self.at += char.len_utf8();'''), (L, "use std::{char, collections::VecDeque, iter::Peekable, str::CharIndices};", "use std::{char, collections::VecDeque};")]
R["chars-offset"] = [(L, "iter: Peekable<CharIndices<'input>>,", "iter: Peekable<std::str::Chars<'input>>,\n    offset: usize,"), (L, "iter: input.char_indices().peekable(),", "iter: input.chars().peekable(),\n            offset: 0,"), (L, "let Some((_, next_char)) = self.iter.peek()", "let Some(next_char) = self.iter.peek()"), (L, '''if let Some((byte_offset, char)) = self.iter.next() {
            self.position.byte_index = byte_offset;''', '''if let Some(char) = self.iter.next() {
            self.position.byte_index = self.offset;
            self.offset += char.len_utf8();'''), (L, "use std::{char, collections::VecDeque, iter::Peekable, str::CharIndices};", "use std::{char, collections::VecDeque, iter::Peekable};")]
R["debug-assert"] = [(L, '''        self.advance();
        self.queue.pop_front()
''', '''        self.advance();
        let token = self.queue.pop_front();
        debug_assert!(token.as_ref().is_none_or(|t| t.range.start == t.position.byte_index));
        token
''')]
R["from-fn"] = [(L, '''        if t.kind == TokenKind::Eol {
            self.token.replace(self.to_token(''', '''        if t.is_eol() {
            self.token.replace(self.to_token('''), ("src/lexer/token.rs", "    /// Creates a new non escaped", '''    pub(crate) fn is_eol(&self) -> bool {
        self.kind == TokenKind::Eol && !self.escaped
    }

    /// Creates a new non escaped''')]
