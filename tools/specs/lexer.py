L = "src/lexer/mod.rs"
PRE = '''use yamd::lexer::{Lexer, Token, TokenKind};
#[allow(dead_code)]
fn toks(s: &str) -> Vec<Token> { Lexer::new(s).collect() }
#[allow(dead_code)]
fn kinds(s: &str) -> Vec<(TokenKind, std::ops::Range<usize>, bool)> { toks(s).into_iter().map(|t| (t.kind, t.range, t.escaped)).collect() }
fn main() {
'''
BUGS = []
def bug(id, prop, edits, body, needs, breaks):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=PRE + body + "\n}\n", needs=needs, breaks=breaks))

bug("terminator-mixed-ends", "P06", [(L, "t.range.len() + len_in_bytes,", "2 * len_in_bytes,")], '''
    let t = toks("a\\n\\r\\nb");
    assert_eq!(t[1].kind, TokenKind::Terminator);
    assert_eq!(t[1].range, 1..4);
    assert_eq!(t[2].range.start, t[1].range.end);''', "a blank line made of one LF and one CRLF line end", "the terminator's range overlaps or leaves out a byte")
bug("escaped-backslash-column", "P16", [(L, "if char != '\\\\' || escaped {", "if char != '\\\\' {")], '''
    let t = toks("\\\\\\\\*");
    assert_eq!(t[1].kind, TokenKind::Star);
    assert_eq!(t[1].position.column, 1);''', "an escaped backslash with another token on the same line after it", "every later column of the line is one too small")
bug("escape-flag-leak", "P07", [(L, '''            }
            self.escaped = false;
        }
    }
''', '''                self.escaped = false;
            }
        }
    }
''')], '''
    let t = kinds("\\\\a*b");
    assert_eq!(t[2], (TokenKind::Literal, 3..4, false));''', "a text that begins with an escape, and a later literal", "a later literal is flagged as escaped")
bug("tab-run", "P07", [(L, "' ' if self.literal_start.is_none() => self.take_while(' ', TokenKind::Space, position),", "' ' | '\\t' if self.literal_start.is_none() => self.take_while(char, TokenKind::Space, position),")], '''
    assert_eq!(kinds("-\\tx")[1].0, TokenKind::Literal);''', "a tab right after a marker", "a tab counts as a space and turns text into a list item or heading")
bug("cr-run", "P07", [(L, "'\\r' if self.next_is('\\n') => self.eol(position, 2),", "'\\r' if self.next_is('\\n') => self.eol(position, 2),\n            '\\r' if self.queue.is_empty() && self.token.as_ref().is_some_and(|t| t.kind == TokenKind::Eol) && self.literal_start.is_none() => self.eol(position, 1),")], '''
    assert_eq!(kinds("a\\n\\rb").len(), 3);
    assert_eq!(kinds("a\\n\\rb")[1].0, TokenKind::Eol);''', "a lone carriage return right after a line end", "it counts as a line end and separates paragraphs")
bug("pending-space-escape", "P07", [(L, "' ' if self.literal_start.is_none() =>", "' ' if self.literal_start.is_none() || self.escaped =>")], '''
    let t = kinds("\\\\a b");
    assert_eq!(t, vec![(TokenKind::Literal, 1..4, true)]);''', "a space inside a literal that begins with an escaped character", "the literal is split at the space")
bug("row-of-collapsible-end", "P16", [(L, '''        self.position.row += 1;
        self.position.column = 0;
''', '''        self.position.row += usize::from(len_in_bytes == 1 || self.position.column > 0);
        self.position.column = 0;
''')], '''
    let t = toks("a\\r\\n\\r\\n*");
    assert_eq!(t[2].position.row, 2);''', "a blank line ended by CRLF", "the rows of everything after it are one too small")
bug("escape-at-run-end", "P06", [(L, '''                if let Some((pos, _)) = self.next_char(true) {
                    self.escaped = true;
                    self.literal_start.get_or_insert(pos);
                }''', '''                if let Some((pos, c)) = self.next_char(true) {
                    self.escaped = true;
                    self.literal_start.get_or_insert(if c == '\\\\' { position } else { pos });
                }''')], '''
    let t = kinds("\\\\\\\\");
    assert_eq!(t, vec![(TokenKind::Literal, 1..2, true)]);''', "an escaped backslash", "the literal covers the escaping backslash as well")
