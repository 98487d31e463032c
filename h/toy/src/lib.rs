//! A small language over the real framework: the framework code is what is checked.
#![feature(new_range_api)]
use oak_core::{
    language::{ElementType, TokenType, UniversalElementRole, UniversalTokenRole},
    lexer::{CommentConfig, LexOutput, LexerCache, LexerState, StringConfig, WhitespaceConfig},
    source::{Source, TextEdit},
    parser::{binary, parse_with_lexer, postfix, unary, Associativity, ParseCache, ParseOutput, Parser, ParserState, Pratt, PrattParser},
    tree::GreenNode,
    Language, Lexer, OakError,
};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Tk {
    Ws,
    Com,
    Str,
    Id,
    Num,
    Op,
    Open,
    Close,
    Comma,
    Err,
    Eof,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum El {
    Root,
    List,
    Stmt,
    Item,
    Binary,
    Unary,
    Postfix,
    Error,
    T(Tk),
}
impl From<Tk> for El {
    fn from(t: Tk) -> El {
        El::T(t)
    }
}
impl TokenType for Tk {
    type Role = UniversalTokenRole;
    const END_OF_STREAM: Self = Tk::Eof;
    fn role(&self) -> UniversalTokenRole {
        match self {
            Tk::Ws => UniversalTokenRole::Whitespace,
            Tk::Com => UniversalTokenRole::Comment,
            Tk::Err => UniversalTokenRole::Error,
            Tk::Eof => UniversalTokenRole::Eof,
            Tk::Str | Tk::Num => UniversalTokenRole::Literal,
            Tk::Id => UniversalTokenRole::Name,
            Tk::Op => UniversalTokenRole::Operator,
            _ => UniversalTokenRole::Punctuation,
        }
    }
}
impl ElementType for El {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole {
        match self {
            El::Root => UniversalElementRole::Root,
            El::Error => UniversalElementRole::Error,
            _ => UniversalElementRole::Expression,
        }
    }
}
#[derive(Debug, Clone, Copy, Default)]
pub struct Toy;
impl Language for Toy {
    const NAME: &'static str = "toy";
    type TokenType = Tk;
    type ElementType = El;
    type TypedRoot = ();
}

pub static STR: StringConfig = StringConfig { quotes: &['"', '\''], escape: Some('\\') };
pub static COM: CommentConfig = CommentConfig { line_marker: "//", block_start: "/*", block_end: "*/", nested_blocks: true };
pub static WS: WhitespaceConfig = WhitespaceConfig { unicode_whitespace: true };

/// A lexer made only of the framework's scanners; it never looks further than one character past a token.
pub struct ToyLexer;
impl ToyLexer {
    pub fn run<S: Source + ?Sized>(&self, st: &mut LexerState<'_, S, Toy>) {
        while st.not_at_end() {
            let p = st.get_position();
            if WS.scan(st, Tk::Ws) || COM.scan(st, Tk::Com, Tk::Com) || STR.scan(st, Tk::Str) || st.scan_ascii_identifier(Tk::Id) {
                continue;
            }
            let n = st.skip_ascii_digits();
            if n.end > n.start {
                st.add_token(Tk::Num, n.start, n.end);
                continue;
            }
            let k = match st.current() {
                Some('(' | '[' | '{') => Tk::Open,
                Some(')' | ']' | '}') => Tk::Close,
                Some(',') => Tk::Comma,
                Some(c) if c.is_ascii() => Tk::Op,
                _ => Tk::Err,
            };
            if k == Tk::Err {
                st.add_error(OakError::syntax_error("unexpected character", p, None));
            }
            st.advance_if_dead_lock(p);
            st.add_token(k, p, st.get_position());
        }
        st.add_eof();
    }
}
impl Lexer<Toy> for ToyLexer {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, edits: &[TextEdit], cache: &'a mut impl LexerCache<Toy>) -> LexOutput<Toy> {
        let from = edits.iter().map(|e| e.span.start).min().unwrap_or(text.length());
        let mut st = LexerState::new_with_cache(text, from, cache);
        if st.fully_reused() && st.tokens().last().map(|t| t.kind) == Some(Tk::Eof) {
            return st.finish_with_cache(Ok(()), cache);
        }
        self.run(&mut st);
        st.finish_with_cache(Ok(()), cache)
    }
}

/// Operators: `=` (right, 1), `<` `+` (left, 2), `*` (left, 3), `^` (right, 4), prefix `-` (3), postfix `!` (5).
pub struct Ops;
pub fn op_info(c: char) -> Option<(u8, Associativity)> {
    Some(match c {
        '=' => (1, Associativity::Right),
        '<' | '+' => (2, Associativity::Left),
        '*' => (3, Associativity::Left),
        '^' => (4, Associativity::Right),
        _ => return None,
    })
}
fn op_char<S: Source + ?Sized>(st: &ParserState<'_, Toy, S>) -> Option<char> {
    if !st.at(Tk::Op) {
        return None;
    }
    st.peek_text().and_then(|t| t.chars().next())
}
impl Pratt<Toy> for Ops {
    fn primary<'a, S: Source + ?Sized>(&self, st: &mut ParserState<'a, Toy, S>) -> &'a GreenNode<'a, Toy> {
        let cp = st.checkpoint();
        match st.peek_kind() {
            Some(Tk::Id | Tk::Num | Tk::Str) => {
                st.bump();
                st.finish_at(cp, El::Item)
            }
            Some(Tk::Open) => ToyParser::list(st, cp),
            _ => {
                st.record_expected("operand");
                st.finish_at(cp, El::Error)
            }
        }
    }
    fn prefix<'a, S: Source + ?Sized>(&self, st: &mut ParserState<'a, Toy, S>) -> &'a GreenNode<'a, Toy> {
        if op_char(st) == Some('-') {
            return unary(st, Tk::Op, 3, El::Unary, |st, p| PrattParser::parse(st, p, self));
        }
        self.primary(st)
    }
    fn infix<'a, S: Source + ?Sized>(&self, st: &mut ParserState<'a, Toy, S>, left: &'a GreenNode<'a, Toy>, min: u8) -> Option<&'a GreenNode<'a, Toy>> {
        let c = op_char(st)?;
        if c == '!' {
            return if 5 >= min { Some(postfix(st, left, Tk::Op, El::Postfix)) } else { None };
        }
        let (p, a) = op_info(c)?;
        if p < min {
            return None;
        }
        Some(binary(st, left, Tk::Op, p, a, El::Binary, |st, p| PrattParser::parse(st, p, self)))
    }
}
/// root := element* ; element := statement | ',' | error ; statement := expr ; operand := name | number | string | '(' element* ')'
pub struct ToyParser;
/// Statements parsed rather than reused.
pub static PARSED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
impl ToyParser {
    fn list<'a, S: Source + ?Sized>(st: &mut ParserState<'a, Toy, S>, cp: (usize, usize)) -> &'a GreenNode<'a, Toy> {
        st.bump();
        while st.not_at_end() && !st.at(Tk::Close) && !st.at(Tk::Eof) {
            Self::element(st)
        }
        let _ = st.expect(Tk::Close);
        st.finish_at(cp, El::List)
    }
    pub fn element<S: Source + ?Sized>(st: &mut ParserState<'_, Toy, S>) {
        match st.peek_kind() {
            Some(Tk::Comma) => st.bump(),
            Some(Tk::Id | Tk::Num | Tk::Str | Tk::Open) => Self::statement(st),
            Some(Tk::Op) if op_char(st) == Some('-') => Self::statement(st),
            _ => {
                let cp = st.checkpoint();
                st.record_unexpected_token("token");
                st.bump();
                st.finish_at(cp, El::Error);
            }
        }
    }
    fn statement<S: Source + ?Sized>(st: &mut ParserState<'_, Toy, S>) {
        let _ = st.incremental_node(El::Stmt, |st| {
            PARSED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            PrattParser::<Toy, Ops>::parse(st, 0, &Ops);
            Ok(())
        });
    }
}
impl Parser<Toy> for ToyParser {
    fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, edits: &[TextEdit], cache: &'a mut impl ParseCache<Toy>) -> ParseOutput<'a, Toy> {
        parse_with_lexer(&ToyLexer, text, edits, cache, |st| {
            while st.not_at_end() && !st.at(Tk::Eof) {
                Self::element(st)
            }
            Ok(st.finish_at((0, 0), El::Root))
        })
    }
}
