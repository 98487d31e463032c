use oak_core::{language::{ElementType, Language, TokenType, UniversalElementRole, UniversalTokenRole}};
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Tk {
    Name,
    Op,
    Eof,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum El {
    Def,
    Stmt,
    Ref,
    Doc,
    Other,
}
impl From<Tk> for El {
    fn from(_: Tk) -> El {
        El::Other
    }
}
impl TokenType for Tk {
    type Role = UniversalTokenRole;
    const END_OF_STREAM: Self = Tk::Eof;
    fn role(&self) -> UniversalTokenRole {
        match self {
            Tk::Name => UniversalTokenRole::Name,
            Tk::Op => UniversalTokenRole::Operator,
            Tk::Eof => UniversalTokenRole::Eof,
        }
    }
}
impl ElementType for El {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole {
        match self {
            El::Def => UniversalElementRole::Definition,
            El::Stmt => UniversalElementRole::Statement,
            El::Ref => UniversalElementRole::Reference,
            El::Doc => UniversalElementRole::Documentation,
            El::Other => UniversalElementRole::Expression,
        }
    }
}
#[derive(Debug, Clone, Copy, Default)]
pub struct Mini;
impl Language for Mini {
    const NAME: &'static str = "mini";
    type TokenType = Tk;
    type ElementType = El;
    type TypedRoot = ();
}
/// The reference tree: spans and kinds.
#[derive(Clone)]
pub enum M {
    L(Tk, usize, usize),
    N(El, usize, usize, Vec<M>),
}
