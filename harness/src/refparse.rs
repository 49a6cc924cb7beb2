//! The grammar the contracts of the parser are written over (spec/grammar.py), as an executable reference:
//! reads the tokens of `reflex`, builds the syntax tree the grammar assigns.
use crate::reflex::{Ref, RefLexer, Semi};
use ratel::ast::expression::*;
use ratel::ast::statement::*;
use ratel::ast::*;
use ratel::lexer::Asi;
use ratel::lexer::Token as T;
use toolshed::list::{GrowableList, List};
use toolshed::Arena;

pub struct RefParser<'a> {
    arena: &'a Arena,
    text: &'a str,
    lex: RefLexer,
    tok: Ref,
}

trait Pushed<X> {
    fn pushed(self, x: X) -> Self;
}
impl<X> Pushed<X> for Vec<X> {
    fn pushed(mut self, x: X) -> Self {
        self.push(x);
        self
    }
}

fn unquote(s: &str) -> &str {
    if s.len() < 2 { "" } else { s.get(1..s.len() - 1).unwrap_or("") }
}

fn lvalue(e: &Expression) -> bool {
    matches!(
        e,
        Expression::Identifier(_) | Expression::Member(_) | Expression::ComputedMember(_) | Expression::Object(_) | Expression::Array(_) | Expression::Spread(_)
    )
}

fn arrow_params<'a>(left: ExpressionNode<'a>) -> Vec<ExpressionNode<'a>> {
    match left.item {
        Expression::Sequence(s) => s.body.iter().cloned().collect(),
        _ => vec![left],
    }
}

impl<'a> RefParser<'a> {
    pub fn new(arena: &'a Arena, text: &'a str) -> Self {
        let mut lex = RefLexer::new(text);
        let tok = lex.next();
        RefParser { arena, text, lex, tok }
    }

    pub fn parse(&mut self) -> Option<StatementList<'a>> {
        let p = self.r_program()?;
        Some(self.lst(p))
    }

    /// whether everything was read
    pub fn at_end(&self) -> bool {
        self.tok.token == T::EndOfProgram
    }

    fn nd<X: Copy>(&self, x: X) -> Node<'a, X> {
        Node::new(self.arena.alloc(Loc::new(0, 0, x)))
    }

    fn lst<X: Copy>(&self, v: Vec<X>) -> List<'a, X> {
        let l = GrowableList::new();
        for x in v {
            l.push(self.arena, x);
        }
        l.as_list()
    }

    fn kind(&self) -> T {
        self.tok.token
    }

    fn text(&self) -> &'a str {
        &self.text[self.tok.start..self.tok.end]
    }

    fn inner(&self) -> &'a str {
        match self.tok.inner {
            Some((s, e)) => &self.text[s..e],
            None => "",
        }
    }

    fn skip(&mut self) {
        if self.tok.token != T::EndOfProgram {
            self.tok = self.lex.next();
        }
    }

    fn in_regex(&mut self) {
        self.tok = self.lex.regex(&self.tok);
    }

    fn in_quasi(&mut self) {
        self.tok = self.lex.template(&self.tok);
    }

    fn asi(&self) -> Asi {
        match self.tok.semi {
            Semi::Explicit => Asi::ExplicitSemicolon,
            Semi::Implicit => Asi::ImplicitSemicolon,
            Semi::None => Asi::NoSemicolon,
        }
    }

    fn binds(&self, thr: i32) -> bool {
        level(self.kind()) > thr && !(matches!(self.kind(), T::OperatorIncrement | T::OperatorDecrement) && self.asi() == Asi::ImplicitSemicolon)
    }

    fn pattern_of(&self, e: ExpressionNode<'a>) -> Option<Node<'a, Pattern<'a>>> {
        match e.item {
            Expression::Identifier(n) => Some(self.nd(Pattern::Identifier(n))),
            Expression::Binary(b) if b.operator == OperatorKind::Assign => {
                let left = self.pattern_of(b.left)?;
                Some(self.nd(Pattern::AssignmentPattern { left, right: b.right }))
            }
            _ => None,
        }
    }

    fn patterns_of(&self, q: &[ExpressionNode<'a>]) -> Option<Vec<Node<'a, Pattern<'a>>>> {
        q.iter().map(|e| self.pattern_of(*e)).collect()
    }
}

include!("refparse_gen.rs");
