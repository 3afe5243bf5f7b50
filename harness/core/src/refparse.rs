//! Reference tokenizer and parser: one function per grammar level, written from the documented
//! order of operations.
//!
//! ```text
//! expr   := term (('+'|'-') term)*
//! term   := run (('*'|'/'|'%') run | <PEMDAS: juxtaposed run>)*
//! run    := chain <PEJMDAS: juxtaposed chain>*
//! chain  := prim ('^' prim)*                      left to right
//! prim   := ('+'|'-') chain | atom '!'*
//! atom   := number | name | call | '(' expr ')'
//! ```
//! A juxtaposed factor starts with a name, `(` or a digit, the latter not after a number literal.
use crate::ast::*;
use crate::names::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Order {
    Pemdas,
    Pejmdas,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Num(String),
    Ident(String),
    Op(char),
    LParen,
    RParen,
    Comma,
    Bad(char),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Token {
    pub tok: Tok,
    pub start: usize,
    pub end: usize,
}

pub fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c')
}

pub fn tokenize(text: &str) -> Vec<Token> {
    let b = text.as_bytes();
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let c = text[i..].chars().next().unwrap();
        if is_ws(c) {
            i += 1;
            continue;
        }
        let start = i;
        let tok = if c.is_ascii_digit() || c == '.' {
            while at(i).is_ascii_digit() || at(i) == b'.' || at(i) == b'_' {
                i += 1;
            }
            if matches!(at(i), b'e' | b'E') {
                let mut j = i + 1;
                if matches!(at(j), b'+' | b'-') {
                    j += 1;
                }
                if at(j).is_ascii_digit() {
                    while at(j).is_ascii_digit() {
                        j += 1;
                    }
                    i = j;
                }
            }
            Tok::Num(text[start..i].to_owned())
        } else if c.is_ascii_alphabetic() {
            while at(i).is_ascii_alphanumeric() || at(i) == b'_' || at(i) == b'\'' {
                i += 1;
            }
            Tok::Ident(text[start..i].to_owned())
        } else {
            i += c.len_utf8();
            match c {
                '+' | '-' | '*' | '/' | '%' | '^' | '!' => Tok::Op(c),
                '(' => Tok::LParen,
                ')' => Tok::RParen,
                ',' => Tok::Comma,
                _ => Tok::Bad(c),
            }
        };
        out.push(Token { tok, start, end: i });
    }
    out
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sym {
    Const(f64),
    Fn(FnRef),
}

/// Reference context: user symbols over built-ins.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct RefCtx {
    pub syms: BTreeMap<String, Sym>,
}

pub enum Resolved {
    Const(f64),
    Fn(FnRef),
    Var,
}

impl RefCtx {
    pub fn resolve(&self, name: &str) -> Resolved {
        match self.syms.get(name) {
            Some(Sym::Const(v)) => return Resolved::Const(*v),
            Some(Sym::Fn(f)) => return Resolved::Fn(*f),
            None => (),
        }
        if let Some(v) = constant(name) {
            return Resolved::Const(v);
        }
        builtin(name).map_or(Resolved::Var, |i| Resolved::Fn(FnRef::B(i)))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum ErrKind {
    End,
    /// a token that cannot come here (after a complete operand, or a `)` where an operand must start)
    Unexpected(char),
    /// a character that cannot start an operand
    Illegal(char),
    Expected(char),
    Malformed(String),
    TooFew(usize, usize),
    TooMany(usize, usize),
    MissingArg,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RefErr {
    pub kind: ErrKind,
    /// byte range of the offending place (empty at end of text)
    pub start: usize,
    pub end: usize,
}

pub struct RefParsed {
    pub ast: Ast,
    /// number of products written without an operator
    pub jux: usize,
}

struct P<'a> {
    text: &'a str,
    toks: Vec<Token>,
    i: usize,
    ctx: &'a RefCtx,
    order: Order,
    after_number: bool,
    jux: usize,
}

/// Parses with the reference grammar.
pub fn ref_parse(text: &str, ctx: &RefCtx, order: Order) -> Result<RefParsed, RefErr> {
    let mut p = P {
        text,
        toks: tokenize(text),
        i: 0,
        ctx,
        order,
        after_number: false,
        jux: 0,
    };
    let ast = p.expr()?;
    match p.peek() {
        None => Ok(RefParsed { ast, jux: p.jux }),
        Some(_) => Err(p.unexpected()),
    }
}

/// Does the text juxtapose a factor that starts with a decimal point after something that is not
/// a number (`x .5`)? The documentation does not say whether that is a product, so such texts are
/// left out of acceptance checks.
pub fn unspecified(text: &str) -> bool {
    let t = tokenize(text);
    t.windows(2).any(|w| {
        matches!(&w[1].tok, Tok::Num(s) if s.starts_with('.'))
            && !matches!(w[0].tok, Tok::Num(_) | Tok::LParen | Tok::Comma)
            && !matches!(w[0].tok, Tok::Op(c) if c != '!')
    })
}

impl P<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.toks.get(self.i).map(|t| &t.tok)
    }
    fn here(&self) -> (usize, usize) {
        self.toks.get(self.i).map_or((self.text.len(), self.text.len()), |t| (t.start, t.end))
    }
    fn first_char(&self) -> char {
        self.text[self.here().0..].chars().next().unwrap()
    }
    fn unexpected(&self) -> RefErr {
        let (start, _) = self.here();
        let c = self.first_char();
        RefErr { kind: ErrKind::Unexpected(c), start, end: start + c.len_utf8() }
    }
    fn err(&self, kind: ErrKind) -> RefErr {
        let (start, end) = self.here();
        RefErr { kind, start, end }
    }
    fn is_op(&self, set: &str) -> Option<char> {
        match self.peek() {
            Some(Tok::Op(c)) if set.contains(*c) => Some(*c),
            _ => None,
        }
    }
    fn starts_factor(&self) -> bool {
        match self.peek() {
            Some(Tok::Ident(_) | Tok::LParen) => true,
            Some(Tok::Num(s)) => !s.starts_with('.') && !self.after_number,
            _ => false,
        }
    }
    fn expr(&mut self) -> Result<Ast, RefErr> {
        let mut l = self.term()?;
        while let Some(c) = self.is_op("+-") {
            self.i += 1;
            let r = self.term()?;
            l = bin(if c == '+' { Op::Add } else { Op::Sub }, l, r);
        }
        Ok(l)
    }
    fn term(&mut self) -> Result<Ast, RefErr> {
        let mut l = self.run()?;
        loop {
            if let Some(c) = self.is_op("*/%") {
                self.i += 1;
                let r = self.run()?;
                let op = match c {
                    '*' => Op::Mul,
                    '/' => Op::Div,
                    _ => Op::Mod,
                };
                l = bin(op, l, r);
            } else if self.order == Order::Pemdas && self.starts_factor() {
                self.jux += 1;
                let r = self.chain()?;
                l = bin(Op::Mul, l, r);
            } else {
                return Ok(l);
            }
        }
    }
    fn run(&mut self) -> Result<Ast, RefErr> {
        let mut l = self.chain()?;
        while self.order == Order::Pejmdas && self.starts_factor() {
            self.jux += 1;
            let r = self.chain()?;
            l = bin(Op::Mul, l, r);
        }
        Ok(l)
    }
    fn chain(&mut self) -> Result<Ast, RefErr> {
        let mut l = self.prim()?;
        while self.is_op("^").is_some() {
            self.i += 1;
            let r = self.prim()?;
            l = bin(Op::Pow, l, r);
        }
        Ok(l)
    }
    fn prim(&mut self) -> Result<Ast, RefErr> {
        if let Some(c) = self.is_op("+-") {
            self.i += 1;
            let a = Box::new(self.chain()?);
            return Ok(if c == '+' { Ast::Pos(a) } else { Ast::Neg(a) });
        }
        let mut a = self.atom()?;
        while self.is_op("!").is_some() {
            self.i += 1;
            self.after_number = false;
            a = Ast::Fact(Box::new(a));
        }
        Ok(a)
    }
    fn atom(&mut self) -> Result<Ast, RefErr> {
        let start = self.here().0;
        let Some(tok) = self.peek().cloned() else {
            return Err(self.err(ErrKind::End));
        };
        match tok {
            Tok::Num(s) => {
                let v: f64 = match s.replace('_', "").parse() {
                    Ok(v) => v,
                    Err(_) => return Err(self.err(ErrKind::Malformed(s))),
                };
                self.i += 1;
                self.after_number = true;
                Ok(Ast::Num(v))
            }
            Tok::Ident(name) => {
                self.i += 1;
                match self.ctx.resolve(&name) {
                    Resolved::Const(v) => {
                        self.after_number = false;
                        Ok(Ast::Num(v))
                    }
                    Resolved::Var => {
                        self.after_number = false;
                        Ok(Ast::Var(name))
                    }
                    Resolved::Fn(f) => self.call(f, start),
                }
            }
            Tok::LParen => {
                self.i += 1;
                let a = self.expr()?;
                if self.peek() != Some(&Tok::RParen) {
                    return Err(self.err(ErrKind::Expected(')')));
                }
                self.i += 1;
                self.after_number = false;
                Ok(a)
            }
            Tok::RParen => Err(self.unexpected()),
            Tok::Op(_) | Tok::Comma | Tok::Bad(_) => {
                let c = self.first_char();
                let (start, _) = self.here();
                Err(RefErr { kind: ErrKind::Illegal(c), start, end: start + c.len_utf8() })
            }
        }
    }
    fn call(&mut self, f: FnRef, start: usize) -> Result<Ast, RefErr> {
        if self.peek() != Some(&Tok::LParen) {
            return Err(self.err(ErrKind::Expected('(')));
        }
        self.i += 1;
        let mut args = Vec::new();
        if self.peek() != Some(&Tok::RParen) {
            loop {
                if self.peek() == Some(&Tok::RParen) {
                    return Err(self.err(ErrKind::MissingArg));
                }
                args.push(self.expr()?);
                match self.peek() {
                    Some(Tok::Comma) => self.i += 1,
                    Some(Tok::RParen) => break,
                    Some(_) => return Err(self.unexpected()),
                    None => return Err(self.err(ErrKind::End)),
                }
            }
        }
        let end = self.here().1;
        self.i += 1;
        self.after_number = false;
        if let Some(n) = f.arity() {
            let got = args.len();
            if got != n {
                let kind =
                    if got < n { ErrKind::TooFew(n, got) } else { ErrKind::TooMany(n, got) };
                return Err(RefErr { kind, start, end });
            }
        }
        Ok(Ast::Call(f, args))
    }
}
