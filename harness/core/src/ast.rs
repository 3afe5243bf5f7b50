//! Reference abstract syntax and reference evaluation.
use crate::names::{BUILTINS, HNAMES, USER_FNS};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Mod,
    Pow,
    /// multiplication written without an operator (generator only; `norm` turns it into `Mul`)
    Jux,
}

impl Op {
    pub fn ch(self) -> char {
        match self {
            Op::Add => '+',
            Op::Sub => '-',
            Op::Mul | Op::Jux => '*',
            Op::Div => '/',
            Op::Mod => '%',
            Op::Pow => '^',
        }
    }
    pub fn apply(self, a: f64, b: f64) -> f64 {
        match self {
            Op::Add => a + b,
            Op::Sub => a - b,
            Op::Mul | Op::Jux => a * b,
            Op::Div => a / b,
            Op::Mod => a % b,
            Op::Pow => a.powf(b),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FnRef {
    /// index into BUILTINS
    B(usize),
    /// index into USER_FNS
    U(usize),
    /// a function made from an expression (index into HNAMES); replaced before evaluation
    H(usize),
}

impl FnRef {
    pub fn name(self) -> &'static str {
        match self {
            FnRef::B(i) => BUILTINS[i].name,
            FnRef::U(i) => USER_FNS[i].name,
            FnRef::H(i) => HNAMES[i],
        }
    }
    pub fn arity(self) -> Option<usize> {
        match self {
            FnRef::B(i) => BUILTINS[i].arity(),
            FnRef::U(i) => USER_FNS[i].arity.map(usize::from),
            FnRef::H(_) => None,
        }
    }
    pub fn call(self, a: &[f64]) -> f64 {
        match self {
            FnRef::B(i) => BUILTINS[i].call(a),
            FnRef::U(i) => (USER_FNS[i].imp)(a),
            FnRef::H(_) => panic!("not expanded"),
        }
    }
    /// Same displayed function (aliases merge).
    pub fn canon(self) -> Self {
        match self {
            FnRef::B(i) => FnRef::B(
                BUILTINS.iter().position(|b| b.shown == BUILTINS[i].shown).unwrap(),
            ),
            u => u,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ast {
    Num(f64),
    /// a number with the text it is written as (generator only)
    Lit(String),
    /// a named constant (`pi`, `e` or a context constant), kept by name by the generator only
    Const(String, f64),
    Var(String),
    Pos(Box<Ast>),
    Neg(Box<Ast>),
    Fact(Box<Ast>),
    Bin(Op, Box<Ast>, Box<Ast>),
    Call(FnRef, Vec<Ast>),
}

pub fn lit_value(s: &str) -> f64 {
    s.replace('_', "").parse().expect("generated literal")
}

pub type Env = BTreeMap<String, f64>;

/// What happened during a reference evaluation.
#[derive(Clone, Copy, Debug, Default)]
pub struct Reg {
    /// some operand of some operation was infinite or NaN
    pub nonfinite_operand: bool,
    /// some result was NaN
    pub nan: bool,
    /// the sign of a zero could have influenced a result
    pub zero_sign: bool,
    /// a variadic built-in returned a zero whose sign is not specified
    pub ambiguous: bool,
    /// an infinity came from a zero operand, so its sign from the sign of that zero
    pub zero_made_infinity: bool,
}

impl Reg {
    pub fn regular(self) -> bool {
        !self.nonfinite_operand && !self.nan && !self.zero_sign && !self.ambiguous
    }
}

pub fn bin(op: Op, a: Ast, b: Ast) -> Ast {
    Ast::Bin(op, Box::new(a), Box::new(b))
}
pub fn neg(a: Ast) -> Ast {
    Ast::Neg(Box::new(a))
}

impl Ast {
    /// Removes generator-only distinctions and unary plus is kept.
    pub fn norm(&self) -> Ast {
        match self {
            Ast::Num(_) | Ast::Var(_) => self.clone(),
            Ast::Lit(s) => Ast::Num(lit_value(s)),
            Ast::Const(_, v) => Ast::Num(*v),
            Ast::Pos(a) => Ast::Pos(Box::new(a.norm())),
            Ast::Neg(a) => Ast::Neg(Box::new(a.norm())),
            Ast::Fact(a) => Ast::Fact(Box::new(a.norm())),
            Ast::Bin(op, a, b) => {
                let op = if *op == Op::Jux { Op::Mul } else { *op };
                bin(op, a.norm(), b.norm())
            }
            Ast::Call(f, args) => Ast::Call(*f, args.iter().map(Ast::norm).collect()),
        }
    }
    /// Canonical form for comparing with a read-back display: `-c` for a number is a number,
    /// aliases are merged.
    pub fn canon(&self) -> Ast {
        match self.norm() {
            Ast::Neg(a) => match a.canon() {
                Ast::Num(v) => Ast::Num(-v),
                o => Ast::Neg(Box::new(o)),
            },
            Ast::Pos(a) => Ast::Pos(Box::new(a.canon())),
            Ast::Fact(a) => Ast::Fact(Box::new(a.canon())),
            Ast::Bin(op, a, b) => bin(op, a.canon(), b.canon()),
            Ast::Call(f, args) => Ast::Call(f.canon(), args.iter().map(Ast::canon).collect()),
            o => o,
        }
    }
    /// Structural equality where numbers compare by value (0 == -0) and NaN equals NaN.
    pub fn same_tree(&self, o: &Ast) -> bool {
        match (self, o) {
            (Ast::Num(a), Ast::Num(b)) => same(*a, *b),
            (Ast::Lit(a), Ast::Lit(b)) => a == b,
            (Ast::Const(a, _), Ast::Const(b, _)) => a == b,
            (Ast::Var(a), Ast::Var(b)) => a == b,
            (Ast::Pos(a), Ast::Pos(b)) | (Ast::Neg(a), Ast::Neg(b)) | (Ast::Fact(a), Ast::Fact(b)) => {
                a.same_tree(b)
            }
            (Ast::Bin(p, a, b), Ast::Bin(q, c, d)) => p == q && a.same_tree(c) && b.same_tree(d),
            (Ast::Call(f, a), Ast::Call(g, b)) => {
                f == g && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same_tree(y))
            }
            _ => false,
        }
    }
    pub fn children(&self) -> Vec<&Ast> {
        match self {
            Ast::Num(_) | Ast::Lit(_) | Ast::Const(..) | Ast::Var(_) => vec![],
            Ast::Pos(a) | Ast::Neg(a) | Ast::Fact(a) => vec![a],
            Ast::Bin(_, a, b) => vec![a, b],
            Ast::Call(_, args) => args.iter().collect(),
        }
    }
    pub fn vars(&self) -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        self.collect_vars(&mut s);
        s
    }
    fn collect_vars(&self, s: &mut BTreeSet<String>) {
        if let Ast::Var(v) = self {
            s.insert(v.clone());
        }
        for c in self.children() {
            c.collect_vars(s);
        }
    }
    pub fn has_vars(&self) -> bool {
        matches!(self, Ast::Var(_)) || self.children().iter().any(|c| c.has_vars())
    }
    pub fn size(&self) -> usize {
        1 + self.children().iter().map(|c| c.size()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.children().iter().map(|c| c.depth()).max().unwrap_or(0)
    }
    pub fn any(&self, f: &dyn Fn(&Ast) -> bool) -> bool {
        f(self) || self.children().iter().any(|c| c.any(f))
    }
    pub fn eval(&self, env: &Env) -> Option<f64> {
        let mut r = Reg::default();
        self.eval_reg(env, &mut r)
    }
    /// Evaluation as written, in IEEE double arithmetic; `None` when a variable is missing.
    pub fn eval_reg(&self, env: &Env, reg: &mut Reg) -> Option<f64> {
        let v = match self {
            Ast::Num(v) | Ast::Const(_, v) => *v,
            Ast::Lit(s) => lit_value(s),
            Ast::Var(n) => *env.get(n)?,
            Ast::Pos(a) => {
                let v = a.eval_reg(env, reg)?;
                reg.operand(v)
            }
            Ast::Neg(a) => {
                let v = a.eval_reg(env, reg)?;
                -reg.operand(v)
            }
            Ast::Fact(a) => {
                let v = a.eval_reg(env, reg)?;
                crate::names::factorial(reg.operand(v))
            }
            Ast::Bin(op, a, b) => {
                let (a_ast, b_ast) = (a, b);
                let a = a_ast.eval_reg(env, reg)?;
                let b = b_ast.eval_reg(env, reg)?;
                reg.operand(a);
                reg.operand(b);
                let r = op.apply(a, b);
                if r.is_infinite() && (a == 0.0 || b == 0.0) {
                    // the sign of the zero decides the sign of the infinity, unless the zero is
                    // a constant divisor (constants are folded exactly, sign included)
                    reg.zero_made_infinity = true;
                    let exact = matches!(op, Op::Div) && !b_ast.has_vars();
                    if !exact {
                        reg.zero_sign = true;
                    }
                }
                r
            }
            Ast::Call(f, args) => {
                let mut vals = Vec::with_capacity(args.len());
                for a in args {
                    let v = a.eval_reg(env, reg)?;
                    vals.push(reg.operand(v));
                }
                let r = f.call(&vals);
                if r.is_infinite() && vals.iter().any(|v| *v == 0.0) {
                    reg.zero_sign = true;
                }
                if let FnRef::B(i) = f {
                    if BUILTINS[*i].name == "atan2" && vals[0] == 0.0 {
                        reg.zero_sign = true;
                    }
                    if r == 0.0 && BUILTINS[*i].arity().is_none() {
                        reg.ambiguous = true;
                    }
                }
                r
            }
        };
        if v.is_nan() {
            reg.nan = true;
        }
        Some(v)
    }
    /// Replaces variables by expressions.
    pub fn subst(&self, map: &BTreeMap<String, Ast>) -> Ast {
        match self {
            Ast::Var(v) => map.get(v).cloned().unwrap_or_else(|| self.clone()),
            Ast::Num(_) | Ast::Lit(_) | Ast::Const(..) => self.clone(),
            Ast::Pos(a) => Ast::Pos(Box::new(a.subst(map))),
            Ast::Neg(a) => Ast::Neg(Box::new(a.subst(map))),
            Ast::Fact(a) => Ast::Fact(Box::new(a.subst(map))),
            Ast::Bin(op, a, b) => bin(*op, a.subst(map), b.subst(map)),
            Ast::Call(f, args) => Ast::Call(*f, args.iter().map(|a| a.subst(map)).collect()),
        }
    }
    /// Fully parenthesised rendering for messages only.
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_into(&mut s);
        s
    }
    fn show_into(&self, s: &mut String) {
        match self {
            Ast::Num(v) => write!(s, "{v:?}").unwrap(),
            Ast::Lit(t) => s.push_str(t),
            Ast::Const(n, _) => s.push_str(n),
            Ast::Var(v) => s.push_str(v),
            Ast::Pos(a) | Ast::Neg(a) => {
                s.push_str(if matches!(self, Ast::Pos(_)) { "(+" } else { "(-" });
                a.show_into(s);
                s.push(')');
            }
            Ast::Fact(a) => {
                s.push('(');
                a.show_into(s);
                s.push_str("!)");
            }
            Ast::Bin(op, a, b) => {
                s.push('(');
                a.show_into(s);
                write!(s, " {} ", if *op == Op::Jux { '.' } else { op.ch() }).unwrap();
                b.show_into(s);
                s.push(')');
            }
            Ast::Call(f, args) => {
                write!(s, "{}(", f.name()).unwrap();
                for (i, a) in args.iter().enumerate() {
                    if i > 0 {
                        s.push_str(", ");
                    }
                    a.show_into(s);
                }
                s.push(')');
            }
        }
    }
}

impl Reg {
    fn operand(&mut self, v: f64) -> f64 {
        if !v.is_finite() {
            self.nonfinite_operand = true;
        }
        v
    }
}

/// Numeric equality, NaN equal to NaN, zeros equal.
pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// Bit equality up to NaN payload.
pub fn identical(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
