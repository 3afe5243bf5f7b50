//! Generators: contexts, expressions, renderings, token soups, mutations and values, all decoded
//! from a choice list (`Src`).
use crate::ast::*;
use crate::names::*;
use crate::refparse::*;
use crate::src::Src;

// ------------------------------------------------------------------------------------ contexts

#[derive(Clone, Debug, PartialEq)]
pub enum Def {
    Const(&'static str, f64),
    Fn(usize),
}

/// A generated context: definitions in the order they are made (later ones win).
#[derive(Clone, Debug, Default, PartialEq)]
pub struct GenCtx {
    pub defs: Vec<Def>,
}

impl GenCtx {
    pub fn refctx(&self) -> RefCtx {
        let mut c = RefCtx::default();
        for d in &self.defs {
            c.define(d);
        }
        c
    }
    pub fn show(&self) -> String {
        let v: Vec<String> = self
            .defs
            .iter()
            .map(|d| match d {
                Def::Const(n, v) => format!("{n} = {v:?}"),
                Def::Fn(i) => format!(
                    "fn {}/{}",
                    USER_FNS[*i].name,
                    USER_FNS[*i].arity.map_or("any".to_owned(), |a| a.to_string())
                ),
            })
            .collect();
        format!("[{}]", v.join(", "))
    }
}

impl RefCtx {
    pub fn define(&mut self, d: &Def) {
        match d {
            Def::Const(n, v) => self.syms.insert((*n).to_owned(), Sym::Const(*v)),
            Def::Fn(i) => self.syms.insert(USER_FNS[*i].name.to_owned(), Sym::Fn(FnRef::U(*i))),
        };
    }
}

pub const CONST_NAMES: &[&str] = &[
    "one", "zero", "k", "m1", "half", "negz", "big", "C", "pi", "sin", "x", "e2", "a", "max", "e",
    "tau'", "foo", "K9_",
];
const CONST_VALS: &[f64] = &[
    1.0, 0.0, 2.0, -1.0, 0.5, -0.0, 3.0, -2.5, 170.0, 1e308, 5e-324, 0.1, -3.0, 100.0, 7.25, 171.0,
];

#[derive(Clone, Copy, Debug)]
pub struct CtxOpts {
    pub nonfinite: bool,
    pub shadow: bool,
}

pub fn gen_def(s: &mut Src, o: CtxOpts) -> Def {
    if s.chance(2, 5) {
        let end = if s.chance(1, 3) { USER_FNS.len() } else { USER_FNS_MIXED };
        let ok: Vec<usize> = (0..end)
            .filter(|i| o.shadow || builtin(USER_FNS[*i].name).is_none())
            .collect();
        return Def::Fn(*s.pick(&ok));
    }
    let mut n = *s.pick(CONST_NAMES);
    if s.chance(1, 24) {
        n = s.dict_static_name().unwrap_or(n);
    }
    if !o.shadow && (builtin(n).is_some() || constant(n).is_some()) {
        n = "k";
    }
    let natural = match n {
        "one" => Some(1.0),
        "zero" => Some(0.0),
        "m1" => Some(-1.0),
        "half" => Some(0.5),
        "negz" => Some(-0.0),
        "big" => Some(1e308),
        _ => None,
    };
    let v = match natural {
        Some(v) if !s.chance(1, 4) => v,
        _ => {
            if o.nonfinite && s.chance(1, 6) {
                *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])
            } else {
                let v = *s.pick(CONST_VALS);
                match s.chance(1, 16) {
                    true => s.dict_num().filter(|v| v.is_finite()).unwrap_or(v),
                    false => v,
                }
            }
        }
    };
    Def::Const(n, v)
}

pub fn gen_ctx(s: &mut Src, o: CtxOpts) -> GenCtx {
    let n = match s.below(10) {
        0..=3 => 0,
        4..=6 => s.range(1, 3),
        7 | 8 => s.range(2, 7),
        _ => s.size(5, 20, 300),
    };
    GenCtx { defs: (0..n).map(|_| gen_def(s, o)).collect() }
}

// ------------------------------------------------------------------------------------ expressions

#[derive(Clone, Copy, Debug)]
pub struct GenOpts {
    pub jux: bool,
    pub vars: bool,
    pub calls: bool,
    pub fact: bool,
    /// allow unary plus
    pub pos: bool,
    /// weight of patterns that simplification rules look for
    pub patterns: u32,
    pub max_depth: usize,
    pub fuel: usize,
    /// allow very long, wide and deep shapes
    pub shapes: bool,
    /// at least one variable
    pub need_vars: bool,
    /// weight of calls
    pub call_weight: u32,
    /// how many times as often a user function is picked as a built-in
    pub own: usize,
}

impl Default for GenOpts {
    fn default() -> Self {
        Self {
            jux: true,
            vars: true,
            calls: true,
            fact: true,
            pos: true,
            patterns: 12,
            max_depth: 6,
            fuel: 70,
            shapes: true,
            need_vars: false,
            call_weight: 12,
            own: 4,
        }
    }
}

pub struct Gen<'a, 'b> {
    pub s: &'a mut Src<'b>,
    pub o: GenOpts,
    pub ctx: &'a RefCtx,
    pub vars: Vec<String>,
    fns: Vec<FnRef>,
    consts: Vec<(String, f64)>,
    fuel: usize,
}

/// Names usable as variables under a context.
pub fn gen_vars(s: &mut Src, ctx: &RefCtx, max: usize) -> Vec<String> {
    let many = s.chance(1, 16);
    let n = if many { s.size(9, 80, 200) } else { s.range(1, max.max(1)) };
    let mut v: Vec<String> = Vec::new();
    for i in 0..n {
        let c = match s.below(48) {
            _ if many && i > 3 => format!("v{i}"),
            0 => gen_name(s),
            40.. if i > 0 => relative(s, &v),
            1..=16 => (*s.pick(VARS)).to_owned(),
            _ => VARS[s.below(12.min(VARS.len()))].to_owned(),
        };
        if matches!(ctx.resolve(&c), Resolved::Var) && !v.contains(&c) {
            v.push(c);
        }
    }
    if v.is_empty() {
        v.push("qq".to_owned());
    }
    v
}

/// A name that is almost one of those.
pub fn relative(s: &mut Src, names: &[String]) -> String {
    let Some(n) = names.get(s.below(names.len())) else { return gen_name(s) };
    match s.below(12) {
        0..=2 => format!("{n}{}", s.pick(&["'", "''", "'''"])),
        3 => format!("{n}_"),
        4 => format!("{n}{}", s.below(12)),
        5 => format!("{n}{n}"),
        6 => format!("{n}x"),
        7 => format!("x{n}"),
        8 => n.to_uppercase(),
        9 => n.to_lowercase(),
        10 if n.len() > 1 => n[..n.len() - 1].to_owned(),
        _ => format!("{n}_{n}'"),
    }
}

/// Any identifier: a letter, then letters, digits, underscores and quotes.
pub fn gen_name(s: &mut Src) -> String {
    if s.chance(1, 16) {
        if let Some(n) = s.dict_name() {
            return n;
        }
    }
    let n = match s.below(4) {
        0 => 1,
        1 | 2 => s.range(2, 9),
        _ => s.size(10, 300, 5000),
    };
    let letters = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    let mut t = String::new();
    t.push(char::from(letters[s.below(letters.len())]));
    // long names repeat what was drawn
    for _ in 1..n.min(12) {
        let k = s.below(letters.len() + 14);
        t.push(match k.checked_sub(letters.len()) {
            None => char::from(letters[k]),
            Some(d @ 0..=9) => char::from(b'0' + d as u8),
            Some(10 | 11) => '_',
            Some(_) => '\'',
        });
    }
    while t.len() < n {
        let k = (n - t.len()).min(t.len());
        t.push_str(&t[..k].to_owned());
    }
    t
}

const LITS: &[&str] = &[
    "2", "0", "1", "3", "0.5", "2.5", "10", "1.", ".5", "4", "5", "0.0", "1.0", "7", "1e3", "2E-2",
    "1e+2", "1_000", "170", "171", "1e308", "1e-320", "0.1", "3.14159", "6", "12", "20", "1_0.2_5",
    "9007199254740993", "123456789", "0.000001", "5e-324", "1e-5", "8", "00012", "99.99", "1e0",
    "1_", "0e7", "2.0e1", "1e400",
];

impl<'a, 'b> Gen<'a, 'b> {
    pub fn new(s: &'a mut Src<'b>, o: GenOpts, ctx: &'a RefCtx, vars: Vec<String>) -> Self {
        let mut fns: Vec<FnRef> = Vec::new();
        for (n, d) in &ctx.syms {
            if let Sym::Fn(f) = d {
                debug_assert_eq!(f.name(), n);
                // user functions are picked more often than each built-in
                fns.extend(std::iter::repeat_n(*f, o.own));
            }
        }
        for (i, b) in BUILTINS.iter().enumerate() {
            if matches!(ctx.resolve(b.name), Resolved::Fn(FnRef::B(_))) {
                fns.push(FnRef::B(i));
            }
        }
        let mut consts: Vec<(String, f64)> = Vec::new();
        for (n, d) in &ctx.syms {
            if let Sym::Const(v) = d {
                consts.push((n.clone(), *v));
            }
        }
        for n in ["pi", "e"] {
            if !ctx.syms.contains_key(n) {
                consts.push((n.to_owned(), constant(n).unwrap()));
            }
        }
        let fuel = o.fuel;
        Self { s, o, ctx, vars, fns, consts, fuel }
    }

    pub fn literal(&mut self) -> Ast {
        if self.s.chance(1, 8) {
            return Ast::Lit(gen_literal(self.s, 12));
        }
        let k = if self.s.chance(2, 3) { 6 } else { LITS.len() };
        Ast::Lit((*self.s.pick(&LITS[..k])).to_owned())
    }

    pub fn atom(&mut self) -> Ast {
        let w = [10, if self.o.vars { 12 } else { 0 }, if self.consts.is_empty() { 0 } else { 4 }];
        match self.s.weighted(&w) {
            0 => self.literal(),
            1 => {
                let i = self.s.below(self.vars.len());
                Ast::Var(self.vars[i].clone())
            }
            _ => {
                let i = self.s.below(self.consts.len());
                let (n, v) = self.consts[i].clone();
                Ast::Const(n, v)
            }
        }
    }

    fn zero(&mut self) -> Ast {
        match self.s.below(8) {
            0..=3 => Ast::Lit("0".into()),
            4 => Ast::Lit("0.0".into()),
            5 => neg(Ast::Lit("0".into())),
            6 => bin(Op::Sub, Ast::Lit("1".into()), Ast::Lit("1".into())),
            _ => self
                .consts
                .iter()
                .find(|c| c.1 == 0.0)
                .map_or(Ast::Lit("0".into()), |c| Ast::Const(c.0.clone(), c.1)),
        }
    }

    fn one(&mut self) -> Ast {
        match self.s.below(6) {
            0..=2 => Ast::Lit("1".into()),
            3 => Ast::Lit("1.0".into()),
            4 => bin(Op::Div, Ast::Lit("2".into()), Ast::Lit("2".into())),
            _ => self
                .consts
                .iter()
                .find(|c| c.1 == 1.0)
                .map_or(Ast::Lit("1".into()), |c| Ast::Const(c.0.clone(), c.1)),
        }
    }

    /// Shapes the rewrite rules look for, and near misses.
    fn pattern(&mut self, d: usize) -> Ast {
        let a = self.exact_pattern(d);
        if !self.s.chance(1, 3) {
            return a;
        }
        // a near miss: one of the nodes near the root is another one
        let mut at = self.s.below(a.size().min(6));
        self.edit_at(&a, &mut at)
    }

    fn number(&mut self) -> Ast {
        match self.s.below(6) {
            0 => self.one(),
            1 => self.zero(),
            2 => Ast::Lit((*self.s.pick(&["2", "0.5", "3", "4", "10", "0.25", "0.1"])).to_owned()),
            3 => neg(self.literal()),
            4 => Ast::Lit(self.s.below(200).to_string()),
            _ => self.literal(),
        }
    }

    /// A number made from that one: itself, its opposite, its inverse…
    fn number_like(&mut self, k: &Ast) -> Ast {
        let k = k.clone();
        match self.s.below(8) {
            0..=3 => k,
            4 => neg(k),
            5 => bin(Op::Div, Ast::Lit("1".into()), k),
            6 => bin(Op::Add, k, Ast::Lit("1".into())),
            _ => self.number(),
        }
    }

    fn any_op(&mut self) -> Op {
        *self.s.pick(&[Op::Mul, Op::Div, Op::Add, Op::Sub, Op::Pow, Op::Mod])
    }

    fn some_call(&mut self, mut args: Vec<Ast>) -> Ast {
        let own = self.fns.iter().filter(|f| matches!(f, FnRef::U(_))).count();
        let mut f = self.fns[self.s.below(self.fns.len())];
        if own > 0 && self.s.chance(1, 2) {
            f = self.fns[self.s.below(own)];
        }
        if let Some(n) = f.arity() {
            while args.len() < n {
                let a = self.atom();
                args.push(a);
            }
            args.truncate(n);
        } else if self.s.chance(1, 2) {
            let a = self.atom();
            args.push(a);
        }
        Ast::Call(f, args)
    }

    /// Shapes that identities of algebra (true or almost true) apply to.
    fn identity(&mut self, d: usize) -> Ast {
        let a = if self.s.chance(1, 2) { self.atom() } else { self.expr(d - 1) };
        let k = self.s.below(if self.o.calls { 20 } else { 10 });
        match k {
            0..=2 => {
                // (a op k) op k' and the like
                let n = self.number();
                let m = self.number_like(&n);
                let (o1, o2) = (self.any_op(), self.any_op());
                let inner = if self.s.chance(1, 4) { bin(o1, n, a) } else { bin(o1, a, n) };
                if self.s.chance(1, 4) {
                    bin(o2, m, inner)
                } else {
                    bin(o2, inner, m)
                }
            }
            3..=5 => {
                // (a op b) op' a
                let b = if self.s.chance(1, 2) { self.atom() } else { self.expr(d - 1) };
                let (o1, o2) = (self.any_op(), self.any_op());
                let c = if self.s.chance(1, 2) { a.clone() } else { b.clone() };
                let c = if self.s.chance(1, 5) { neg(c) } else { c };
                let inner = bin(o1, a, b);
                if self.s.chance(1, 2) {
                    bin(o2, inner, c)
                } else {
                    bin(o2, c, inner)
                }
            }
            6 => {
                // (a op k) op' (a op'' k')
                let n = self.number();
                let m = self.number_like(&n);
                let (o1, o2, o3) = (self.any_op(), self.any_op(), self.any_op());
                let l = if self.s.chance(1, 3) { a.clone() } else { bin(o1, a.clone(), n) };
                bin(o2, l, bin(o3, a, m))
            }
            7 => {
                let f = Ast::Fact(Box::new(a.clone()));
                let o = self.any_op();
                match self.s.below(4) {
                    0 => bin(o, f, a),
                    1 => bin(o, f.clone(), f),
                    2 => Ast::Fact(Box::new(neg(a))),
                    _ => {
                        let n = self.number();
                        bin(o, f, n)
                    }
                }
            }
            8 => {
                let b = self.atom();
                let o = self.any_op();
                neg(bin(o, neg(a), b))
            }
            9 => {
                let o = self.any_op();
                bin(o, a.clone(), a)
            }
            10 | 11 => self.some_call(vec![neg(a)]),
            12 => {
                let o = self.any_op();
                let n = self.number();
                let c = self.some_call(vec![a]);
                if self.s.chance(1, 3) {
                    bin(o, n, c)
                } else {
                    bin(o, c, n)
                }
            }
            13 => {
                let o = self.any_op();
                let n = self.number();
                let x = bin(o, a, n);
                self.some_call(vec![x])
            }
            14 => {
                let c = self.some_call(vec![a]);
                match c {
                    Ast::Call(f, args) => {
                        // applied to its own result, in any place
                        let mut outer = args.clone();
                        if !outer.is_empty() {
                            let i = self.s.below(outer.len());
                            outer[i] = Ast::Call(f, args);
                        }
                        Ast::Call(f, outer)
                    }
                    o => o,
                }
            }
            15 => {
                let c = self.some_call(vec![a]);
                self.some_call(vec![c])
            }
            16 => {
                let c = self.some_call(vec![a]);
                let o = self.any_op();
                let b = self.edit(&c);
                let b = if self.s.chance(1, 2) { c.clone() } else { b };
                bin(o, c, b)
            }
            17 => {
                let c = self.some_call(vec![a]);
                match c {
                    Ast::Call(f, mut args) if args.len() > 1 => {
                        let o = self.any_op();
                        let c = Ast::Call(f, args.clone());
                        args.reverse();
                        bin(o, c, Ast::Call(f, args))
                    }
                    c => neg(c),
                }
            }
            18 => {
                // equal or constant arguments
                let n = self.number();
                let args = match self.s.below(4) {
                    0 => vec![a.clone(), a.clone(), a],
                    1 => vec![a, n],
                    2 => vec![n, a],
                    _ => vec![n.clone(), a, n],
                };
                self.some_call(args)
            }
            _ => {
                let c = self.some_call(vec![a.clone()]);
                let o = self.any_op();
                if self.s.chance(1, 2) {
                    bin(o, c, a)
                } else {
                    bin(o, a, c)
                }
            }
        }
    }

    fn exact_pattern(&mut self, d: usize) -> Ast {
        if self.s.chance(1, 3) {
            return self.identity(d);
        }
        let a = self.expr(d - 1);
        let k = self.s.below(28);
        match k {
            0 => {
                let b = commute(&a, self.s);
                bin(Op::Sub, a, b)
            }
            1 => {
                let b = commute(&a, self.s);
                bin(Op::Div, a, b)
            }
            2 => {
                let b = commute(&a, self.s);
                bin(Op::Mod, a, b)
            }
            3 => {
                let b = commute(&a, self.s);
                bin(Op::Add, neg(a), b)
            }
            4 => {
                let b = commute(&a, self.s);
                bin(Op::Add, a, neg(b))
            }
            5 => {
                let b = self.expr(d - 1);
                bin(Op::Mul, neg(a), neg(b))
            }
            6 => {
                let b = self.expr(d - 1);
                bin(Op::Div, neg(a), neg(b))
            }
            7 => {
                let b = self.expr(d - 1);
                bin(Op::Sub, a, neg(b))
            }
            8 => {
                let b = self.expr(d - 1);
                let op = *self.s.pick(&[Op::Add, Op::Sub, Op::Mod, Op::Pow]);
                bin(op, neg(a), neg(b))
            }
            9 => {
                let b = commute(&a, self.s);
                let op = *self.s.pick(&[Op::Add, Op::Mul, Op::Pow]);
                bin(op, a, b)
            }
            10 => {
                // almost the same operand: one edit away
                let b = self.edit(&a);
                let op = *self.s.pick(&[Op::Sub, Op::Div, Op::Mod]);
                bin(op, a, b)
            }
            11 => neg(neg(a)),
            12 => {
                let b = self.atom();
                bin(Op::Sub, neg(a), b)
            }
            13 => {
                let b = self.expr(d - 1);
                let op = *self.s.pick(&[Op::Mul, Op::Div]);
                if self.s.chance(1, 2) {
                    bin(op, neg(a), b)
                } else {
                    bin(op, a, neg(b))
                }
            }
            _ => {
                let op = *self.s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod, Op::Pow]);
                let z = if self.s.chance(1, 2) { self.one() } else { self.zero() };
                if self.s.chance(1, 2) {
                    bin(op, z, a)
                } else {
                    bin(op, a, z)
                }
            }
        }
    }

    pub fn expr(&mut self, d: usize) -> Ast {
        if d == 0 || self.fuel == 0 || self.s.exhausted() {
            return self.atom();
        }
        self.fuel -= 1;
        let w = [
            14,
            40,
            9,
            if self.o.pos { 3 } else { 0 },
            if self.o.fact { 5 } else { 0 },
            if self.o.calls { self.o.call_weight } else { 0 },
            self.o.patterns,
            if self.o.jux { 12 } else { 0 },
        ];
        match self.s.weighted(&w) {
            0 => self.atom(),
            1 => {
                let op =
                    *self.s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Pow, Op::Mod, Op::Pow]);
                let a = self.expr(d - 1);
                let b = self.expr(d - 1);
                bin(op, a, b)
            }
            2 => neg(self.expr(d - 1)),
            3 => Ast::Pos(Box::new(self.expr(d - 1))),
            4 => {
                let mut a = if self.s.chance(1, 2) {
                    Ast::Lit(self.s.below(22).to_string())
                } else {
                    self.expr(d - 1)
                };
                let n = if self.s.chance(1, 5) { self.s.size(2, 4, 40) } else { 1 };
                for _ in 0..n {
                    a = Ast::Fact(Box::new(a));
                }
                a
            }
            5 => self.call(d),
            6 => self.pattern(d),
            _ => {
                let n = if self.s.chance(1, 3) { self.s.size(3, 5, 60) } else { 2 };
                let mut a = self.expr(d - 1);
                for _ in 1..n {
                    let b = self.expr(d - 1);
                    a = bin(Op::Jux, a, b);
                }
                a
            }
        }
    }

    pub fn call(&mut self, d: usize) -> Ast {
        let i = self.s.below(self.fns.len());
        self.call_to(self.fns[i], d)
    }

    /// A call of a user function, if there is one.
    pub fn own_call(&mut self, d: usize) -> Option<Ast> {
        let own = self.fns.iter().filter(|f| matches!(f, FnRef::U(_))).count();
        if own == 0 {
            return None;
        }
        let i = self.s.below(own);
        let f = *self.fns.iter().filter(|f| matches!(f, FnRef::U(_))).nth(i).unwrap();
        Some(self.call_to(f, d))
    }

    fn call_to(&mut self, f: FnRef, d: usize) -> Ast {
        let n = f.arity().unwrap_or_else(|| match self.s.below(8) {
            0..=5 => self.s.range(1, 4),
            6 => 0,
            _ => self.s.size(2, 12, 300),
        });
        Ast::Call(f, (0..n).map(|_| self.expr(d - 1)).collect())
    }

    /// A copy with one place changed (generator-level: operator, operand order, name, number, function).
    pub fn edit(&mut self, a: &Ast) -> Ast {
        let n = a.size();
        let mut at = self.s.below(n);
        self.edit_at(a, &mut at)
    }

    fn edit_at(&mut self, a: &Ast, at: &mut usize) -> Ast {
        if *at == 0 {
            *at = usize::MAX;
            return self.edit_node(a);
        }
        *at = at.wrapping_sub(1);
        match a {
            Ast::Num(_) | Ast::Lit(_) | Ast::Const(..) | Ast::Var(_) => a.clone(),
            Ast::Pos(x) => Ast::Pos(Box::new(self.edit_at(x, at))),
            Ast::Neg(x) => neg(self.edit_at(x, at)),
            Ast::Fact(x) => Ast::Fact(Box::new(self.edit_at(x, at))),
            Ast::Bin(op, x, y) => {
                let x = self.edit_at(x, at);
                let y = self.edit_at(y, at);
                bin(*op, x, y)
            }
            Ast::Call(f, args) => {
                Ast::Call(*f, args.iter().map(|x| self.edit_at(x, at)).collect())
            }
        }
    }

    fn edit_node(&mut self, a: &Ast) -> Ast {
        match a {
            Ast::Num(_) | Ast::Lit(_) | Ast::Const(..) | Ast::Var(_) => self.atom(),
            Ast::Pos(x) | Ast::Neg(x) | Ast::Fact(x) => match self.s.below(6) {
                0 | 1 => (**x).clone(),
                2 if self.o.pos => Ast::Pos(x.clone()),
                3 | 4 if self.o.fact => Ast::Fact(x.clone()),
                _ if matches!(a, Ast::Neg(_)) => neg(a.clone()),
                _ => Ast::Neg(x.clone()),
            },
            Ast::Bin(op, x, y) => match self.s.below(5) {
                0 => bin(*op, (**y).clone(), (**x).clone()),
                4 if self.o.calls => {
                    let two: Vec<FnRef> =
                        self.fns.iter().copied().filter(|g| g.arity().is_none_or(|n| n == 2)).collect();
                    match two.is_empty() {
                        true => a.clone(),
                        false => Ast::Call(*self.s.pick(&two), vec![(**x).clone(), (**y).clone()]),
                    }
                }
                1 => (**x).clone(),
                _ => {
                    let o = *self
                        .s
                        .pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod, Op::Pow]);
                    bin(o, (**x).clone(), (**y).clone())
                }
            },
            Ast::Call(f, args) => {
                let same: Vec<FnRef> = self
                    .fns
                    .iter()
                    .copied()
                    .filter(|g| g.arity() == f.arity() || g.arity().is_none())
                    .collect();
                match self.s.below(4) {
                    0 if args.len() > 1 => {
                        let mut v = args.clone();
                        v.reverse();
                        Ast::Call(*f, v)
                    }
                    1 if f.arity().is_none() => {
                        let mut v = args.clone();
                        v.push(self.atom());
                        Ast::Call(*f, v)
                    }
                    _ => Ast::Call(*self.s.pick(&same), args.clone()),
                }
            }
        }
    }

    /// A copy with one subtree regrouped, distributed, rewritten… into what would be the same thing in
    /// algebra, but is not the same expression.
    pub fn rewrite(&mut self, a: &Ast) -> Ast {
        let n = a.size();
        let from = self.s.below(n);
        for start in [from, 0] {
            let mut at = start;
            let mut done = false;
            let r = self.rewrite_at(a, &mut at, &mut done);
            if done {
                return r;
            }
        }
        a.clone()
    }

    fn rewrite_at(&mut self, a: &Ast, at: &mut usize, done: &mut bool) -> Ast {
        if *done {
            return a.clone();
        }
        if *at == 0 {
            if let Some(r) = self.rewrite_node(a) {
                *done = true;
                return r;
            }
        } else {
            *at -= 1;
        }
        match a {
            Ast::Num(_) | Ast::Lit(_) | Ast::Const(..) | Ast::Var(_) => a.clone(),
            Ast::Pos(x) => Ast::Pos(Box::new(self.rewrite_at(x, at, done))),
            Ast::Neg(x) => neg(self.rewrite_at(x, at, done)),
            Ast::Fact(x) => Ast::Fact(Box::new(self.rewrite_at(x, at, done))),
            Ast::Bin(op, x, y) => {
                let x = self.rewrite_at(x, at, done);
                let y = self.rewrite_at(y, at, done);
                bin(*op, x, y)
            }
            Ast::Call(f, args) => {
                Ast::Call(*f, args.iter().map(|x| self.rewrite_at(x, at, done)).collect())
            }
        }
    }

    fn rewrite_node(&mut self, a: &Ast) -> Option<Ast> {
        let lit = |t: &str| Ast::Lit(t.to_owned());
        let own = |x: &Ast| x.clone();
        let mut all: Vec<Ast> = Vec::new();
        match a {
            Ast::Bin(op, x, y) => {
                if let Ast::Bin(o, p, q) = &**x {
                    if o == op {
                        all.push(bin(*op, own(p), bin(*op, own(q), own(y))));
                        all.push(bin(*op, bin(*op, own(p), own(y)), own(q)));
                    }
                    if matches!((op, o), (Op::Mul, Op::Add | Op::Sub)) {
                        all.push(bin(*o, bin(*op, own(p), own(y)), bin(*op, own(q), own(y))));
                    }
                    if let Ast::Bin(o2, r, t) = &**y {
                        if o == op && o2 == op {
                            all.push(bin(*op, bin(*op, own(p), own(r)), bin(*op, own(q), own(t))));
                            all.push(bin(*op, bin(*op, own(t), own(q)), bin(*op, own(r), own(p))));
                        } else if o == o2 {
                            all.push(bin(*op, bin(*o, own(p), own(t)), bin(*o, own(r), own(q))));
                        }
                    }
                }
                if let Ast::Bin(o, p, q) = &**y {
                    if o == op {
                        all.push(bin(*op, bin(*op, own(x), own(p)), own(q)));
                        all.push(bin(*op, own(q), bin(*op, own(p), own(x))));
                    }
                }
                match op {
                    Op::Sub => {
                        all.push(bin(Op::Add, own(x), neg(own(y))));
                        all.push(neg(bin(Op::Sub, own(y), own(x))));
                    }
                    Op::Div => {
                        all.push(bin(Op::Mul, own(x), bin(Op::Div, lit("1"), own(y))));
                        all.push(bin(Op::Mul, own(x), bin(Op::Pow, own(y), neg(lit("1")))));
                    }
                    Op::Mul => {
                        all.push(neg(bin(Op::Mul, neg(own(x)), own(y))));
                        all.push(bin(Op::Mul, neg(own(x)), neg(own(y))));
                    }
                    Op::Pow => all.push(bin(Op::Div, lit("1"), bin(Op::Pow, own(x), neg(own(y))))),
                    Op::Add => all.push(neg(bin(Op::Add, neg(own(x)), neg(own(y))))),
                    _ => (),
                }
                if x == y {
                    match op {
                        Op::Add => all.push(bin(Op::Mul, lit("2"), own(x))),
                        Op::Mul => all.push(bin(Op::Pow, own(x), lit("2"))),
                        _ => (),
                    }
                }
            }
            Ast::Neg(x) => match &**x {
                Ast::Bin(op @ (Op::Mul | Op::Div), p, q) => {
                    all.push(bin(*op, neg(own(p)), own(q)));
                    all.push(bin(*op, own(p), neg(own(q))));
                }
                Ast::Bin(Op::Sub, p, q) => all.push(bin(Op::Sub, own(q), own(p))),
                Ast::Neg(p) => all.push(own(p)),
                _ => {
                    all.push(bin(Op::Sub, lit("0"), own(x)));
                    all.push(bin(Op::Mul, neg(lit("1")), own(x)));
                }
            },
            Ast::Call(f, args) => {
                if f.arity().is_none() && args.len() > 2 {
                    let mut v = args.clone();
                    let rest = v.split_off(2);
                    let mut w = vec![Ast::Call(*f, v)];
                    w.extend(rest);
                    all.push(Ast::Call(*f, w));
                }
                if args.len() > 1 {
                    let (i, j) = (self.s.below(args.len()), self.s.below(args.len()));
                    let mut v = args.clone();
                    v.swap(i, j);
                    all.push(Ast::Call(*f, v));
                    let mut v = args.clone();
                    v.rotate_left(1);
                    all.push(Ast::Call(*f, v));
                }
                if args.len() > 1 && f.arity().is_none() {
                    let mut v = args.clone();
                    v.pop();
                    all.push(Ast::Call(*f, v));
                }
            }
            _ => (),
        }
        if all.is_empty() {
            return None;
        }
        let i = self.s.below(all.len());
        Some(all.swap_remove(i))
    }

    /// A complete expression: an ordinary tree, or one of the long, wide or deep shapes.
    pub fn top(&mut self) -> Ast {
        let a = self.shape();
        if !self.o.need_vars || a.has_vars() {
            return a;
        }
        // keep a few without
        if self.s.chance(1, 10) {
            return a;
        }
        let i = self.s.below(self.vars.len());
        let mut v = Ast::Var(self.vars[i].clone());
        if self.s.chance(1, 2) {
            v = self.pattern_around(v);
        }
        let op = *self.s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Pow, Op::Mod]);
        if self.s.chance(1, 2) {
            bin(op, a, v)
        } else {
            bin(op, v, a)
        }
    }

    fn pattern_around(&mut self, v: Ast) -> Ast {
        let i = self.s.below(self.vars.len());
        let w = Ast::Var(self.vars[i].clone());
        let k = self.literal();
        match self.s.below(6) {
            0 => neg(v),
            1 => bin(Op::Add, v, w),
            2 => bin(Op::Mul, k, v),
            3 => bin(Op::Sub, w, v),
            4 => bin(Op::Pow, v, k),
            _ => bin(Op::Sub, k, bin(Op::Mul, v, w)),
        }
    }

    /// Each of the variables at least once.
    fn every_variable(&mut self) -> Ast {
        let mut terms: Vec<Ast> = self.vars.iter().map(|v| Ast::Var(v.clone())).collect();
        shuffle(&mut terms, self.s);
        let way = self.s.below(3);
        let ops = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod, Op::Pow];
        let few = *self.s.pick(&[1, 3, 6]);
        let mut a: Option<Ast> = None;
        for t in terms {
            let t = if self.s.chance(1, 8) { self.pattern_around(t) } else { t };
            a = Some(match a {
                None => t,
                Some(a) => {
                    let op = *self.s.pick(&ops[..few]);
                    if way == 0 || (way == 1 && self.s.chance(1, 2)) {
                        bin(op, a, t)
                    } else {
                        bin(op, t, a)
                    }
                }
            });
        }
        a.unwrap()
    }

    fn shape(&mut self) -> Ast {
        if self.o.shapes && self.vars.len() > 8 && self.s.chance(1, 3) {
            return self.every_variable();
        }
        let depth = self.s.range(1, self.o.max_depth);
        if !self.o.shapes || !self.s.chance(1, 8) {
            let a = self.expr(depth);
            if a.size() > 1 || self.s.chance(1, 5) {
                return a;
            }
            let b = self.expr(depth);
            let op = *self.s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod, Op::Pow]);
            return bin(op, a, b);
        }
        let n = match self.s.below(4) {
            0 | 1 => self.s.range(8, 30),
            2 => self.s.range(20, 90),
            _ => self.s.size(60, 300, 600),
        };
        let small = |g: &mut Self| {
            if g.s.chance(1, 6) {
                g.fuel = g.fuel.max(4);
                g.expr(2)
            } else {
                g.atom()
            }
        };
        match self.s.below(7) {
            0 => {
                // flat chain, of all operators or of one or two
                let mut a = small(self);
                let few = self.s.chance(1, 2).then(|| {
                    let ops = [Op::Add, Op::Mul, Op::Sub, Op::Div, if self.o.jux { Op::Jux } else { Op::Mul }];
                    [*self.s.pick(&ops), *self.s.pick(&ops[..3])]
                });
                for _ in 0..n {
                    if let Some(few) = few {
                        let b = small(self);
                        let op = few[usize::from(self.s.chance(1, 16))];
                        a = bin(op, a, b);
                        continue;
                    }
                    let op = *self.s.pick(&[
                        Op::Add,
                        Op::Sub,
                        Op::Mul,
                        Op::Div,
                        Op::Mod,
                        Op::Pow,
                        if self.o.jux { Op::Jux } else { Op::Mul },
                    ]);
                    let b = small(self);
                    a = bin(op, a, b);
                }
                a
            }
            1 => {
                // right-leaning
                let mut a = small(self);
                for _ in 0..n {
                    let op = *self.s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Pow]);
                    let b = small(self);
                    a = bin(op, b, a);
                }
                a
            }
            2 => {
                let mut a = small(self);
                for _ in 0..n {
                    a = if self.o.pos && self.s.chance(1, 4) {
                        Ast::Pos(Box::new(a))
                    } else {
                        neg(a)
                    };
                }
                a
            }
            3 if self.o.calls => {
                let variadic: Vec<FnRef> =
                    self.fns.iter().copied().filter(|f| f.arity().is_none()).collect();
                if variadic.is_empty() {
                    return self.atom();
                }
                let f = *self.s.pick(&variadic);
                let mut args = Vec::new();
                for _ in 0..n {
                    let a = small(self);
                    args.push(a);
                }
                Ast::Call(f, args)
            }
            4 if self.o.calls => {
                let mut a = small(self);
                for _ in 0..n {
                    let i = self.s.below(self.fns.len());
                    let f = self.fns[i];
                    let k = f.arity().unwrap_or(1);
                    if k == 0 {
                        continue;
                    }
                    let pos = self.s.below(k);
                    let args = (0..k).map(|j| if j == pos { a.clone() } else { self.atom() });
                    a = Ast::Call(f, args.collect());
                }
                a
            }
            5 => {
                // balanced tree without generator limits
                self.fuel = 300;
                let d = self.s.range(5, 9);
                self.expr(d)
            }
            _ => {
                // sum of products: many variables
                let mut a: Option<Ast> = None;
                for _ in 0..n {
                    let x = self.atom();
                    let y = self.atom();
                    let t = bin(Op::Mul, x, y);
                    a = Some(match a {
                        None => t,
                        Some(a) => {
                            bin(if self.s.chance(1, 3) { Op::Sub } else { Op::Add }, a, t)
                        }
                    });
                }
                a.unwrap()
            }
        }
    }
}

/// Randomly swaps operands of additions and multiplications.
pub fn commute(a: &Ast, s: &mut Src) -> Ast {
    match a {
        Ast::Num(_) | Ast::Lit(_) | Ast::Const(..) | Ast::Var(_) => a.clone(),
        Ast::Pos(x) => Ast::Pos(Box::new(commute(x, s))),
        Ast::Neg(x) => neg(commute(x, s)),
        Ast::Fact(x) => Ast::Fact(Box::new(commute(x, s))),
        Ast::Call(f, args) => Ast::Call(*f, args.iter().map(|x| commute(x, s)).collect()),
        Ast::Bin(op, x, y) => {
            let x = commute(x, s);
            let y = commute(y, s);
            if matches!(op, Op::Add | Op::Mul | Op::Jux) && s.chance(1, 2) {
                bin(*op, y, x)
            } else {
                bin(*op, x, y)
            }
        }
    }
}

/// Decimal digits with underscores, point and exponent.
pub fn gen_literal(s: &mut Src, max: usize) -> String {
    let mut t = String::new();
    let digits = |s: &mut Src, t: &mut String, n: usize| {
        for _ in 0..n {
            t.push(char::from(b'0' + s.below(10) as u8));
            if s.chance(1, 12) {
                t.push('_');
            }
        }
    };
    if s.chance(1, 16) {
        if let Some(v) = s.dict_num().filter(|v| v.is_finite()) {
            let v = v.abs();
            return match s.below(4) {
                0 => format!("{v:e}"),
                1 => format!("{v:E}"),
                2 if v.fract() == 0.0 => format!("{v}."),
                _ => format!("{v}"),
            };
        }
    }
    let style = s.below(6);
    if s.chance(1, 24) {
        // many leading zeros, or many zeros before the point, perhaps made up for by the exponent
        let n = if s.chance(1, 3) { s.range(0, 40) } else { s.size(1, 340, 700) };
        let up = s.chance(1, 2);
        t = match up {
            true => "1".to_owned() + &"0".repeat(n) + *s.pick(&["", ".", ".0"]),
            false => s.pick(&["0.", ".", "00."]).to_string() + &"0".repeat(n),
        };
        if !up {
            let k = s.range(1, 4);
            digits(s, &mut t, k);
        }
        if s.chance(1, 2) {
            let e = n.saturating_sub(s.below(30));
            t.push_str(&format!("{}{e}", if up { "e-" } else { *s.pick(&["e", "E+"]) }));
        }
        return t;
    }
    let max = max.max(1);
    let a = s.size(1, max, 4 * max);
    match style {
        0 | 1 => digits(s, &mut t, a),
        2 => {
            digits(s, &mut t, a);
            t.push('.');
        }
        3 => {
            t.push('.');
            digits(s, &mut t, a);
        }
        _ => {
            digits(s, &mut t, a);
            t.push('.');
            let b = s.size(1, max, 4 * max);
            digits(s, &mut t, b);
        }
    }
    if s.chance(1, 3) {
        t.push(if s.chance(1, 2) { 'E' } else { 'e' });
        match s.below(3) {
            0 => (),
            1 => t.push('-'),
            _ => t.push('+'),
        }
        let e = match s.below(4) {
            0 | 1 => s.below(20),
            2 => s.below(330),
            _ => s.size(0, 419, 2000),
        };
        t.push_str(&e.to_string());
    }
    t
}

// ------------------------------------------------------------------------------------ values

const SPECIAL: &[f64] = &[
    0.0, 1.0, -1.0, 2.0, 0.5, -0.0, 3.0, -2.0, 10.0, -0.5, 1e-3, 100.0, 1e10, -1e10, 170.0, 171.0,
    1e300, -1e300, 1e-300, 4503599627370496.5, 9007199254740993.0, 1.5, -1.5, 2.5,
];

/// A finite double.
pub fn gen_finite(s: &mut Src) -> f64 {
    if s.chance(1, 16) {
        if let Some(v) = s.dict_num().filter(|v| v.is_finite()) {
            return v;
        }
    }
    match s.below(8) {
        0 | 1 => s.range(0, 9) as f64,
        2 => -(s.range(0, 9) as f64),
        3 => *s.pick(SPECIAL),
        4 | 5 => (s.below(2000) as f64 - 1000.0) / 64.0,
        6 => {
            let m = s.below(60000) as f64 / 6000.0 - 5.0;
            let e = s.below(40) as i32 - 20;
            m * 10f64.powi(e)
        }
        _ => {
            let b = f64::from_bits(s.u64());
            if b.is_finite() {
                b
            } else {
                f64::from_bits(b.to_bits() & !(1 << 62))
            }
        }
    }
}

/// Any double.
pub fn gen_value(s: &mut Src) -> f64 {
    if s.chance(1, 8) {
        *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 5e-324, -5e-324])
    } else {
        gen_finite(s)
    }
}

pub fn gen_env<'n>(
    s: &mut Src,
    names: impl IntoIterator<Item = &'n String>,
    finite: bool,
) -> Env {
    names
        .into_iter()
        .map(|n| (n.clone(), if finite { gen_finite(s) } else { gen_value(s) }))
        .collect()
}

// ------------------------------------------------------------------------------------ rendering

/// Layout of a token list.
pub const WS: &[&str] = &[" ", "", "  ", "\t", "\n", "\r\n", "\x0c", " \t ", "\r"];

struct Rend<'a, 'b> {
    s: &'a mut Src<'b>,
    order: Order,
    out: Vec<String>,
    /// chance (of 32) of redundant parentheses around a node
    parens: usize,
}

pub fn level(a: &Ast, order: Order) -> u8 {
    match a {
        Ast::Bin(Op::Add | Op::Sub, ..) => 1,
        Ast::Bin(Op::Mul | Op::Div | Op::Mod, ..) => 2,
        Ast::Bin(Op::Jux, ..) => match order {
            Order::Pemdas => 2,
            Order::Pejmdas => 3,
        },
        Ast::Neg(_) | Ast::Pos(_) => 4,
        Ast::Bin(Op::Pow, ..) => 5,
        _ => 6,
    }
}

fn ends_in_unary(a: &Ast) -> bool {
    match a {
        Ast::Bin(Op::Pow, _, r) => matches!(**r, Ast::Neg(_) | Ast::Pos(_)),
        _ => false,
    }
}

fn is_number_tok(t: &str) -> bool {
    t.starts_with(|c: char| c.is_ascii_digit() || c == '.')
}

impl Rend<'_, '_> {
    fn tok(&mut self, t: impl Into<String>) {
        self.out.push(t.into());
    }
    fn wrapped(&mut self, a: &Ast) {
        self.tok("(");
        if self.parens >= 32 {
            self.emit_bare(a);
        } else {
            self.emit(a, 1);
        }
        self.tok(")");
    }
    fn emit(&mut self, a: &Ast, min: u8) {
        if self.parens >= 32 {
            self.wrapped(a);
            return;
        }
        if level(a, self.order) < min || (self.parens > 0 && self.s.chance(self.parens, 32)) {
            self.wrapped(a);
            return;
        }
        self.emit_bare(a);
    }
    fn emit_bare(&mut self, a: &Ast) {
        let pem = self.order == Order::Pemdas;
        match a {
            Ast::Num(v) => self.tok(format!("{v}")),
            Ast::Lit(t) => self.tok(t.clone()),
            Ast::Const(n, _) | Ast::Var(n) => self.tok(n.clone()),
            Ast::Pos(x) | Ast::Neg(x) => {
                self.tok(if matches!(a, Ast::Pos(_)) { "+" } else { "-" });
                self.emit(x, 4);
            }
            Ast::Fact(x) => {
                self.emit(x, 6);
                self.tok("!");
            }
            Ast::Call(f, args) => {
                self.tok(f.name());
                self.tok("(");
                for (i, x) in args.iter().enumerate() {
                    if i > 0 {
                        self.tok(",");
                    }
                    self.emit(x, 1);
                }
                self.tok(")");
            }
            Ast::Bin(op, l, r) => match op {
                Op::Add | Op::Sub => {
                    self.emit(l, 1);
                    self.tok(op.ch());
                    self.emit(r, 2);
                }
                Op::Mul | Op::Div | Op::Mod => {
                    self.emit(l, 2);
                    self.tok(op.ch());
                    self.emit(r, if pem { 4 } else { 3 });
                }
                Op::Pow => {
                    if ends_in_unary(l) {
                        self.wrapped(l);
                    } else {
                        self.emit(l, 5);
                    }
                    self.tok("^");
                    if matches!(**r, Ast::Neg(_) | Ast::Pos(_)) {
                        self.emit(r, 4);
                    } else {
                        self.emit(r, 6);
                    }
                }
                Op::Jux => {
                    self.emit(l, if pem { 2 } else { 3 });
                    let after_number = is_number_tok(self.out.last().unwrap());
                    let mark = self.out.len();
                    self.emit(r, 4);
                    let first = &self.out[mark];
                    let ok = if is_number_tok(first) {
                        !first.starts_with('.') && !after_number
                    } else {
                        first == "(" || first.starts_with(|c: char| c.is_ascii_alphabetic())
                    };
                    if !ok {
                        self.out.insert(mark, "(".into());
                        self.out.push(")".into());
                    }
                }
            },
        }
    }
}

/// Token texts of an expression, with random redundant parentheses (`parens` in 32nds;
/// 32: exactly one pair around every operand).
pub fn render_tokens(a: &Ast, order: Order, s: &mut Src, parens: usize) -> Vec<String> {
    let mut r = Rend { s, order, out: Vec::new(), parens };
    r.emit(a, 1);
    r.out
}

/// Joins tokens with random whitespace so that they stay separate tokens.
pub fn layout(tokens: &[String], s: &mut Src) -> String {
    let mode = s.below(4);
    let mut t = String::new();
    let long = match s.chance(1, 16) {
        true => (s.below(tokens.len() + 1), s.dict_size(3, 1 << 16).unwrap_or(0), *s.pick(&[" ", "\n", "\t"])),
        false => (0, 0, ""),
    };
    for (i, tok) in tokens.iter().enumerate() {
        if i == long.0 {
            t.push_str(&long.2.repeat(long.1));
        }
        let w = match mode {
            0 => " ",
            1 => "",
            2 => *s.pick(&WS[..2]),
            _ => *s.pick(WS),
        };
        if i > 0 || mode == 3 {
            t.push_str(w);
        }
        t.push_str(tok);
    }
    if mode == 3 {
        t.push_str(*s.pick(WS));
    }
    if same_tokens(&t, tokens) {
        return t;
    }
    // insert blanks only where neighbours would run together
    let mut t = String::new();
    for tok in tokens {
        let mut u = t.clone();
        u.push_str(tok);
        let n = tokenize(&t).len();
        let toks = tokenize(&u);
        let joined = toks.len() != n + 1 || &u[toks[n].start..] != tok.as_str();
        if joined {
            t.push(' ');
        }
        t.push_str(tok);
        if t.len() > 400 {
            return tokens.join(" ");
        }
    }
    if same_tokens(&t, tokens) {
        t
    } else {
        tokens.join(" ")
    }
}

pub fn same_tokens(text: &str, tokens: &[String]) -> bool {
    let t = tokenize(text);
    t.len() == tokens.len() && t.iter().zip(tokens).all(|(a, b)| &text[a.start..a.end] == b.as_str())
}

pub fn render(a: &Ast, order: Order, s: &mut Src) -> String {
    let p = if s.chance(1, 4) { 4 } else { 1 };
    let mut toks = render_tokens(a, order, s, p);
    if s.chance(1, 24) {
        nest_tokens(&mut toks, s);
    }
    layout(&toks, s)
}

/// Many redundant parentheses around the whole or around one number or name.
pub fn nest_tokens(toks: &mut Vec<String>, s: &mut Src) {
    let n = s.size(1, 40, 300);
    let (mut from, mut to) = (0, toks.len());
    if s.chance(2, 3) {
        let alone = |i: usize| {
            toks[i].starts_with(|c: char| c.is_ascii_alphanumeric() || c == '.')
                && toks.get(i + 1).map_or(true, |t| t != "(" || is_number_tok(&toks[i]))
        };
        let at: Vec<usize> = (0..toks.len()).filter(|i| alone(*i)).collect();
        if !at.is_empty() {
            from = *s.pick(&at);
            to = from + 1;
        }
    }
    toks.splice(to..to, std::iter::repeat(")".to_owned()).take(n));
    toks.splice(from..from, std::iter::repeat("(".to_owned()).take(n));
}

// ------------------------------------------------------------------------------------ soups and mutations

const SOUP: &[&str] = &[
    "2", "x", "+", "-", "*", "(", ")", "!", "^", "/", "%", "3.5", "sin", ",", "max", "(", ")", "y",
    "pi", "e", "1e3", ".5", "sum", "atan2", "X", "dbl", "four", "sub", "k", "2e", "..", "1.2.3",
    "_", "'", "é", "$", "∑", "=", "\u{a0}", "x'", ";", "[", "\0", "😀", "10", "0", "1", "5e", "cnt",
    ".", "1.5.", "\u{301}", "ß", "one", "\\", "\"", "#", "`",
];

/// Characters and signs that look like something, or mean something elsewhere.
const STRANGE: &[&str] = &[
    "\u{feff}", "\u{200b}", "\u{b}", "\u{1c}", "\u{1f}", "\u{85}", "\u{3000}", "\u{2028}", "\u{2009}", "\u{2212}",
    "\u{d7}", "\u{f7}", "\u{b7}", "\u{22c5}", "\u{2217}", "\u{3c0}", "\u{b2}", "\u{b3}", "\u{bd}", "\u{661}",
    "\u{ff17}", "\u{ff08}", "\u{ff09}", "\u{ff0c}", "\u{ff05}", "\u{2032}", "\u{2019}", "\u{221e}", "\u{221a}",
    "\u{212f}", "\u{212a}", "\u{391}", "\u{430}", "\u{ff58}", "\u{17f}", "\u{7f}", "\u{1}", "\u{8}", "\u{1b}",
    "\u{ad}", "\u{202e}", "\u{a0}", "**", "//", "<<", ">>", "==", "!=", "=", "&", "|", "||", "~", "@", "?", ":", ";",
    "{", "}", "[", "]", "<", ">", "^^", "++", "--", "!!", "+-", "-+", "*-", "^-", "^+", "/-", "0x1F", "0b1", "0o7", "1f",
    "1d", "1L", "1i", "5%", "%)", "50%", "inf", "nan", "-inf", "//x", "/*", "*/", "#x", "\\", "$x", "@x", "\"x\"", "'x'",
    ".", "..", ",", ",,", "()", "( )", "_1", "1_", "x_", "1'", "'", "_", "e", "E", "2e", "2e+", "1e1_0", "1e1.5", ".e1",
    "1.e1", "|x|", "x:=2", "x=2", "log_2", "f(x)=2", "2^", "!2", "!x", "+", "-", "sin x", "sin", "max", "atan2(1)",
    "\r", "\u{c}", "\0",
];

pub fn soup_token(s: &mut Src) -> String {
    if s.chance(1, 6) {
        return (*s.pick(STRANGE)).to_owned();
    }
    let k = match s.below(4) {
        0 | 1 => 16,
        2 => 30,
        _ => SOUP.len(),
    };
    (*s.pick(&SOUP[..k])).to_owned()
}

pub fn gen_soup(s: &mut Src) -> String {
    let n = match s.below(4) {
        0 | 1 => s.range(0, 6),
        2 => s.range(3, 14),
        _ => s.size(8, 40, 300),
    };
    let ws = s.below(3);
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(&soup_token(s));
        match ws {
            0 => t.push(' '),
            1 => (),
            _ => t.push_str(*s.pick(WS)),
        }
    }
    t
}

/// Edits tokens: deletes, inserts, duplicates, swaps, replaces.
pub fn mutate_tokens(toks: &mut Vec<String>, s: &mut Src) {
    let n = s.range(1, 3);
    for _ in 0..n {
        let len = toks.len();
        match s.below(5) {
            0 if len > 0 => {
                let i = s.below(len);
                toks.remove(i);
            }
            1 => {
                let i = match s.below(4) {
                    0 => 0,
                    1 => len,
                    _ => s.below(len + 1),
                };
                let t = soup_token(s);
                toks.insert(i, t);
            }
            2 if len > 0 => {
                let i = s.below(len);
                let t = toks[i].clone();
                toks.insert(i, t);
            }
            3 if len > 1 => {
                let i = s.below(len - 1);
                toks.swap(i, i + 1);
            }
            _ if len > 0 => {
                let i = s.below(len);
                toks[i] = soup_token(s);
            }
            _ => (),
        }
    }
}

/// Edits characters of a text: truncates, deletes, inserts.
pub fn mutate_chars(text: &str, s: &mut Src) -> String {
    let mut c: Vec<char> = text.chars().collect();
    match s.below(3) {
        0 => {
            let k = s.below(c.len() + 1);
            c.truncate(k);
        }
        1 if !c.is_empty() => {
            let i = s.below(c.len());
            c.remove(i);
        }
        _ => {
            let i = match s.below(4) {
                0 => 0,
                1 => c.len(),
                _ => s.below(c.len() + 1),
            };
            let ch = soup_token(s).chars().next().unwrap_or(' ');
            c.insert(i, ch);
        }
    }
    c.into_iter().collect()
}

/// Arbitrary text: ASCII noise, printable noise, any Unicode.
pub fn gen_noise(s: &mut Src) -> String {
    let n = match s.below(3) {
        0 => s.range(0, 8),
        1 => s.range(0, 30),
        _ => s.size(0, 120, 1000),
    };
    let k = s.below(3);
    (0..n)
        .map(|_| match k {
            0 => char::from(32 + s.below(95) as u8),
            1 => char::from(s.below(128) as u8),
            _ => {
                let hi = match s.below(4) {
                    0 => 0x80,
                    1 => 0x800,
                    2 => 0x10000,
                    _ => 0x110000,
                };
                let v = (s.u64() % hi) as u32;
                char::from_u32(v).unwrap_or('\u{fffd}')
            }
        })
        .collect()
}

// ------------------------------------------------------------------------------------ misc

/// A permutation-ish shuffle decoded from choices.
pub fn shuffle<T>(v: &mut [T], s: &mut Src) {
    for i in (1..v.len()).rev() {
        let j = s.below(i + 1);
        // zero choices keep the order
        v.swap(i, i - j);
    }
}

pub fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100000001b3))
}

/// Quoting for messages: keeps one line, escapes control characters.
pub fn quote(s: &str) -> String {
    if s.len() > 600 {
        let mut k = 500;
        while !s.is_char_boundary(k) {
            k += 1;
        }
        format!("{:?}... ({} bytes)", &s[..k], s.len())
    } else {
        format!("{s:?}")
    }
}

pub fn show_env(e: &Env) -> String {
    let v: Vec<String> = e.iter().take(24).map(|(k, v)| format!("{k}={v:?}")).collect();
    format!("{{{}{}}}", v.join(", "), if e.len() > 24 { ", ..." } else { "" })
}
