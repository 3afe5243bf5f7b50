//! Thin layer over the public API of xprs. A panic inside the crate becomes an `Err`.
use miette::Diagnostic as _;
use std::collections::{BTreeSet, HashMap};
use xprs::{Context, Function, ParseError, Parser, Xprs};
use xvcore::*;

pub const ORDER: Order = if cfg!(feature = "pejmdas") { Order::Pejmdas } else { Order::Pemdas };
pub const OPT: bool = cfg!(feature = "opt");

pub type R<T> = Result<T, String>;

/// Functions with an even index are static, the others dynamic.
pub fn user_fn(i: usize) -> Function {
    let u = &USER_FNS[i];
    let imp = u.imp;
    if i % 2 == 0 {
        Function::new_static(u.name, imp, u.arity)
    } else {
        Function::new_dyn(u.name, imp, u.arity)
    }
}

pub fn context(g: &GenCtx) -> Context<'static> {
    let mut c = Context::default();
    for (i, d) in g.defs.iter().enumerate() {
        // both forms of each setter are used
        match d {
            Def::Const(n, v) if i % 2 == 0 => c.set_var(n, *v),
            Def::Const(n, v) => c = c.with_var(n, *v),
            Def::Fn(f) if i % 2 == 0 => c.set_fn(user_fn(*f)),
            Def::Fn(f) => c = c.with_fn(user_fn(*f)),
        }
    }
    c
}

pub fn parser(g: &GenCtx) -> Parser<'static> {
    Parser::new_with_ctx(context(g))
}

pub fn parse<'t>(p: &Parser, text: &'t str) -> R<Result<Xprs<'t>, ParseError>> {
    sut("parse", || p.parse(text))
}

pub fn must_parse<'t>(p: &Parser, text: &'t str) -> R<Xprs<'t>> {
    match parse(p, text)? {
        Ok(x) => Ok(x),
        Err(e) => Err(format!("{} was rejected ({})", quote(text), err_msg(&e)?)),
    }
}

pub fn err_msg(e: &ParseError) -> R<String> {
    sut("ParseError Display", || e.to_string())
}

pub struct ErrInfo {
    pub msg: String,
    pub help: Option<String>,
    /// (offset, length)
    pub labels: Vec<(usize, usize)>,
    pub source: Option<String>,
}

pub fn err_info(e: &ParseError, text_len: usize) -> R<ErrInfo> {
    sut("ParseError diagnostic", || ErrInfo {
        msg: e.to_string(),
        help: e.help().map(|h| h.to_string()),
        labels: e
            .labels()
            .map(|l| l.map(|s| (s.offset(), s.len())).collect())
            .unwrap_or_default(),
        source: e.source_code().and_then(|s| {
            s.read_span(&(0, text_len).into(), usize::MAX / 4, usize::MAX / 4)
                .ok()
                .and_then(|c| String::from_utf8(c.data().to_vec()).ok())
        }),
    })
}

pub fn render_report(e: ParseError) -> R<String> {
    sut("rendering the diagnostic", move || format!("{:?}", miette::Report::new(e)))
}

pub fn hash_env(env: &Env) -> HashMap<&str, f64> {
    env.iter().map(|(k, v)| (k.as_str(), *v)).collect()
}

pub fn eval(x: &Xprs, env: &Env) -> R<Result<f64, String>> {
    let m = hash_env(env);
    sut("eval", || x.eval(&m).map_err(|e| e.to_string()))
}

pub fn must_eval(x: &Xprs, env: &Env) -> R<f64> {
    eval(x, env)?.map_err(|e| format!("evaluation with all variables given failed: {e}"))
}

pub fn eval_unchecked(x: &Xprs, env: &Env) -> R<f64> {
    let m = hash_env(env);
    sut("eval_unchecked", || x.eval_unchecked(&m))
}

pub fn display(x: &Xprs) -> R<String> {
    sut("Display", || x.to_string())
}

pub fn vars(x: &Xprs) -> BTreeSet<String> {
    x.vars.iter().map(|v| (*v).to_owned()).collect()
}

/// The name inside "... 'name' was not provided".
pub fn missing_name(msg: &str) -> Option<&str> {
    let a = msg.find('\'')? + 1;
    let b = msg.rfind('\'')?;
    if b >= a {
        Some(&msg[a..b])
    } else {
        None
    }
}

/// A generated context, expression and text.
pub struct World {
    pub g: GenCtx,
    pub rc: RefCtx,
    pub gen: Ast,
    pub ast: Ast,
    pub text: String,
}

impl World {
    pub fn parser(&self) -> Parser<'static> {
        parser(&self.g)
    }
}

pub const CTX_FINITE: CtxOpts = CtxOpts { nonfinite: false, shadow: true };
pub const CTX_ANY: CtxOpts = CtxOpts { nonfinite: true, shadow: true };

pub fn world(s: &mut Src, case: &mut Case, co: CtxOpts, go: GenOpts, max_vars: usize) -> World {
    // what is done with the expression needs choices too
    s.hold(2, 5);
    let g = gen_ctx(s, co);
    let rc = g.refctx();
    let names = gen_vars(s, &rc, max_vars);
    s.hold(1, 4);
    let gen = Gen::new(s, go, &rc, names).top();
    s.release();
    s.hold(2, 5);
    let text = render(&gen, ORDER, s);
    s.release();
    let ast = gen.norm();
    if !g.defs.is_empty() {
        case.note(format!("context {}", g.show()));
        case.class("with context");
    }
    case.note(format!("text {}", quote(&text)));
    classify(&gen, case);
    World { g, rc, gen, ast, text }
}

pub fn classify(a: &Ast, case: &mut Case) {
    let size = a.size();
    case.class(match size {
        1 => "1 node",
        2..=7 => "2-7 nodes",
        8..=30 => "8-30 nodes",
        31..=100 => "31-100 nodes",
        _ => ">100 nodes",
    });
    if a.depth() > 20 {
        case.class("depth > 20");
    }
    let has = |f: &dyn Fn(&Ast) -> bool| a.any(f);
    if has(&|n| matches!(n, Ast::Call(..))) {
        case.class("call");
    }
    if has(&|n| matches!(n, Ast::Call(FnRef::U(_), _))) {
        case.class("user function");
    }
    if has(&|n| matches!(n, Ast::Bin(Op::Jux, ..))) {
        case.class("implicit product");
    }
    if has(&|n| matches!(n, Ast::Fact(_))) {
        case.class("factorial");
    }
    if has(&|n| matches!(n, Ast::Neg(_))) {
        case.class("negation");
    }
    if has(&|n| matches!(n, Ast::Bin(Op::Pow, l, _) if matches!(**l, Ast::Bin(Op::Pow, ..)))) {
        case.class("power chain");
    }
    if !a.has_vars() {
        case.class("no variables");
    }
}

/// Compares an evaluated expression with the reference value of `ast` as written.
/// Without optimisation, and without variables, every point counts; with optimisation only points
/// where all operands are finite, no result is NaN and no zero sign matters.
/// Returns whether the point counted.
pub fn check_value(
    case: &mut Case,
    what: &str,
    x: &Xprs,
    ast: &Ast,
    env: &Env,
    exact: bool,
) -> R<bool> {
    let mut reg = Reg::default();
    let want = ast.eval_reg(env, &mut reg).expect("reference evaluation has all variables");
    let counts = if exact { !reg.ambiguous } else { reg.regular() };
    let got = must_eval(x, env)?;
    case.eval();
    if !counts {
        return Ok(false);
    }
    if reg.regular() {
        case.class("regular point");
    } else {
        case.class("irregular point");
    }
    if !same(got, want) {
        return Err(format!(
            "{what}: got {got:?}, expected {want:?} at {} for {}",
            show_env(env),
            quote(&ast.show())
        ));
    }
    Ok(true)
}

/// Integers appearing in a message, in order.
pub fn integers(msg: &str) -> Vec<usize> {
    msg.split(|c: char| !c.is_ascii_digit()).filter_map(|t| t.parse().ok()).collect()
}

pub fn full_env(s: &mut Src, names: &BTreeSet<String>, finite: bool) -> Env {
    gen_env(s, names, finite)
}

pub fn subset(s: &mut Src, names: &BTreeSet<String>) -> Vec<String> {
    names.iter().filter(|_| s.chance(1, 2)).cloned().collect()
}
