//! P23: when and how often user functions are called.
use crate::sut::*;
use std::cell::RefCell;
use xprs::{Context, Function, Parser};
use xvcore::*;

type CallLog = Vec<(usize, Vec<f64>)>;

thread_local! {
    static LOG: RefCell<CallLog> = const { RefCell::new(Vec::new()) };
}

fn called(i: usize, a: &[f64]) -> f64 {
    LOG.with(|l| l.borrow_mut().push((i, a.to_vec())));
    (USER_FNS[i].imp)(a)
}

fn st<const I: usize>(a: &[f64]) -> f64 {
    called(I, a)
}

macro_rules! statics {
    ($($i:literal)*) => { [$(st::<$i>),*] };
}

const STATIC: [fn(&[f64]) -> f64; 48] = statics!(
    0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47
);

fn logging_fn(i: usize, dynamic: bool) -> Function {
    let u = &USER_FNS[i];
    if dynamic {
        Function::new_dyn(u.name, move |a: &[f64]| called(i, a), u.arity)
    } else {
        Function::new_static(u.name, STATIC[i], u.arity)
    }
}

/// What `f` returns and the calls it makes.
fn logged<T>(f: impl FnOnce() -> T) -> (T, CallLog) {
    LOG.with(|l| l.borrow_mut().clear());
    let r = f();
    (r, LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))
}

fn quiet<T>(what: &str, f: impl FnOnce() -> R<T>) -> R<T> {
    let (r, l) = logged(f);
    let r = r?;
    if l.is_empty() {
        Ok(r)
    } else {
        Err(format!("{what} called {}", show(&l)))
    }
}

fn show(l: &CallLog) -> String {
    let v: Vec<String> =
        l.iter().take(12).map(|(i, a)| format!("{}{a:?}", USER_FNS[*i].name)).collect();
    format!("{} functions [{}]", l.len(), v.join(", "))
}

/// The calls an evaluation of `a` as written makes; those whose arguments need a variable that
/// `env` does not have are left out.
fn calls_of(a: &Ast, env: &Env, reg: &mut Reg, out: &mut CallLog) -> Option<f64> {
    let mut kids = Vec::new();
    let mut all = true;
    for c in a.children() {
        match calls_of(c, env, reg, out) {
            Some(v) => kids.push(Ast::Num(v)),
            None => all = false,
        }
    }
    if !all {
        return None;
    }
    if let Ast::Call(FnRef::U(i), _) = a {
        let vals = kids.iter().map(|k| if let Ast::Num(v) = k { *v } else { unreachable!() });
        out.push((*i, vals.collect()));
    }
    let mut it = kids.into_iter();
    let mut next = || Box::new(it.next().unwrap());
    let shallow = match a {
        Ast::Pos(_) => Ast::Pos(next()),
        Ast::Neg(_) => Ast::Neg(next()),
        Ast::Fact(_) => Ast::Fact(next()),
        Ast::Bin(op, ..) => {
            let l = next();
            Ast::Bin(*op, l, next())
        }
        Ast::Call(f, v) => Ast::Call(*f, v.iter().map(|_| *next()).collect()),
        leaf => leaf.clone(),
    };
    shallow.eval_reg(env, reg)
}

/// Sorted; without the arguments where their values are not comparable.
fn bag(l: &CallLog, values: bool) -> Vec<(usize, usize, Vec<u64>)> {
    let mut v: Vec<_> = l
        .iter()
        .map(|(i, a)| {
            let bits = |x: &f64| {
                if x.is_nan() {
                    f64::NAN.to_bits()
                } else {
                    (x + 0.0).to_bits()
                }
            };
            (*i, a.len(), if values { a.iter().map(bits).collect() } else { vec![] })
        })
        .collect();
    v.sort();
    v
}

fn within<T: Ord>(small: &[T], big: &[T]) -> bool {
    let mut j = 0;
    for x in small {
        while j < big.len() && big[j] < *x {
            j += 1;
        }
        if j == big.len() || big[j] != *x {
            return false;
        }
        j += 1;
    }
    true
}

/// Calls written in `a`, by function and number of arguments.
fn written(a: &Ast) -> Vec<(usize, usize, Vec<u64>)> {
    fn walk(a: &Ast, out: &mut Vec<(usize, usize, Vec<u64>)>) {
        if let Ast::Call(FnRef::U(i), v) = a {
            out.push((*i, v.len(), vec![]));
        }
        for c in a.children() {
            walk(c, out);
        }
    }
    let mut v = Vec::new();
    walk(a, &mut v);
    v.sort();
    v
}

fn merged(a: &CallLog, b: Vec<(usize, usize, Vec<u64>)>) -> Vec<(usize, usize, Vec<u64>)> {
    let mut v = bag(a, false);
    v.extend(b);
    v.sort();
    v
}

fn displayed(x: &xprs::Xprs, rc: &RefCtx) -> R<Option<Ast>> {
    let d = quiet("Display", || display(x))?;
    if tokenize(&d).iter().any(|t| matches!(&t.tok, Tok::Ident(n) if n == "inf" || n == "NaN")) {
        return Ok(None);
    }
    Ok(ref_parse(&d, rc, ORDER).ok().map(|r| r.ast))
}

fn check_eval(
    case: &mut Case,
    s: &mut Src,
    x: &xprs::Xprs,
    tree: &Ast,
    env: &Env,
) -> R<usize> {
    let mut reg = Reg::default();
    let mut want = CallLog::new();
    calls_of(tree, env, &mut reg, &mut want);
    let values = if OPT { reg.regular() } else { !reg.ambiguous };
    let mut ways: Vec<(&str, CallLog)> = Vec::new();
    let (r, l) = logged(|| must_eval(x, env));
    r?;
    ways.push(("eval", l));
    let set = vars(x);
    match s.below(4) {
        0 => {
            let (r, l) = logged(|| eval_unchecked(x, env));
            r?;
            ways.push(("eval_unchecked", l));
        }
        1 if set.is_empty() => {
            let (r, l) = logged(|| sut("eval_no_vars", || x.eval_no_vars().is_ok()));
            if r? {
                ways.push(("eval_no_vars", l));
            }
        }
        2 if set.len() == 1 => {
            let n = set.iter().next().unwrap();
            let f = quiet("bind", || sut("bind", || x.clone().bind(n).ok()))?;
            if let Some(f) = f {
                let v = env[n];
                let (r, l) = logged(|| sut("bound function", || f(v)));
                r?;
                ways.push(("a bound function", l));
            }
        }
        3 => {
            let (r, l) = logged(|| must_eval(x, env));
            r?;
            ways.push(("a second eval", l));
        }
        _ => (),
    }
    for (how, l) in ways {
        case.eval();
        if bag(&l, values) != bag(&want, values) {
            return Err(format!(
                "{how} called {} where {} are written, at {}",
                show(&l),
                show(&want),
                show_env(env)
            ));
        }
    }
    // an evaluation that fails calls at most what it can
    if let Some(gone) = set.iter().next_back() {
        let mut less = env.clone();
        less.remove(gone);
        let mut can = CallLog::new();
        calls_of(tree, &less, &mut Reg::default(), &mut can);
        let (r, l) = logged(|| eval(x, &less));
        if r?.is_err() {
            case.eval();
            if !within(&bag(&l, values), &bag(&can, values)) {
                return Err(format!(
                    "evaluation without {gone:?} called {}, possible are {}",
                    show(&l),
                    show(&can)
                ));
            }
        }
    }
    Ok(want.len())
}

pub fn p23(s: &mut Src, case: &mut Case) -> R<()> {
    s.hold(2, 5);
    // some user functions, then anything
    let mut g = GenCtx::default();
    let n = s.range(1, 4);
    for _ in 0..n {
        g.defs.push(Def::Fn(s.below(USER_FNS.len())));
    }
    g.defs.extend(gen_ctx(s, CTX_FINITE).defs);
    let rc = g.refctx();
    let names = gen_vars(s, &rc, 4);
    let o = GenOpts {
        vars: !s.chance(1, 6),
        patterns: 16,
        call_weight: 30,
        own: 30,
        ..GenOpts::default()
    };
    let mut ge = Gen::new(s, o, &rc, names);
    let mut gen = ge.top();
    if !gen.any(&|n| matches!(n, Ast::Call(FnRef::U(_), _))) {
        if let Some(c) = ge.own_call(3) {
            let op = *ge.s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod, Op::Pow]);
            gen = if ge.s.chance(1, 2) { bin(op, gen, c) } else { bin(op, c, gen) };
        }
    }
    let text = render(&gen, ORDER, s);
    s.release();
    let ast = gen.norm();
    case.note(format!("context {}; text {}", g.show(), quote(&text)));
    classify(&gen, case);
    let mut ctx = Context::default();
    for (k, d) in g.defs.iter().enumerate() {
        match d {
            Def::Const(n, v) => ctx.set_var(n, *v),
            Def::Fn(i) => {
                let f = logging_fn(*i, (k + i) % 2 == 0);
                quiet("set_fn", || sut("set_fn", || ctx.set_fn(f)))?;
            }
        }
    }
    let p = quiet("new_with_ctx", || Ok(Parser::new_with_ctx(ctx)))?;
    let (x, at_parse) = logged(|| must_parse(&p, &text));
    let mut x = x?;
    case.eval();
    let mut total = at_parse.len();
    let mut tree = if OPT {
        // each written call at most once, now or later
        if !ast.has_vars() {
            let mut reg = Reg::default();
            let mut constant = CallLog::new();
            calls_of(&ast, &Env::new(), &mut reg, &mut constant);
            if !within(&bag(&at_parse, !reg.ambiguous), &bag(&constant, !reg.ambiguous)) {
                return Err(format!("parsing called {}, written are {}", show(&at_parse), show(&constant)));
            }
        }
        let Some(t) = displayed(&x, &rc)? else { return Ok(()) };
        if !within(&merged(&at_parse, written(&t)), &written(&ast)) {
            return Err(format!(
                "more calls than written: {} while parsing and those left in {}",
                show(&at_parse),
                quote(&display(&x)?)
            ));
        }
        if !at_parse.is_empty() {
            case.class("called while parsing");
        }
        t
    } else {
        if !at_parse.is_empty() {
            return Err(format!("parsing called {}", show(&at_parse)));
        }
        ast
    };
    let steps = s.range(1, 3);
    for step in 0..steps {
        let c = quiet("clone", || sut("clone", || x.clone()))?;
        if !quiet("equality", || sut("equality", || c == x || display(&x).unwrap_or_default().contains("NaN")))? {
            return Err("a clone is not equal".into());
        }
        let set = vars(&x);
        let finite = !s.chance(1, 4);
        let env = full_env(s, &set, finite);
        total += check_eval(case, s, &x, &tree, &env)?;
        if step + 1 == steps || set.is_empty() {
            break;
        }
        // substitute some of them
        let picked = subset(s, &set);
        let list: Vec<(&str, f64)> = picked.iter().map(|n| (n.as_str(), gen_finite(s))).collect();
        let form = s.below(4);
        case.note(format!("{} {list:?}", crate::semantics::FORMS[form]));
        let (r, l) = logged(|| crate::semantics::simplify_by(x, form, &list));
        x = r?;
        case.eval();
        // substitution folds what became constant, in every build
        let Some(t) = displayed(&x, &rc)? else { return Ok(()) };
        if !within(&merged(&l, written(&t)), &written(&tree)) {
            return Err(format!(
                "more calls than before the substitution: {} in it and those left in {}",
                show(&l),
                quote(&display(&x)?)
            ));
        }
        if !l.is_empty() {
            case.class("called while substituting");
        }
        total += l.len();
        tree = t;
    }
    if total >= 2 {
        case.nontrivial(&case.shown());
    }
    case.class(match total {
        0 => "no call",
        1 => "1 call",
        2..=9 => "2-9 calls",
        _ => ">9 calls",
    });
    Ok(())
}
