//! P07, P12, P13, P14, P15, P16, P17: functions, contexts and binding.
use crate::semantics::canonical_bits;
use crate::sut::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use xprs::{xprs_fn, BindError, Context, Function, Parser, Symbol, Xprs};
use xvcore::*;

// ------------------------------------------------------------------------------------ P07

fn bind_missing(e: &BindError) -> R<(bool, BTreeSet<String>)> {
    let (one, list) = match e {
        BindError::OneVariable(v) => (true, v.clone()),
        BindError::MultipleVariables(v) => (false, v.clone()),
        _ => return Err(format!("unknown form of binding error {e:?}")),
    };
    let msg = sut("BindError Display", || e.to_string())?;
    if !msg.contains(&format!("'{list}'")) {
        return Err(format!("the message {msg:?} does not show {list:?}"));
    }
    let names: Vec<String> = list.split(", ").map(str::to_owned).collect();
    let set: BTreeSet<String> = names.iter().cloned().collect();
    if set.len() != names.len() {
        return Err(format!("a name is listed twice in {msg:?}"));
    }
    Ok((one, set))
}

fn check_bind_error(e: &BindError, missing: &BTreeSet<String>, how: &str) -> R<()> {
    if missing.is_empty() {
        return Err(format!("{how} failed ({e}) although no variable is missing"));
    }
    let (one, listed) = bind_missing(e)?;
    if &listed != missing {
        return Err(format!("{how}: lists {listed:?}, missing are {missing:?}"));
    }
    if one != (missing.len() == 1) {
        return Err(format!("{how}: wrong form of error for {} missing variables", missing.len()));
    }
    Ok(())
}

fn agree(how: &str, got: f64, want: f64) -> R<()> {
    if canonical_bits(got) == canonical_bits(want) {
        Ok(())
    } else {
        Err(format!("{how} gives {got:?}, eval {want:?}"))
    }
}

/// Calls bind1..bind9 with names and compares with evaluation at every row of values.
macro_rules! bind_fixed {
    ($how:literal, $x:expr, $method:ident, $names:expr, $rows:expr, $wants:expr, $missing:expr, $($i:tt),+) => {{
        let n: Vec<&str> = $names.iter().map(|s: &String| s.as_str()).collect();
        let x = $x;
        let r = sut($how, || x.$method($(n[$i]),+))?;
        match r {
            Err(e) => check_bind_error(&e, $missing, $how)?,
            Ok(f) => {
                if !$missing.is_empty() {
                    return Err(format!("{} succeeded although {:?} are missing", $how, $missing));
                }
                for (row, want) in $rows.iter().zip($wants) {
                    let got = sut($how, || f($(row[$i]),+))?;
                    agree($how, got, *want)?;
                }
            }
        }
    }};
}

macro_rules! bind_array {
    ($x:expr, $names:expr, $rows:expr, $wants:expr, $missing:expr, $($n:literal),+) => {
        match $names.len() {
            $($n => {
                let how = concat!("bind_n of ", $n);
                let mut a = [""; $n];
                for (d, s) in a.iter_mut().zip($names.iter()) {
                    *d = s.as_str();
                }
                let x = $x;
                match sut(how, || x.bind_n(a))? {
                    Err(e) => check_bind_error(&e, $missing, how)?,
                    Ok(f) => {
                        if !$missing.is_empty() {
                            return Err(format!("{how} succeeded although {:?} are missing", $missing));
                        }
                        for (row, want) in $rows.iter().zip($wants) {
                            let mut v = [0.0; $n];
                            v.copy_from_slice(row);
                            let got = sut(how, || f(v))?;
                            agree(how, got, *want)?;
                        }
                    }
                }
            })+
            _ => (),
        }
    };
}

pub fn p07(s: &mut Src, case: &mut Case) -> R<()> {
    s.hold(2, 5);
    let g = gen_ctx(s, CTX_ANY);
    let rc = g.refctx();
    // number of variables available
    let n = match s.below(10) {
        0..=6 => s.range(1, 9),
        7 | 8 => s.size(8, 40, 400),
        _ => s.range(200, 330),
    };
    let names: Vec<String> = if n <= 9 {
        gen_vars(s, &rc, n)
    } else {
        (0..n).map(|i| format!("v{i}")).collect()
    };
    let o = GenOpts { fuel: 40, ..GenOpts::default() };
    let mut a = Gen::new(s, o, &rc, names.clone()).top();
    if n > 9 || s.chance(1, 2) {
        // use every name, each with its own weight
        for (i, v) in names.iter().enumerate() {
            let t = bin(Op::Mul, Ast::Lit((i + 2).to_string()), Ast::Var(v.clone()));
            a = bin(if i % 3 == 1 { Op::Sub } else { Op::Add }, a, t);
        }
    }
    let text = render(&a, ORDER, s);
    s.release();
    let p = parser(&g);
    let x = must_parse(&p, &text)?;
    let set = vars(&x);
    // names to bind: shuffled, maybe incomplete, maybe with unused ones
    let mut list: Vec<String> = set.iter().cloned().collect();
    shuffle(&mut list, s);
    match s.below(6) {
        0 if !list.is_empty() => {
            list.pop();
        }
        1 if !list.is_empty() => {
            let k = s.range(1, list.len());
            list.truncate(list.len() - k);
        }
        2 if list.len() > 9 => {
            let k = s.range(0, 9);
            list.truncate(k);
        }
        _ => (),
    }
    let extra = if s.chance(1, 2) { s.range(1, 4) } else { 0 };
    for i in 0..extra {
        let u = ["unused_1", "pi", "sin", "U'", "a_name_nobody_uses"][i + s.below(2)].to_owned();
        if !set.contains(&u) && !list.contains(&u) {
            let at = s.below(list.len() + 1);
            list.insert(at, u);
        }
    }
    let bound: BTreeSet<String> = list.iter().cloned().collect();
    let missing: BTreeSet<String> = set.difference(&bound).cloned().collect();
    case.note(format!("context {}; text {}; bound to {:?}", g.show(), quote(&text), &list[..list.len().min(20)]));
    case.class(match set.len() {
        0 => "0 variables",
        1 => "1 variable",
        2..=9 => "2-9 variables",
        10..=100 => "10-100 variables",
        _ => ">100 variables",
    });
    case.class(match missing.len() {
        0 => "none missing",
        1 => "one missing",
        2..=255 => "several missing",
        _ => ">255 missing",
    });
    if list.len() > 1 {
        case.nontrivial(&format!("{text}{list:?}"));
    }
    let mut rows = Vec::new();
    let mut wants = Vec::new();
    for k in 0..3 {
        let row: Vec<f64> = list.iter().map(|_| if k == 2 { gen_value(s) } else { gen_finite(s) }).collect();
        let env: Env = list.iter().cloned().zip(row.iter().copied()).collect();
        wants.push(if missing.is_empty() { must_eval(&x, &env)? } else { f64::NAN });
        rows.push(row);
    }
    case.eval();
    let cl = || x.clone();
    match list.len() {
        1 => bind_fixed!("bind", cl(), bind, &list, rows, &wants, &missing, 0),
        2 => bind_fixed!("bind2", cl(), bind2, &list, rows, &wants, &missing, 0, 1),
        3 => bind_fixed!("bind3", cl(), bind3, &list, rows, &wants, &missing, 0, 1, 2),
        4 => bind_fixed!("bind4", cl(), bind4, &list, rows, &wants, &missing, 0, 1, 2, 3),
        5 => bind_fixed!("bind5", cl(), bind5, &list, rows, &wants, &missing, 0, 1, 2, 3, 4),
        6 => bind_fixed!("bind6", cl(), bind6, &list, rows, &wants, &missing, 0, 1, 2, 3, 4, 5),
        7 => bind_fixed!("bind7", cl(), bind7, &list, rows, &wants, &missing, 0, 1, 2, 3, 4, 5, 6),
        8 => bind_fixed!("bind8", cl(), bind8, &list, rows, &wants, &missing, 0, 1, 2, 3, 4, 5, 6, 7),
        9 => bind_fixed!("bind9", cl(), bind9, &list, rows, &wants, &missing, 0, 1, 2, 3, 4, 5, 6, 7, 8),
        _ => (),
    }
    bind_array!(
        cl(), list, rows, &wants, &missing, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 20,
        24, 32
    );
    let refs: Vec<&str> = list.iter().map(String::as_str).collect();
    let y = cl();
    match sut("bind_n_runtime", || y.bind_n_runtime(&refs))? {
        Err(e) => check_bind_error(&e, &missing, "bind_n_runtime")?,
        Ok(f) => {
            if !missing.is_empty() {
                return Err(format!("bind_n_runtime succeeded although {missing:?} are missing"));
            }
            for (row, want) in rows.iter().zip(&wants) {
                let got = sut("bound slice function", || f(row).map_err(|e| e.to_string()))?
                    .map_err(|e| format!("bound slice function: {e}"))?;
                agree("bind_n_runtime", got, *want)?;
            }
            {
                // values without a name
                let mut more = rows[0].clone();
                for _ in 0..s.size(1, 8, 300) {
                    more.push(gen_value(s));
                }
                case.eval();
                let got = sut("bound slice function", || f(&more).map_err(|e| e.to_string()))?
                    .map_err(|e| format!("bound slice function with too many values: {e}"))?;
                agree("bind_n_runtime with too many values", got, wants[0])?;
            }
            if !list.is_empty() {
                let k = s.below(list.len());
                case.eval();
                let lost: BTreeSet<&String> = list[k..].iter().filter(|v| set.contains(*v)).collect();
                match sut("bound slice function", || f(&rows[0][..k]).map_err(|e| e.to_string()))? {
                    Ok(v) if lost.is_empty() => agree("bind_n_runtime", v, wants[0])?,
                    Ok(v) => {
                        return Err(format!("bound slice function gives {v:?} without a value for {lost:?}"))
                    }
                    Err(e) => {
                        case.class("too few values");
                        if !missing_name(&e).is_some_and(|n| lost.iter().any(|l| *l == n)) {
                            return Err(format!("without values for {lost:?} the error says {e:?}"));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ P12

pub fn p12(s: &mut Src, case: &mut Case) -> R<()> {
    if s.chance(1, 20) {
        // constants
        let (n, v) = *s.pick(&[("pi", std::f64::consts::PI), ("e", std::f64::consts::E)]);
        let p = Parser::default();
        let t = *s.pick(&["{}", "({})", "-(-{})", "{} ^ 1", "1{}", "0 + {}", "{}\n"]);
        let t = t.replace("{}", n);
        case.note(t.clone());
        let x = must_parse(&p, &t)?;
        case.eval();
        case.class("constant");
        let got = must_eval(&x, &Env::new())?;
        if got.to_bits() != v.to_bits() || !vars(&x).is_empty() {
            return Err(format!("{t:?} is {got:?}"));
        }
        return Ok(());
    }
    let b = s.below(BUILTINS.len());
    let f = &BUILTINS[b];
    let n = f.arity().unwrap_or_else(|| match s.below(4) {
        0 => s.below(3),
        1 | 2 => s.range(1, 8),
        _ => s.size(5, 300, 2000),
    });
    // values that matter to the function
    let vals: Vec<f64> = (0..n)
        .map(|_| match s.below(6) {
            0 => (s.below(4000) as f64 - 2000.0) / 1000.0,
            1 => s.below(400) as f64 / 2.0 - 100.0,
            2 => gen_value(s),
            _ => gen_finite(s),
        })
        .collect();
    // how each is passed: literal, context constant, variable
    let mode = s.below(4);
    const KN: [&str; 4] = ["k0", "k1", "k2", "k3"];
    let mut ctx = Context::default();
    let mut env = Env::new();
    let mut args = Vec::new();
    for (i, v) in vals.iter().enumerate() {
        let how = if mode == 3 { s.below(3) } else { mode };
        let a = match how {
            0 if v.is_finite() => {
                let t = format!("{:e}", v.abs());
                if v.is_sign_negative() {
                    format!("-{t}")
                } else {
                    t
                }
            }
            1 if i < 4 => {
                ctx.set_var(KN[i], *v);
                KN[i].to_owned()
            }
            _ => {
                let name = format!("a{i}");
                env.insert(name.clone(), *v);
                name
            }
        };
        args.push(a);
    }
    let text = format!("{}({})", f.name, args.join(", "));
    case.note(format!("{} with {:?}", quote(&text), &vals[..n.min(6)]));
    case.class(f.name);
    case.class(match n {
        0 => "no argument",
        1 | 2 => "1-2 arguments",
        3..=20 => "3-20 arguments",
        _ => ">20 arguments",
    });
    case.nontrivial(&format!("{}{vals:?}{mode}", f.name));
    let p = Parser::new_with_ctx(ctx);
    let x = must_parse(&p, &text)?;
    case.eval();
    let got = must_eval(&x, &env)?;
    let want = f.call(&vals);
    let signed = f.arity().is_some() && f.name != "fract";
    let ok = if signed { identical(got, want) } else { same(got, want) };
    if !ok {
        return Err(format!("{} of {vals:?} is {got:?}, expected {want:?}", f.name));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ P13

pub fn p13(s: &mut Src, case: &mut Case) -> R<()> {
    let v = match s.below(8) {
        0..=3 => s.below(172) as f64,
        4 => -(s.below(175) as f64),
        5 => s.below(172) as f64 + *s.pick(&[0.5, 1e-9, -1e-9, 0.25, 0.999999]),
        6 => *s.pick(&[
            171.0, 172.0, 170.5, 1e300, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0,
            5e-324, 9007199254740992.0, 4294967296.0, 18446744073709551616.0, 256.0, 65536.0, -5e-324,
            170.00000000000003, 1e10,
        ]),
        _ => gen_value(s),
    };
    let want = factorial(v);
    let lit = v.is_finite() && v.is_sign_positive();
    let l = format!("{v:?}");
    let mut ctx = Context::default();
    ctx.set_var("k", v);
    let p = Parser::new_with_ctx(ctx);
    let env: Env = [("x".to_owned(), v)].into();
    // text, expected value
    let mut forms: Vec<(String, f64)> = vec![
        ("x!".into(), want),
        ("( x ) !".into(), want),
        ("factorial(x)".into(), want),
        ("k!".into(), want),
        ("(k)!".into(), want),
        ("factorial(k)".into(), want),
        ("-x!".into(), -want),
        ("-k!".into(), -want),
        ("+x!".into(), want),
        ("x!!".into(), factorial(want)),
        ("k!!".into(), factorial(want)),
        ("(x!)!".into(), factorial(want)),
        ("x!!!".into(), factorial(factorial(want))),
        ("(-x)!".into(), factorial(-v)),
        ("abs(x)!".into(), factorial(v.abs())),
        ("2^x!".into(), 2f64.powf(want)),
        ("x!^2".into(), want.powf(2.0)),
        ("x! - x!".into(), want - want),
        ("3 x!".into(), 3.0 * want),
        ("-x!!".into(), -factorial(want)),
        ("x! + 2!".into(), want + 2.0),
    ];
    if lit {
        forms.push((format!("{l}!"), want));
        forms.push((format!("{l} !"), want));
        forms.push((format!("({l})!"), want));
        forms.push((format!("factorial({l})"), want));
        forms.push((format!("-{l}!"), -want));
        forms.push((format!("{l}!!"), factorial(want)));
        forms.push((format!("-{l}!!"), -factorial(want)));
        forms.push((format!("({l}!)!"), factorial(want)));
        forms.push((format!("(-{l})!"), factorial(-v)));
    }
    // a factorial among other things: one operand, one step after the other
    let mut chain: (String, f64) = match s.below(3) {
        0 => ("x".into(), v),
        1 => ("k".into(), v),
        _ if lit => (l.clone(), v),
        _ => ("x".into(), v),
    };
    for _ in 0..s.range(1, 6) {
        let (t, w) = chain;
        let tight = t.ends_with(')') || !t.starts_with(['-', '+']) && !t.contains(' ');
        chain = match s.below(18) {
            0..=3 if tight => (format!("{t}!"), factorial(w)),
            0..=5 => (format!("({t})!"), factorial(w)),
            6 => (format!("factorial({t})"), factorial(w)),
            7..=9 => (format!("(-{t})"), -w),
            10 => (format!("(+{t})"), w),
            11 => (format!("abs({t})"), w.abs()),
            12 => (format!("({t} + 2)"), w + 2.0),
            13 => (format!("(3 - {t})"), 3.0 - w),
            14 => (format!("({t} / 2)"), w / 2.0),
            15 => (format!("(2 * {t})"), 2.0 * w),
            16 => (format!("min({t}, 5)"), f64::min(w, 5.0)),
            _ => (format!("round({t})"), w.round()),
        };
    }
    if s.chance(1, 2) && chain.0.contains(['!', 'f']) {
        case.class("chain of steps");
        forms = vec![chain];
    }
    let k = s.below(forms.len());
    let (text, want1) = &forms[k];
    let simplified = text.contains('x') && s.chance(1, 3);
    case.note(format!("{text:?} with x = k = {v:?}{}", if simplified { ", substituted" } else { "" }));
    case.class(if v.is_nan() {
        "NaN"
    } else if v.is_infinite() {
        "infinite"
    } else if v < 0.0 {
        "negative"
    } else if v.fract() != 0.0 {
        "fractional"
    } else if v > 170.0 {
        "above 170"
    } else {
        "0..170"
    });
    case.nontrivial(&format!("{text}{v:?}"));
    let mut x = must_parse(&p, text)?;
    if simplified {
        x = sut("simplify_for", || x.simplify_for(("x", v)))?;
    }
    case.eval();
    let got = must_eval(&x, &env)?;
    // rules about whole expressions (a - a) are the business of P04
    let skip = text == "x! - x!" && !want.is_finite();
    if !same(got, *want1) && !skip {
        return Err(format!("got {got:?}, expected {want1:?}"));
    }
    if lit && v.fract() == 0.0 && v <= 170.0 {
        let t = if s.chance(1, 2) { format!("gamma({} + 1)", l) } else { "gamma(x + 1)".to_owned() };
        let x = must_parse(&p, &t)?;
        let g = must_eval(&x, &env)?;
        case.eval();
        if ((g - want) / want).abs() > 1e-12 {
            return Err(format!("gamma({v:?} + 1) is {g:?}, {v:?}! is {want:?}"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ P14

const P14_ODD_NAMES: &[&str] = &[
    " x", "x ", "", " ", "1", "2x", "x y", "x\n", "é", "sin ", " sin", "Sin", "SIN", "PI", "_x", "'x", "x\0", "(x)", "x+y",
    "\u{feff}x", "x\u{301}", "π", "k ", "K",
];
const P14_NAMES: &[&str] = &[
    "x", "k", "f", "sin", "pi", "e", "max", "one", "X", "f'", "dbl", "sub", "foo_2", "ab", "a", "pi_", "Pi", "SIN", "sinh",
    "E", "x1", "x_", "x'", "x''", "K", "tan", "aB", "gamma", "cnt", "abs2",
    "a_name_of_thirty_two_characters_", "a_name_of_thirty_two_characters_1", "a_name_of_thirty_two_characters_2",
    "a_name_of_thirty_two_characters",
    "the_same_long_name_over_and_over_the_same_long_name_over_and_over_the_same_long_name_over_and_over_the_same_long_name_over_and_over_the_same_long_name_over_and_over_the_same_long_name_over_and_over_the_same_long_name_over_and_over_the_same_long_name_over_1",
    "the_same_long_name_over_and_over_the_same_long_name_over_and_over_the_same_long_name_over_and_over_the_same_long_name_over_and_over_the_same_long_name_over_and_over_the_same_long_name_over_and_over_the_same_long_name_over_and_over_the_same_long_name_over_2",
];

/// For large contexts.
fn filler_names() -> &'static [&'static str] {
    static NAMES: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    NAMES.get_or_init(|| (0..600).map(|i| &*format!("v{i}{}", ["", "_", "'", "x"][i % 4]).leak()).collect())
}

/// A context and its model.
#[derive(Clone)]
struct Pair {
    p: Parser<'static>,
    m: RefCtx,
}

struct Kept<'t> {
    x: Xprs<'t>,
    env: Env,
    value: f64,
    shown: String,
}

fn same_symbol(got: Option<&Symbol>, want: Option<&Sym>, case: &mut Case) -> bool {
    match (got, want) {
        (None, None) => true,
        (Some(Symbol::Variable(a)), Some(Sym::Const(b))) => identical(*a, *b),
        (Some(Symbol::Function(f)), Some(Sym::Fn(r))) => {
            case.class("function looked up");
            let n = r.arity().unwrap_or(3);
            let a: Vec<f64> = (0..n).map(|i| 1.5 + i as f64).collect();
            f.name == r.name()
                && f.nb_args.map(usize::from) == r.arity()
                && identical((f.func)(&a), r.call(&a))
        }
        _ => false,
    }
}

pub fn p14(s: &mut Src, case: &mut Case) -> R<()> {
    // a few names, so that they meet
    let start = s.below(P14_NAMES.len());
    let mut names: Vec<&'static str> = (0..s.range(3, 9))
        .map(|i| if s.chance(1, 3) { P14_NAMES[(start + i) % P14_NAMES.len()] } else { *s.pick(P14_NAMES) })
        .collect();
    if s.chance(1, 6) {
        // names no text can contain, beside what they resemble
        names.push(s.pick(P14_ODD_NAMES));
        names.push(s.pick(P14_ODD_NAMES));
    }
    if s.chance(1, 3) {
        // a function under the name of a built-in
        names.push(USER_FNS[s.below(USER_FNS.len())].name);
    }
    let fns: Vec<usize> = (0..USER_FNS.len()).filter(|f| names.contains(&USER_FNS[*f].name)).collect();
    let pick_fn = |s: &mut Src| if fns.is_empty() || s.chance(1, 4) { s.below(USER_FNS.len()) } else { *s.pick(&fns) };
    s.hold(1, 2);
    let texts: Vec<String> = (0..s.range(4, 24)).map(|_| p14_text(s, &names)).collect();
    s.release();
    let mut pool: Vec<Pair> = vec![Pair { p: Parser::default(), m: RefCtx::default() }];
    let mut kept: Vec<Kept> = Vec::new();
    let steps = s.range(2, 30);
    let mut next = 0;
    let mut redefined = false;
    let mut log: Vec<String> = Vec::new();
    for _ in 0..steps {
        let i = s.below(pool.len());
        if s.chance(1, 60) {
            // a large context
            let all = filler_names();
            let n = s.size(8, 60, all.len());
            let from = s.below(all.len() - n + 1);
            let some = &all[from..from + n];
            log.push(format!("#{i} {:?}… {n} definitions", some[0]));
            case.class("many definitions");
            let kind = s.below(3);
            for (k, n) in some.iter().enumerate() {
                let v = k as f64 + 0.5;
                if kind == 0 || (kind == 1 && k % 3 == 0) {
                    pool[i].p.ctx_mut().set_var(n, v);
                } else {
                    let c = std::mem::take(pool[i].p.ctx_mut()).with_var(n, v);
                    *pool[i].p.ctx_mut() = c;
                }
                pool[i].m.syms.insert((*n).into(), Sym::Const(v));
            }
            continue;
        }
        match s.below(12) {
            0..=2 => {
                let n = *s.pick(&names);
                let v = gen_value(s);
                redefined |= pool[i].m.syms.contains_key(n);
                let builder = s.chance(1, 3);
                log.push(format!("#{i} {n}={v:?}"));
                if builder {
                    let c = ctx_clone(&pool[i].p).with_var(n, v);
                    pool[i].p = Parser::new_with_ctx(c);
                } else if s.chance(1, 40) {
                    // as often as some number in the code says
                    for k in 0..s.dict_size(2, 2000).unwrap_or(1) {
                        pool[i].p.ctx_mut().set_var(n, k as f64);
                    }
                    pool[i].p.ctx_mut().set_var(n, v);
                } else if s.chance(1, 4) {
                    // integers convert
                    let v = v as i32;
                    pool[i].p.ctx_mut().set_var(n, v);
                    pool[i].m.syms.insert(n.into(), Sym::Const(f64::from(v)));
                    continue;
                } else {
                    pool[i].p.ctx_mut().set_var(n, v);
                }
                pool[i].m.syms.insert(n.into(), Sym::Const(v));
            }
            3 | 4 => {
                let f = pick_fn(s);
                let n = USER_FNS[f].name;
                redefined |= pool[i].m.syms.contains_key(n);
                log.push(format!("#{i} fn {n}/{:?}", USER_FNS[f].arity));
                if s.chance(1, 3) {
                    let c = ctx_clone(&pool[i].p).with_fn(user_fn(f));
                    pool[i].p = Parser::new_with_ctx(c);
                } else {
                    pool[i].p.ctx_mut().set_fn(user_fn(f));
                }
                pool[i].m.syms.insert(n.into(), Sym::Fn(FnRef::U(f)));
            }
            5 if s.chance(1, 2) => {
                // replace all symbols; keys may differ from the functions' own names
                let mut m: HashMap<&'static str, Symbol> = HashMap::new();
                let mut r = RefCtx::default();
                for _ in 0..s.below(4) {
                    let n = *s.pick(&names);
                    if s.chance(1, 2) {
                        let f = pick_fn(s);
                        m.insert(n, user_fn(f).into());
                        r.syms.insert(n.into(), Sym::Fn(FnRef::U(f)));
                    } else {
                        let v = gen_value(s);
                        m.insert(n, v.into());
                        r.syms.insert(n.into(), Sym::Const(v));
                    }
                }
                log.push(format!("#{i} symbols replaced by {:?}", r.syms.keys()));
                let c = ctx_clone(&pool[i].p).with_symbols(m);
                pool[i] = Pair { p: Parser::new_with_ctx(c), m: r };
                case.class("symbols replaced");
            }
            6 if pool.len() < 4 => {
                let c = sut("clone", || pool[i].clone())?;
                log.push(format!("#{} cloned from #{i}", pool.len()));
                pool.push(c);
                case.class("context cloned");
            }
            7 => {
                let n = *s.pick(&names);
                case.eval();
                let got = pool[i].p.ctx().get(n);
                if !same_symbol(got, pool[i].m.syms.get(n), case) {
                    return Err(format!(
                        "after {log:?}: get({n:?}) is {got:?}, last defined {:?}",
                        pool[i].m.syms.get(n)
                    ));
                }
            }
            _ => {
                if next >= texts.len() {
                    continue;
                }
                let text = &texts[next];
                next += 1;
                let want = ref_parse(text, &pool[i].m, ORDER);
                let got = parse(&pool[i].p, text)?;
                case.eval();
                match (want, got) {
                    (Err(_), Err(_)) => case.class("rejected"),
                    (Err(e), Ok(x)) => {
                        return Err(format!(
                            "after {log:?}: {} should be rejected ({:?}), is {}",
                            quote(text),
                            e.kind,
                            display(&x)?
                        ))
                    }
                    (Ok(r), Err(e)) => {
                        return Err(format!(
                            "after {log:?}: {} should mean {}, was rejected ({})",
                            quote(text),
                            r.ast.show(),
                            err_msg(&e)?
                        ))
                    }
                    (Ok(r), Ok(x)) => {
                        log.push(format!("#{i} parse {text:?}"));
                        case.class("parsed");
                        if redefined {
                            case.class("parsed after a redefinition");
                            case.nontrivial(&format!("{log:?}"));
                        }
                        let vs = r.ast.vars();
                        if !OPT && vars(&x) != vs {
                            return Err(format!("after {log:?}: variables {:?}, not {vs:?}", vars(&x)));
                        }
                        let env = full_env(s, &vs, true);
                        let exact = !OPT || vs.is_empty();
                        check_value(case, "value", &x, &r.ast, &env, exact)
                            .map_err(|e| format!("after {log:?}: {e}"))?;
                        let value = must_eval(&x, &env)?;
                        let shown = display(&x)?;
                        kept.push(Kept { x, env, value, shown });
                    }
                }
            }
        }
        // expressions parsed earlier stay what they were
        if !kept.is_empty() && s.chance(1, 2) {
            let k = &kept[s.below(kept.len())];
            case.eval();
            let v = must_eval(&k.x, &k.env)?;
            if canonical_bits(v) != canonical_bits(k.value) || display(&k.x)? != k.shown {
                return Err(format!("after {log:?}: {} changed from {:?} to {v:?}", k.shown, k.value));
            }
        }
    }
    let known: BTreeSet<&str> = pool.iter().flat_map(|q| q.m.syms.keys()).map(String::as_str).collect();
    for n in P14_NAMES.iter().chain(P14_ODD_NAMES).copied().chain(known) {
        for (i, q) in pool.iter().enumerate() {
            let got = q.p.ctx().get(n);
            if !same_symbol(got, q.m.syms.get(n), case) {
                return Err(format!("after {log:?}: #{i} get({n:?}) is {got:?}, last defined {:?}", q.m.syms.get(n)));
            }
        }
    }
    case.note(format!("{log:?}"));
    Ok(())
}

/// A context with the same symbols, by cloning a parser.
fn ctx_clone(p: &Parser<'static>) -> Context<'static> {
    let mut q = p.clone();
    std::mem::take(q.ctx_mut())
}

fn p14_text(s: &mut Src, names: &[&str]) -> String {
    let n = *s.pick(names);
    let m = *s.pick(names);
    match s.below(20) {
        9 | 10 => format!("{n} - {m}"),
        11 => format!("{n}(-{m})"),
        12 => format!("{n}({n}({m}))"),
        13 => format!("{n}(-q) + {m}"),
        14 => format!("{n}({m}) % 1"),
        15 => format!("{n}(q, {m})"),
        16 => format!("{n}({m}, q) - {n}(q, {m})"),
        17 => format!("{n}(q) * {n}(q) - {m}"),
        18 => format!("{n}(2 * q) / {m}(q)"),
        19 => format!("{n}({m}({n}(q)))"),
        0 => n.to_owned(),
        1 => format!("{n}({m})"),
        2 => format!("{n}(2, {m})"),
        3 => format!("{n} + 2*{m}"),
        4 => format!("{n}(1,2,3)"),
        5 => format!("2{n} - {m}(3)"),
        6 => format!("{n}()"),
        7 => format!("{n} {m}"),
        _ => format!("({n})({m}(4))"),
    }
}

// ------------------------------------------------------------------------------------ P15

thread_local! {
    static CALLS: RefCell<Vec<Vec<f64>>> = const { RefCell::new(Vec::new()) };
}

fn weigh(a: &[f64]) -> f64 {
    a.iter().enumerate().map(|(i, v)| v * 3f64.powi(i as i32 % 40)).sum::<f64>() + a.len() as f64
}

fn recording(a: &[f64]) -> f64 {
    CALLS.with(|c| c.borrow_mut().push(a.to_vec()));
    weigh(a)
}

fn g0() -> f64 {
    recording(&[])
}
fn g1(a: f64) -> f64 {
    recording(&[a])
}
fn g2(a: f64, b: f64) -> f64 {
    recording(&[a, b])
}
fn g3(a: f64, b: f64, c: f64) -> f64 {
    recording(&[a, b, c])
}
fn g4(a: f64, b: f64, c: f64, d: f64) -> f64 {
    recording(&[a, b, c, d])
}
fn g5(a: f64, b: f64, c: f64, d: f64, e: f64) -> f64 {
    recording(&[a, b, c, d, e])
}
fn g6(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) -> f64 {
    recording(&[a, b, c, d, e, f])
}
fn g7(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64) -> f64 {
    recording(&[a, b, c, d, e, f, g])
}
#[allow(clippy::too_many_arguments)]
fn g8(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64) -> f64 {
    recording(&[a, b, c, d, e, f, g, h])
}
#[allow(clippy::too_many_arguments)]
fn g9(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64, i: f64) -> f64 {
    recording(&[a, b, c, d, e, f, g, h, i])
}
fn gv(a: &[f64]) -> f64 {
    recording(a)
}

macro_rules! forms {
    ($form:expr, $($f:ident $n:tt),+) => {
        match $form {
            0 => vec![$(xprs_fn!("fn_", $f, $n)),+],
            1 => vec![$(xprs_fn!("fn_", dyn $f, $n)),+],
            _ => vec![$(xprs_fn!(dyn $f, $n)),+],
        }
    };
}

/// A function of the given arity made in one of the documented ways: (function, name, arity).
fn p15_function(s: &mut Src, case: &mut Case) -> (Function, &'static str, Option<usize>) {
    match s.below(4) {
        0 | 1 => {
            // `xprs_fn!(f, 1)` without a name never compiles (see DESIGN.md)
            let form = s.below(3);
            let all = forms!(form, g0 0, g1 1, g2 2, g3 3, g4 4, g5 5, g6 6, g7 7, g8 8, g9 9);
            let n = s.below(10);
            const NAMES: [&str; 10] = ["g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8", "g9"];
            case.class("xprs_fn! with arity");
            (all[n].clone(), if form < 2 { "fn_" } else { NAMES[n] }, Some(n))
        }
        2 => {
            case.class("variadic");
            match s.below(6) {
                0 => (xprs_fn!("va", gv), "va", None),
                1 => (xprs_fn!("va", dyn gv), "va", None),
                2 => (xprs_fn!(gv), "gv", None),
                3 => (xprs_fn!(dyn gv), "gv", None),
                4 => (Function::new_static("va", gv, None), "va", None),
                _ => (Function::new_dyn("va", gv, None), "va", None),
            }
        }
        _ => {
            case.class("constructor with arity");
            let n = match s.below(8) {
                0..=2 => s.below(12),
                3..=4 => s.below(60),
                5..=6 => s.range(60, 255),
                _ => 256,
            };
            let n = u8::try_from(n).ok();
            let name = match s.below(4) {
                0 | 1 => "con",
                2 => *s.pick(HNAMES),
                _ => s.dict_static_name().unwrap_or("con"),
            };
            // not the name of an argument
            let taken = ["k", "no_number", "inf_"].contains(&name) || name.starts_with('y');
            let name = if taken { "con" } else { name };
            let f = if s.chance(1, 2) {
                Function::new_static(name, recording, n)
            } else {
                Function::new_dyn(name, recording, n)
            };
            (f, name, n.map(usize::from))
        }
    }
}

pub fn p15(s: &mut Src, case: &mut Case) -> R<()> {
    let (f, name, arity) = p15_function(s, case);
    if f.name != name || f.nb_args.map(usize::from) != arity {
        return Err(format!("the function is called {:?} with {:?} arguments, not {name:?}, {arity:?}", f.name, f.nb_args));
    }
    let p = Parser::new_with_ctx(
        Context::default().with_fn(f).with_var("k", 7.0).with_var("no_number", f64::NAN).with_var("inf_", f64::INFINITY),
    );
    if s.chance(1, 12) {
        let t = *s.pick(&["{}", "{} + 1", "({})", "{} x", "2{}", "{}!", "{},", "{} 2", "max({}, 1)", "-{}", "{}\t"]);
        let t = t.replace("{}", name);
        case.note(t.clone());
        case.eval();
        case.class("name without call");
        return match parse(&p, &t)? {
            Err(_) => Ok(()),
            Ok(x) => Err(format!("{t:?}: function name without a call accepted as {}", display(&x)?)),
        };
    }
    let want = arity;
    let n = match (arity, s.below(8)) {
        (Some(a), 0..=4) => a,
        (Some(a), 5) => a + 1,
        (Some(a), 6) => a.saturating_sub(1),
        (None, 0..=4) => s.below(10),
        _ => {
            if s.chance(1, 3) {
                s.size(200, 300, 3000)
            } else {
                s.below(30)
            }
        }
    };
    // arguments: constants, variables, expressions, with known values
    let mut env = Env::new();
    let mut args = Vec::new();
    let mut vals = Vec::new();
    let odd = s.chance(1, 4);
    for i in 0..n {
        let v = match s.below(3) {
            0 => i as f64 + 1.0,
            1 => s.below(1000) as f64,
            _ if odd => gen_value(s),
            _ => gen_finite(s),
        };
        let var = format!("y{i}");
        let (t, w) = match s.below(8) {
            _ if odd && s.chance(1, 3) => {
                case.class("constant that is no finite number");
                let (t, w) = *s.pick(&[("no_number", f64::NAN), ("inf_", f64::INFINITY)]);
                (t.to_owned(), w)
            }
            0 | 1 if v >= 0.0 && v.is_finite() => (format!("{v:e}"), v),
            2 => ("k".to_owned(), 7.0),
            3 => (format!("-{}", s.below(50)), 0.0),
            4 => {
                env.insert(var.clone(), v);
                (format!("({var})*2"), v * 2.0)
            }
            5 if name != "abs" => {
                env.insert(var.clone(), v);
                (format!("abs({var})"), v.abs())
            }
            6 if name != "max" && s.chance(1, 2) => (format!("max(1, {i}, 0)"), f64::max(1.0, i as f64)),
            _ => {
                env.insert(var.clone(), v);
                (var, v)
            }
        };
        let w = if t.starts_with('-') { t.parse().unwrap() } else { w };
        args.push(t);
        vals.push(w);
    }
    let sep = *s.pick(&[",", ", ", " , ", ",\n"]);
    let gap = *s.pick(&["", " ", "\t"]);
    let text = format!("{name}{gap}({gap}{}{gap})", args.join(sep));
    case.note(format!("{name}/{arity:?} called as {} with {:?}", quote(&text), &vals[..n.min(8)]));
    case.nontrivial(&format!("{arity:?}{text}"));
    case.eval();
    case.class(match n {
        0 => "no argument",
        1..=9 => "1-9 arguments",
        10..=99 => "10-99 arguments",
        _ => ">99 arguments",
    });
    CALLS.with(|c| c.borrow_mut().clear());
    let r = parse(&p, &text)?;
    match want {
        Some(a) if a != n => {
            let Err(e) = r else {
                return Err(format!("{n} arguments accepted for a function of {a}"));
            };
            case.class(if n < a { "too few" } else { "too many" });
            let i = err_info(&e, text.len())?;
            let (short, diff) = if n < a { ("few", a - n) } else { ("many", n - a) };
            if integers(&i.msg) != [a, n] || !i.msg.to_lowercase().contains(short) {
                return Err(format!("message {:?} for {n} arguments instead of {a}", i.msg));
            }
            let h = i.help.unwrap_or_default();
            let verb = if n < a { "add" } else { "remov" };
            if integers(&h) != [diff] || !h.to_lowercase().contains(verb) {
                return Err(format!("help {h:?} for {n} arguments instead of {a}"));
            }
            return Ok(());
        }
        _ => (),
    }
    let x = match r {
        Ok(x) => x,
        Err(e) => {
            return Err(format!("{n} arguments rejected for a function of {want:?} ({})", err_msg(&e)?))
        }
    };
    // the variables may come in two parts
    let mut x = x;
    if !env.is_empty() && s.chance(1, 3) {
        let first = subset(s, &env.keys().cloned().collect());
        let list: Vec<(&str, f64)> = first.iter().map(|n| (n.as_str(), env[n])).collect();
        let form = s.below(4);
        case.note(format!("{} {list:?}", crate::semantics::FORMS[form]));
        case.class("after a substitution");
        x = crate::semantics::simplify_by(x, form, &list)?;
        for n in &first {
            env.remove(n);
        }
    }
    let v = must_eval(&x, &env)?;
    let seen = CALLS.with(|c| c.borrow_mut().pop());
    let Some(seen) = seen else {
        return Err("the function was never called".into());
    };
    if seen.len() != vals.len() || !seen.iter().zip(&vals).all(|(a, b)| same(*a, *b)) {
        return Err(format!("the function received {seen:?}, written were {vals:?}"));
    }
    if !same(v, weigh(&vals)) {
        return Err(format!("value {v:?}, the function returned {:?}", weigh(&vals)));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ P16

/// Names between backticks.
fn backticked(t: &str) -> BTreeSet<String> {
    t.split('`').skip(1).step_by(2).filter(|n| !n.is_empty()).map(str::to_owned).collect()
}

pub fn p16(s: &mut Src, case: &mut Case) -> R<()> {
    unleak();
    s.hold(2, 5);
    let g = gen_ctx(s, CTX_ANY);
    let rc = g.refctx();
    let names = gen_vars(s, &rc, 8);
    let text = if s.chance(1, 6) {
        crate::lang::gen_text(s, case, &rc)
    } else {
        let o = GenOpts { fuel: 30, ..GenOpts::default() };
        let a = Gen::new(s, o, &rc, names.clone()).top();
        render(&a, ORDER, s)
    };
    s.release();
    let free = parser(&g);
    let x = parse(&free, &text)?;
    // a declared set: subset, superset, overlap with constants, functions and built-ins
    let mut set: BTreeSet<&'static str> = BTreeSet::new();
    let needed: BTreeSet<String> = match &x {
        Ok(x) => vars(x),
        Err(_) => names.iter().cloned().collect(),
    };
    let mode = s.below(4);
    let more: Vec<&'static str> = needed
        .iter()
        .filter(|v| !VARS.contains(&v.as_str()))
        .map(|v| leak(v.clone()))
        .collect();
    for v in VARS.iter().chain(&more) {
        let take = match mode {
            // exactly the needed ones, or all but one, or any
            0 => needed.contains(*v),
            1 => needed.contains(*v) && !s.chance(1, 6),
            2 => needed.contains(*v) || s.chance(1, 8),
            _ => s.chance(1, 2),
        };
        if take {
            set.insert(v);
        }
    }
    for n in ["sin", "pi", "k", "one", "e", "max", "dbl"] {
        if s.chance(1, 8) {
            set.insert(n);
        }
    }
    if s.chance(1, 16) {
        set.clear();
    }
    case.note(format!("context {}; text {}; declared {:?}", g.show(), quote(&text), set));
    let hs: std::collections::HashSet<&'static str> = set.iter().copied().collect();
    let ctx = match s.below(5) {
        0 => context(&g).with_expected_vars(hs),
        3 | 4 => {
            // all symbols at once, before or after, over others
            let mut symbols: HashMap<&'static str, Symbol> = HashMap::new();
            for d in &g.defs {
                match d {
                    Def::Const(n, v) => symbols.insert(n, (*v).into()),
                    Def::Fn(f) => symbols.insert(USER_FNS[*f].name, user_fn(*f).into()),
                };
            }
            let mut c = Context::default();
            if s.chance(1, 2) {
                c.set_var("forgotten", 1.0);
            }
            if s.chance(2, 3) {
                c.with_expected_vars(hs).with_symbols(symbols)
            } else {
                c.with_symbols(symbols).with_expected_vars(hs)
            }
        }
        1 => {
            let mut c = context(&g);
            c.set_expected_vars(["only_this"].into());
            c.set_expected_vars(hs);
            c
        }
        _ => {
            // declared first, symbols later
            let mut c = Context::default().with_expected_vars(hs);
            for d in &g.defs {
                match d {
                    Def::Const(n, v) => c.set_var(n, *v),
                    Def::Fn(f) => c.set_fn(user_fn(*f)),
                }
            }
            c
        }
    };
    let p = Parser::new_with_ctx(ctx);
    let got_set = p.ctx().get_expected_vars().map(|h| h.iter().map(|v| (*v).to_owned()).collect::<BTreeSet<_>>());
    let want_set: BTreeSet<String> = set.iter().map(|v| (*v).to_owned()).collect();
    if got_set.as_ref() != Some(&want_set) {
        return Err(format!("declared {want_set:?}, the context says {got_set:?}"));
    }
    case.eval();
    let r = parse(&p, &text)?;
    match (x, r) {
        (Err(_), Err(_)) => {
            case.class("rejected anyway");
            Ok(())
        }
        (Err(e), Ok(_)) => Err(format!("accepted with declared variables, rejected without ({})", err_msg(&e)?)),
        (Ok(x), r) => {
            let used = vars(&x);
            let outside: BTreeSet<String> = used.difference(&want_set).cloned().collect();
            case.nontrivial(&format!("{text}{set:?}"));
            match r {
                Ok(y) => {
                    if !outside.is_empty() {
                        return Err(format!("accepted although {outside:?} are not declared"));
                    }
                    case.class(if set.is_empty() { "accepted, none declared" } else { "accepted" });
                    if display(&x)? != display(&y)? || vars(&y) != used {
                        return Err(format!("{} with declared variables, {} without", display(&y)?, display(&x)?));
                    }
                    let env = full_env(s, &used, true);
                    let (a, b) = (must_eval(&x, &env)?, must_eval(&y, &env)?);
                    if !same(a, b) {
                        return Err(format!("{b:?} with declared variables, {a:?} without"));
                    }
                    Ok(())
                }
                Err(e) => {
                    let i = err_info(&e, text.len())?;
                    if outside.is_empty() {
                        return Err(format!("rejected ({}) although {used:?} are all declared", i.msg));
                    }
                    case.class("rejected");
                    let named = backticked(&i.msg);
                    if named.len() != 1 || !named.is_subset(&outside) {
                        return Err(format!("message {:?} names none of {outside:?}", i.msg));
                    }
                    let h = i.help.unwrap_or_default();
                    if backticked(&h) != want_set {
                        return Err(format!("help {h:?} does not list the declared {want_set:?}"));
                    }
                    render_report(e)?;
                    Ok(())
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------ P17

const PARAMS: [&str; 9] = ["x", "y", "z", "a", "p_1", "Q", "t'", "w", "vv"];

/// Texts and lists of names that outlive the expressions of a case.
struct Leaked {
    texts: Vec<*mut str>,
    lists: Vec<*mut [&'static str]>,
}

thread_local! {
    static KEPT: std::cell::RefCell<Leaked> = const { std::cell::RefCell::new(Leaked { texts: Vec::new(), lists: Vec::new() }) };
}

fn leak(t: String) -> &'static str {
    let p = Box::into_raw(t.into_boxed_str());
    KEPT.with_borrow_mut(|k| k.texts.push(p));
    // released by `unleak`, when everything of the case has been dropped
    unsafe { &*p }
}

fn leak_list(l: Vec<&'static str>) -> &'static [&'static str] {
    let p = Box::into_raw(l.into_boxed_slice());
    KEPT.with_borrow_mut(|k| k.lists.push(p));
    unsafe { &*p }
}

/// Releases what the previous case kept.
fn unleak() {
    KEPT.with_borrow_mut(|k| {
        for p in k.lists.drain(..) {
            drop(unsafe { Box::from_raw(p) });
        }
        for p in k.texts.drain(..) {
            drop(unsafe { Box::from_raw(p) });
        }
    });
}

struct HDef {
    /// index into HNAMES
    id: usize,
    params: Vec<&'static str>,
    body: Ast,
}

/// Replaces calls of expression functions by their bodies.
/// `None` if the result would be larger than about `room` nodes.
fn expand(a: &Ast, defs: &[HDef], room: &mut usize) -> Option<Ast> {
    Some(match a {
        Ast::Call(FnRef::H(i), args) => {
            let def = defs.iter().find(|d| d.id == *i).expect("defined");
            let mut map: BTreeMap<String, Ast> = BTreeMap::new();
            let mut size = def.body.size();
            for (p, x) in def.params.iter().zip(args) {
                let arg = expand(x, defs, room)?;
                size += arg.size() * occurrences(&def.body, p);
                map.insert((*p).to_owned(), arg);
            }
            *room = room.checked_sub(size)?;
            def.body.subst(&map)
        }
        Ast::Call(f, args) => {
            Ast::Call(*f, args.iter().map(|x| expand(x, defs, room)).collect::<Option<Vec<_>>>()?)
        }
        Ast::Pos(x) => Ast::Pos(Box::new(expand(x, defs, room)?)),
        Ast::Neg(x) => neg(expand(x, defs, room)?),
        Ast::Fact(x) => Ast::Fact(Box::new(expand(x, defs, room)?)),
        Ast::Bin(op, x, y) => bin(*op, expand(x, defs, room)?, expand(y, defs, room)?),
        o => o.clone(),
    })
}

fn occurrences(a: &Ast, name: &str) -> usize {
    match a {
        Ast::Var(v) => usize::from(v == name),
        Ast::Call(_, args) => args.iter().map(|x| occurrences(x, name)).sum(),
        Ast::Pos(x) | Ast::Neg(x) | Ast::Fact(x) => occurrences(x, name),
        Ast::Bin(_, x, y) => occurrences(x, name) + occurrences(y, name),
        _ => 0,
    }
}

/// An expression over `vars` that calls already defined functions.
fn p17_expr(s: &mut Src, rc: &RefCtx, vars: &[&'static str], defs: &[HDef], calls: usize, fuel: usize) -> Ast {
    let o = GenOpts { fuel, max_depth: 4, shapes: false, patterns: 8, ..GenOpts::default() };
    let base: Vec<String> = if vars.is_empty() {
        vec!["free".to_owned()]
    } else {
        vars.iter().map(|v| (*v).to_owned()).collect()
    };
    let mut with = base.clone();
    for k in 0..calls {
        with.push(format!("call{k}"));
        with.push(format!("call{k}"));
    }
    let mut a = Gen::new(s, o, rc, with).top();
    let mut map = BTreeMap::new();
    for k in 0..calls {
        let i = s.below(defs.len());
        let args: Vec<Ast> = defs[i]
            .params
            .iter()
            .map(|_| Gen::new(s, GenOpts { fuel: 5, max_depth: 2, ..o }, rc, base.clone()).top())
            .collect();
        let mut call = Ast::Call(FnRef::H(defs[i].id), args);
        if s.chance(1, 4) {
            // the same function applied to its own result
            let mut args: Vec<Ast> = (1..defs[i].params.len()).map(|_| Ast::Var(base[0].clone())).collect();
            args.insert(s.below(args.len() + 1), call);
            call = Ast::Call(FnRef::H(defs[i].id), args);
        }
        map.insert(format!("call{k}"), call);
    }
    if calls > 0 && !a.any(&|n| matches!(n, Ast::Var(v) if v.starts_with("call"))) {
        a = bin(*s.pick(&[Op::Add, Op::Sub, Op::Mul]), a, Ast::Var("call0".into()));
    }
    hide_shadowed(&a.subst(&map), defs)
}

/// A small expression that calls the last definition once.
fn p17_link(s: &mut Src, vars: &[&'static str], last: Option<&HDef>) -> Ast {
    let v = |s: &mut Src| Ast::Var((*s.pick(vars)).to_owned());
    let inner = match last {
        None => v(s),
        Some(d) => {
            let args = d.params.iter().map(|_| {
                let x = v(s);
                if s.chance(1, 2) { x } else { bin(*s.pick(&[Op::Add, Op::Sub, Op::Mul]), x, Ast::Lit("0.5".to_owned())) }
            });
            let args = args.collect();
            Ast::Call(FnRef::H(d.id), args)
        }
    };
    let l = Ast::Lit((*s.pick(&["1", "2", "0.5", "3"])).to_owned());
    match s.below(4) {
        0 => bin(Op::Add, inner, l),
        1 => bin(Op::Sub, v(s), inner),
        2 => bin(Op::Mul, l, inner),
        _ => bin(Op::Div, inner, l),
    }
}

/// Calls of built-ins whose name has been given to a definition become calls of that definition.
fn hide_shadowed(a: &Ast, defs: &[HDef]) -> Ast {
    let go = |x: &Ast| hide_shadowed(x, defs);
    match a {
        Ast::Call(f, args) => {
            let mut args: Vec<Ast> = args.iter().map(go).collect();
            match defs.iter().find(|d| matches!(f, FnRef::B(_)) && HNAMES[d.id] == f.name()) {
                None => Ast::Call(*f, args),
                Some(d) => {
                    args.resize(d.params.len(), Ast::Lit("2".to_owned()));
                    Ast::Call(FnRef::H(d.id), args)
                }
            }
        }
        Ast::Pos(x) => Ast::Pos(Box::new(go(x))),
        Ast::Neg(x) => neg(go(x)),
        Ast::Fact(x) => Ast::Fact(Box::new(go(x))),
        Ast::Bin(op, x, y) => bin(*op, go(x), go(y)),
        o => o.clone(),
    }
}

pub fn p17(s: &mut Src, case: &mut Case) -> R<()> {
    unleak();
    let rc = RefCtx::default();
    // a few definitions, or a long chain of small ones
    let deep = s.chance(1, 6);
    let n = if deep { s.size(5, 24, 40) } else { s.range(1, 4) };
    let mut defs: Vec<HDef> = Vec::new();
    let mut ctx: Context<'static> = Context::default();
    let mut ids: Vec<usize> = Vec::new();
    while ids.len() < n {
        let i = s.below(HNAMES.len());
        ids.push((i..).map(|i| i % HNAMES.len()).find(|i| !ids.contains(i)).expect("enough names"));
    }
    for i in 0..n {
        let k = if s.chance(1, 3) { 1 } else { s.range(1, if deep { 3 } else { 9 }) };
        let mut params: Vec<&'static str> = PARAMS.to_vec();
        shuffle(&mut params, s);
        params.truncate(k);
        let calls = if defs.is_empty() { 0 } else { s.below(3) };
        let mut gen = if deep {
            p17_link(s, &params, defs.last())
        } else {
            p17_expr(s, &rc, &params, &defs, calls, 12)
        };
        if !deep && s.chance(1, 2) {
            // every parameter with its own weight
            for (j, p) in params.iter().enumerate() {
                let t = bin(Op::Mul, Ast::Lit((j + 2).to_string()), Ast::Var((*p).to_owned()));
                gen = bin(Op::Add, gen, t);
            }
        }
        let body = match expand(&gen.norm(), &defs, &mut 8000) {
            Some(body) if body.size() <= 4000 => body,
            _ => {
                gen = Ast::Var(params[0].to_owned());
                gen.clone()
            }
        };
        let text: &'static str = leak(render(&gen, ORDER, s));
        let name = HNAMES[ids[i]];
        case.note(format!("{name}({}) = {}", params.join(","), quote(text)));
        // a parser that lives only for this definition
        let p = Parser::new_with_ctx(ctx.clone());
        let x: Xprs<'static> = must_parse(&p, text)?;
        drop(p);
        let q = |j: usize| params[j];
        let bad = |e: BindError| format!("binding {:?} of {} failed: {e}", params, quote(text));
        let way = s.below(3);
        let f: Function = if way == 1 {
            let list = leak_list(params.clone());
            let b = sut("bind_n_runtime", || x.bind_n_runtime(list))?.map_err(bad)?;
            Function::new_dyn(name, move |a| b(a).unwrap(), Some(k as u8))
        } else {
            match k {
                1 => {
                    let b = sut("bind", || x.bind(q(0)))?.map_err(bad)?;
                    xprs_fn!(name, dyn b, 1)
                }
                2 => {
                    let b = sut("bind2", || x.bind2(q(0), q(1)))?.map_err(bad)?;
                    xprs_fn!(name, dyn b, 2)
                }
                3 => {
                    let b = sut("bind3", || x.bind3(q(0), q(1), q(2)))?.map_err(bad)?;
                    xprs_fn!(name, dyn b, 3)
                }
                4 => {
                    let b = sut("bind4", || x.bind4(q(0), q(1), q(2), q(3)))?.map_err(bad)?;
                    xprs_fn!(name, dyn b, 4)
                }
                5 => {
                    let b = sut("bind5", || x.bind5(q(0), q(1), q(2), q(3), q(4)))?.map_err(bad)?;
                    xprs_fn!(name, dyn b, 5)
                }
                6 => {
                    let b = sut("bind6", || x.bind6(q(0), q(1), q(2), q(3), q(4), q(5)))?.map_err(bad)?;
                    xprs_fn!(name, dyn b, 6)
                }
                7 => {
                    let b = sut("bind7", || x.bind7(q(0), q(1), q(2), q(3), q(4), q(5), q(6)))?.map_err(bad)?;
                    xprs_fn!(name, dyn b, 7)
                }
                8 => {
                    let b = sut("bind8", || x.bind8(q(0), q(1), q(2), q(3), q(4), q(5), q(6), q(7)))?
                        .map_err(bad)?;
                    xprs_fn!(name, dyn b, 8)
                }
                _ => {
                    let b = sut("bind9", || {
                        x.bind9(q(0), q(1), q(2), q(3), q(4), q(5), q(6), q(7), q(8))
                    })?
                    .map_err(bad)?;
                    xprs_fn!(name, dyn b, 9)
                }
            }
        };
        ctx.set_fn(f);
        defs.push(HDef { id: ids[i], params, body });
    }
    let outer = ["x", "m", "n1"];
    let calls = s.range(1, 3);
    let mut gen = p17_expr(s, &rc, &outer, &defs, calls, 12);
    if s.chance(1, 16) {
        // called in many places
        for _ in 0..s.size(20, 150, 300) {
            let d = &defs[s.below(defs.len())];
            if !deep || gen.size() < 400 {
                gen = bin(*s.pick(&[Op::Add, Op::Sub]), gen, p17_link(s, &outer, Some(d)));
            }
        }
        case.class("many calls");
    }
    if deep {
        gen = bin(Op::Sub, p17_link(s, &outer, defs.last()), gen);
        case.class("long chain");
    }
    let ast = match expand(&gen.norm(), &defs, &mut 40_000) {
        Some(ast) if ast.size() <= 20_000 => ast,
        _ => return Ok(()),
    };
    let text = render(&gen, ORDER, s);
    case.note(format!("text {}", quote(&text)));
    case.nontrivial(&case.shown());
    case.class(match n {
        1 => "1 definition",
        2 => "2 definitions",
        _ => ">2 definitions",
    });
    let p = Parser::new_with_ctx(ctx);
    let x = must_parse(&p, &text)?;
    let mut names = ast.vars();
    names.extend(vars(&x));
    let env = full_env(s, &names, true);
    let env2 = full_env(s, &names, false);
    let mut before = Vec::new();
    for e in [&env, &env2] {
        let mut reg = Reg::default();
        let want = ast.eval_reg(e, &mut reg).unwrap();
        let got = must_eval(&x, e)?;
        case.eval();
        // a call that drops a parameter is not constant as written, only once expanded
        let counts =
            if OPT { reg.regular() && !reg.zero_made_infinity } else { !reg.ambiguous };
        if counts {
            case.class("compared");
            if !same(got, want) {
                return Err(format!(
                    "value {got:?}, with the calls replaced by their bodies {want:?} at {}",
                    show_env(e)
                ));
            }
        }
        before.push(got);
    }
    drop(p);
    // churn, then the same again: the function owns what it needs
    let junk: Vec<String> = (0..8).map(|i| format!("{i}").repeat(40)).collect();
    drop(junk);
    for (e, b) in [&env, &env2].into_iter().zip(&before) {
        let again = must_eval(&x, e)?;
        if canonical_bits(again) != canonical_bits(*b) {
            return Err(format!("{b:?} before, {again:?} after the parser was dropped"));
        }
    }
    if s.chance(1, 24) && ast.size() < 300 {
        case.class("called from several threads");
        let envs: Vec<Env> = (0..4).map(|_| full_env(s, &names, true)).collect();
        let mut alone = Vec::new();
        for e in &envs {
            alone.push(canonical_bits(must_eval(&x, e)?));
        }
        let maps: Vec<HashMap<&str, f64>> =
            envs.iter().map(|e| e.iter().map(|(k, v)| (k.as_str(), *v)).collect()).collect();
        let (x, maps, alone) = (&x, &maps, &alone);
        let failures: Vec<R<()>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..4)
                .map(|th| {
                    sc.spawn(move || {
                        for round in 0..400 {
                            let i = (round / 4 + th) % 4;
                            let v = sut("eval", || x.eval(&maps[i]).map_err(|e| e.to_string()))??;
                            if canonical_bits(v) != alone[i] {
                                return Err(format!(
                                    "at {:?} {v:?} beside other threads, {:?} alone",
                                    maps[i],
                                    f64::from_bits(alone[i])
                                ));
                            }
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        case.evals += 1600;
        failures.into_iter().collect::<R<()>>()?;
    }
    Ok(())
}
