//! Name pools and the reference table of built-in functions.

/// Variable names: short, long, prefixed or cased like built-ins, with digits, `_` and `'`.
pub const VARS: &[&str] = &[
    "x", "y", "z", "a", "b", "c", "t", "u", "v", "w", "foo", "X", "Y1", "x'", "a_b", "bar2", "Z'",
    "e1", "E2", "e_", "pi2", "pI", "si", "sinx", "Sin", "xe", "expo", "maxx", "mi", "x1e5", "q_",
    "l", "lnn", "gam", "factorials", "zz'_9", "B", "Alpha", "omega", "kk",
    "a_rather_long_variable_name_that_goes_on_and_on_for_a_while_0123456789",
    // names that mean something elsewhere
    "inf", "nan", "NaN", "i", "j", "tau", "phi", "PI", "Pi", "E", "EXP", "log2", "log10", "lg", "exp2", "pow", "mod",
    "div", "and", "or", "not", "if", "deg", "rad", "sgn", "sign", "sec", "cot", "csc", "avg", "inv", "true", "false",
    "e'", "pi'", "infinity", "SIN", "arcsin", "ans", "rand", "fact", "root", "sqr", "ncr", "len", "d", "D", "exit",
    "quit", "help", "let", "f64", "x_1", "NAN",
];

/// Reference behaviour of a built-in.
#[derive(Clone, Copy)]
pub enum BI {
    F1(fn(f64) -> f64),
    F2(fn(f64, f64) -> f64),
    V(fn(&[f64]) -> f64),
}

#[derive(Clone, Copy)]
pub struct Builtin {
    pub name: &'static str,
    /// the name shown by Display
    pub shown: &'static str,
    pub imp: BI,
}

impl Builtin {
    pub fn arity(&self) -> Option<usize> {
        match self.imp {
            BI::F1(_) => Some(1),
            BI::F2(_) => Some(2),
            BI::V(_) => None,
        }
    }
    pub fn call(&self, a: &[f64]) -> f64 {
        match self.imp {
            BI::F1(f) => f(a[0]),
            BI::F2(f) => f(a[0], a[1]),
            BI::V(f) => f(a),
        }
    }
}

extern "C" {
    fn tgamma(x: f64) -> f64;
}
fn gamma(x: f64) -> f64 {
    unsafe { tgamma(x) }
}

/// n! as the product 1*2*...*n in double precision.
pub fn factorial(x: f64) -> f64 {
    if x.is_nan() || x < 0.0 {
        return f64::NAN;
    }
    if x.is_infinite() || x > 170.0 && x.fract() == 0.0 {
        return f64::INFINITY;
    }
    if x.fract() != 0.0 {
        return f64::NAN;
    }
    fact_table()[x as usize]
}

fn fact_table() -> &'static [f64] {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<f64>> = OnceLock::new();
    T.get_or_init(|| {
        let mut p = 1.0;
        let mut t = vec![p];
        for n in 1..=170 {
            p *= f64::from(n);
            t.push(p);
        }
        t
    })
}

fn sum(a: &[f64]) -> f64 {
    a.iter().fold(0.0, |s, x| s + x)
}
fn mean(a: &[f64]) -> f64 {
    sum(a) / a.len() as f64
}
fn min(a: &[f64]) -> f64 {
    let mut m = f64::INFINITY;
    for &x in a {
        if x < m {
            m = x;
        }
    }
    m
}
fn max(a: &[f64]) -> f64 {
    let mut m = f64::NEG_INFINITY;
    for &x in a {
        if x > m {
            m = x;
        }
    }
    m
}
fn fract(x: f64) -> f64 {
    x - x.trunc()
}
fn recip(x: f64) -> f64 {
    1.0 / x
}

macro_rules! bi {
    ($n:literal, $k:ident, $f:expr) => {
        Builtin { name: $n, shown: $n, imp: BI::$k($f) }
    };
    ($n:literal as $s:literal, $k:ident, $f:expr) => {
        Builtin { name: $n, shown: $s, imp: BI::$k($f) }
    };
}

pub const BUILTINS: &[Builtin] = &[
    bi!("abs", F1, f64::abs),
    bi!("sin", F1, f64::sin),
    bi!("max", V, max),
    bi!("floor", F1, f64::floor),
    bi!("sum", V, sum),
    bi!("atan2", F2, f64::atan2),
    bi!("cos", F1, f64::cos),
    bi!("tan", F1, f64::tan),
    bi!("asin", F1, f64::asin),
    bi!("acos", F1, f64::acos),
    bi!("atan", F1, f64::atan),
    bi!("sinh", F1, f64::sinh),
    bi!("cosh", F1, f64::cosh),
    bi!("tanh", F1, f64::tanh),
    bi!("asinh", F1, f64::asinh),
    bi!("acosh", F1, f64::acosh),
    bi!("atanh", F1, f64::atanh),
    bi!("ln", F1, f64::ln),
    bi!("log", F1, f64::log10),
    bi!("logn", F2, f64::log),
    bi!("sqrt", F1, f64::sqrt),
    bi!("cbrt", F1, f64::cbrt),
    bi!("exp", F1, f64::exp),
    bi!("ceil", F1, f64::ceil),
    bi!("round", F1, f64::round),
    bi!("trunc", F1, f64::trunc),
    bi!("min", V, min),
    bi!("hypot", F2, f64::hypot),
    bi!("fract", F1, fract),
    bi!("recip", F1, recip),
    bi!("invert" as "recip", F1, recip),
    bi!("mean", V, mean),
    bi!("factorial", F1, factorial),
    bi!("gamma", F1, gamma),
];

pub fn builtin(name: &str) -> Option<usize> {
    BUILTINS.iter().position(|b| b.name == name)
}

pub fn constant(name: &str) -> Option<f64> {
    match name {
        "pi" => Some(std::f64::consts::PI),
        "e" => Some(std::f64::consts::E),
        _ => None,
    }
}

/// User functions available to generated contexts.
#[derive(Clone, Copy)]
pub struct UserFn {
    pub name: &'static str,
    pub arity: Option<u8>,
    pub imp: fn(&[f64]) -> f64,
}

fn u_double(a: &[f64]) -> f64 {
    2.0 * a[0]
}
fn u_sub(a: &[f64]) -> f64 {
    a[0] - a[1]
}
fn u_lin3(a: &[f64]) -> f64 {
    a[0] + 10.0 * a[1] + 100.0 * a[2]
}
fn u_poly(a: &[f64]) -> f64 {
    // order sensitive for any number of arguments
    a.iter().fold(1.0, |acc, x| acc * 1.5 + x)
}
fn u_count(a: &[f64]) -> f64 {
    a.len() as f64
}
fn u_four(_: &[f64]) -> f64 {
    4.5
}
fn u_neg_abs(a: &[f64]) -> f64 {
    -a[0].abs()
}
fn u_is_nan(a: &[f64]) -> f64 {
    if a[0].is_nan() {
        1.5
    } else {
        -0.5
    }
}
fn u_half(a: &[f64]) -> f64 {
    a[0] / 2.0
}
fn u_affine(a: &[f64]) -> f64 {
    // neither odd nor even, no fixed point nearby, not its own inverse
    1.25 * a[0] + 0.75
}

/// Names deliberately include built-in names, capitals and a quote.
pub const USER_FNS: &[UserFn] = &[
    UserFn { name: "dbl", arity: Some(1), imp: u_double },
    UserFn { name: "sub", arity: Some(2), imp: u_sub },
    UserFn { name: "Lin3", arity: Some(3), imp: u_lin3 },
    UserFn { name: "poly", arity: None, imp: u_poly },
    UserFn { name: "cnt", arity: None, imp: u_count },
    UserFn { name: "four", arity: Some(0), imp: u_four },
    UserFn { name: "f'", arity: Some(1), imp: u_neg_abs },
    UserFn { name: "sin", arity: Some(2), imp: u_sub },
    UserFn { name: "max", arity: Some(1), imp: u_half },
    UserFn { name: "e", arity: Some(1), imp: u_double },
    UserFn { name: "x", arity: None, imp: u_poly },
    UserFn { name: "sub", arity: Some(1), imp: u_neg_abs },
    UserFn { name: "dbl", arity: None, imp: u_count },
    UserFn { name: "abs2", arity: Some(2), imp: u_sub },
    UserFn { name: "isnan", arity: Some(1), imp: u_is_nan },
    UserFn { name: "sum", arity: None, imp: u_count },
    UserFn { name: "mean", arity: None, imp: u_poly },
    UserFn { name: "min", arity: None, imp: u_count },
    UserFn { name: "sqrt", arity: Some(1), imp: u_is_nan },
    UserFn { name: "atan2", arity: Some(2), imp: u_sub },
    UserFn { name: "ln", arity: Some(1), imp: u_half },
    UserFn { name: "factorial", arity: Some(1), imp: u_neg_abs },
    UserFn { name: "round", arity: Some(1), imp: u_double },
    // under the name and with the arguments of each built-in
    UserFn { name: "tan", arity: Some(1), imp: u_affine },
    UserFn { name: "cos", arity: Some(1), imp: u_affine },
    UserFn { name: "asin", arity: Some(1), imp: u_affine },
    UserFn { name: "acos", arity: Some(1), imp: u_affine },
    UserFn { name: "atan", arity: Some(1), imp: u_affine },
    UserFn { name: "sinh", arity: Some(1), imp: u_affine },
    UserFn { name: "cosh", arity: Some(1), imp: u_affine },
    UserFn { name: "tanh", arity: Some(1), imp: u_affine },
    UserFn { name: "asinh", arity: Some(1), imp: u_affine },
    UserFn { name: "acosh", arity: Some(1), imp: u_affine },
    UserFn { name: "atanh", arity: Some(1), imp: u_affine },
    UserFn { name: "log", arity: Some(1), imp: u_affine },
    UserFn { name: "cbrt", arity: Some(1), imp: u_affine },
    UserFn { name: "exp", arity: Some(1), imp: u_affine },
    UserFn { name: "floor", arity: Some(1), imp: u_affine },
    UserFn { name: "ceil", arity: Some(1), imp: u_affine },
    UserFn { name: "trunc", arity: Some(1), imp: u_affine },
    UserFn { name: "abs", arity: Some(1), imp: u_affine },
    UserFn { name: "fract", arity: Some(1), imp: u_affine },
    UserFn { name: "invert", arity: Some(1), imp: u_affine },
    UserFn { name: "gamma", arity: Some(1), imp: u_affine },
    UserFn { name: "sin", arity: Some(1), imp: u_affine },
    UserFn { name: "logn", arity: Some(2), imp: u_sub },
    UserFn { name: "hypot", arity: Some(2), imp: u_sub },
    UserFn { name: "max", arity: None, imp: u_poly },
];
/// How many of USER_FNS come before those that only stand in for built-ins.
pub const USER_FNS_MIXED: usize = 23;

/// Names for functions made from expressions.
/// Names of functions made from expressions; some are names of built-ins.
pub const HNAMES: &[&str] = &[
    "h0", "f", "g", "hof", "H2", "h'3", "area_of", "h5", "hyp", "F", "fx", "f_2", "double_", "sq", "square", "half_of",
    "mix", "lerp", "poly_3", "id", "neg", "abs", "floor", "ceil", "round", "trunc", "sin", "cos", "tan", "exp", "ln",
    "log", "sqrt", "max", "min", "sum", "recip", "invert", "hypot", "atan2", "factorial", "gamma", "asinh", "mean",
    "a_very_long_function_name_that_goes_on_and_on", "h",
];
