//! P25: equality and ordering of functions, symbols, contexts and parsers.
use crate::sut::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::OnceLock;
use xprs::{Context, Function, Parser, Symbol};
use xvcore::*;

const NAMES: &[&str] = &[
    "f", "g", "F", "f'", "f1", "fa", "fb", "ab", "aB", "abc", "x", "y", "sin", "max", "pi", "e", "z", "f_", "f__",
    "a_name_of_thirty_two_characters_", "a_name_of_thirty_two_characters_1", "a_name_of_thirty_two_characters_2", "", "é",
];

/// The same name at another address.
fn name(s: &mut Src, n: &'static str) -> &'static str {
    static COPIES: OnceLock<HashMap<&'static str, &'static str>> = OnceLock::new();
    if s.chance(1, 2) {
        return n;
    }
    COPIES
        .get_or_init(|| {
            NAMES.iter().chain(fillers()).map(|n| (*n, &*Box::leak(String::from(*n).into_boxed_str()))).collect()
        })
        .get(n)
        .copied()
        .unwrap_or(n)
}

fn fillers() -> &'static [&'static str] {
    static F: OnceLock<Vec<&'static str>> = OnceLock::new();
    F.get_or_init(|| (0..600).map(|i| &*Box::leak(format!("w{i}").into_boxed_str())).collect())
}

fn i0(a: &[f64]) -> f64 {
    a.iter().sum::<f64>() + 0.5
}
fn i1(a: &[f64]) -> f64 {
    a.iter().sum::<f64>() - 1.5
}
fn i2(a: &[f64]) -> f64 {
    a.iter().product::<f64>() + 7.25
}
static STATIC: [fn(&[f64]) -> f64; 3] = [i0, i1, i2];
const IMPS: usize = 9;

/// Implementations: three static ones, then shared closures. The last two behave alike but are two closures, and so are
/// the two without captures.
fn base() -> &'static [Function] {
    static B: OnceLock<Vec<Function>> = OnceLock::new();
    B.get_or_init(|| {
        let mut v: Vec<Function> = STATIC.iter().map(|f| Function::new_static("f", *f, None)).collect();
        for k in [2.0, 3.0, 5.0, 5.0] {
            v.push(Function::new_dyn("f", move |a| a.iter().sum::<f64>() * k, None));
        }
        for _ in 0..2 {
            v.push(Function::new_dyn("f", |a| a.iter().sum::<f64>() + 11.0, None));
        }
        assert_eq!(v.len(), IMPS);
        v
    })
}

#[derive(Clone, Debug, PartialEq)]
struct F {
    name: &'static str,
    nb: Option<u8>,
    imp: usize,
}

#[derive(Clone, Debug, PartialEq)]
enum S {
    C(f64),
    F(F),
}

fn gen_f(s: &mut Src) -> F {
    F { name: *s.pick(NAMES), nb: gen_nb(s), imp: s.below(IMPS) }
}

fn gen_nb(s: &mut Src) -> Option<u8> {
    match s.below(8) {
        0 => None,
        1 => Some(0),
        2 => Some(255),
        3 => Some(s.below(256) as u8),
        _ => Some(s.below(4) as u8),
    }
}

fn edit_f(s: &mut Src, f: &F) -> F {
    let mut g = f.clone();
    match s.below(4) {
        0 => g.name = *s.pick(NAMES),
        1 => g.nb = gen_nb(s),
        2 => g.imp = s.below(IMPS),
        _ => {}
    }
    g
}

fn make(s: &mut Src, f: &F) -> Function {
    let n = name(s, f.name);
    if f.imp < STATIC.len() && s.chance(1, 2) {
        return Function::new_static(n, STATIC[f.imp], f.nb);
    }
    let mut g = base()[f.imp].clone();
    g.name = n;
    g.nb_args = f.nb;
    g
}

fn gen_c(s: &mut Src, nan: bool) -> f64 {
    match s.below(10) {
        0 => 0.0,
        1 => -0.0,
        2 => 1.0,
        3 => -1.0,
        4 => f64::INFINITY,
        5 => f64::NEG_INFINITY,
        6 if nan => f64::NAN,
        7 => 1.0 + f64::EPSILON,
        _ => gen_finite(s),
    }
}

fn gen_s(s: &mut Src, nan: bool) -> S {
    if s.chance(1, 2) {
        S::C(gen_c(s, nan))
    } else {
        S::F(gen_f(s))
    }
}

fn edit_s(s: &mut Src, x: &S, nan: bool) -> S {
    match x {
        S::C(v) => match s.below(6) {
            0 => S::C(-v),
            1 if v.is_finite() => S::C(f64::from_bits(v.to_bits() ^ 1)),
            2 => S::C(gen_c(s, nan)),
            3 => gen_s(s, nan),
            _ => S::C(*v),
        },
        S::F(f) => {
            if s.chance(1, 6) {
                gen_s(s, nan)
            } else {
                S::F(edit_f(s, f))
            }
        }
    }
}

fn symbol(s: &mut Src, x: &S) -> Symbol {
    match x {
        S::C(v) => Symbol::from(*v),
        S::F(f) => make(s, f).into(),
    }
}

/// What a comparison of two symbols has to be. `Err` when only "not equal" is known.
fn want(a: &S, b: &S) -> Result<Option<Ordering>, ()> {
    match (a, b) {
        (S::C(x), S::C(y)) => Ok(x.partial_cmp(y)),
        (S::F(f), S::F(g)) if f.name != g.name => Ok(Some(f.name.cmp(g.name))),
        (S::F(f), S::F(g)) if f == g => Ok(Some(Ordering::Equal)),
        _ => Err(()),
    }
}

fn compare<T: PartialEq + PartialOrd + Clone>(xs: &[T], ms: &[S], case: &mut Case) -> R<()> {
    let n = xs.len();
    let mut o = vec![vec![None; n]; n];
    for i in 0..n {
        for j in 0..n {
            case.eval();
            let (x, y) = (&xs[i], &xs[j]);
            let (eq, ne, ord) = sut("comparison", || (x == y, x != y, x.partial_cmp(y)))?;
            let (lt, le, gt, ge) = sut("comparison", || (x < y, x <= y, x > y, x >= y))?;
            let what = || format!("{:?} and {:?}", ms[i], ms[j]);
            let w = want(&ms[i], &ms[j]);
            if eq != (w == Ok(Some(Ordering::Equal))) {
                return Err(format!("{} compare equal: {eq}", what()));
            }
            if ne == eq {
                return Err(format!("{}: both == and != are {eq}", what()));
            }
            if eq != (ord == Some(Ordering::Equal)) {
                return Err(format!("{} compare equal: {eq}, but order as {ord:?}", what()));
            }
            if let Ok(w) = w {
                if ord != w {
                    return Err(format!("{} order as {ord:?}, expected {w:?}", what()));
                }
            }
            let by_ord = (
                ord == Some(Ordering::Less),
                matches!(ord, Some(Ordering::Less | Ordering::Equal)),
                ord == Some(Ordering::Greater),
                matches!(ord, Some(Ordering::Greater | Ordering::Equal)),
            );
            if (lt, le, gt, ge) != by_ord {
                return Err(format!("{} order as {ord:?}, the operators say {:?}", what(), (lt, le, gt, ge)));
            }
            case.class(if eq { "equal pair" } else { "unequal pair" });
            o[i][j] = ord;
        }
        let c = sut("clone", || xs[i].clone())?;
        let reflexive = !matches!(ms[i], S::C(v) if v.is_nan());
        if sut("comparison", || c == xs[i])? != reflexive {
            return Err(format!("a clone of {:?} compares equal: {}", ms[i], !reflexive));
        }
    }
    for i in 0..n {
        for j in 0..n {
            if o[i][j] != o[j][i].map(Ordering::reverse) {
                return Err(format!("{:?} and {:?} order as {:?} and {:?}", ms[i], ms[j], o[i][j], o[j][i]));
            }
            for k in 0..n {
                if o[i][j].is_some() && o[i][j] == o[j][k] && o[i][k] != o[i][j] {
                    return Err(format!("the order of {:?}, {:?} and {:?} is not transitive", ms[i], ms[j], ms[k]));
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Default)]
struct Model {
    syms: BTreeMap<&'static str, S>,
    expected: Option<BTreeSet<&'static str>>,
}

impl Model {
    fn same(&self, o: &Model) -> bool {
        self.expected == o.expected
            && self.syms.len() == o.syms.len()
            && self.syms.iter().all(|(n, a)| o.syms.get(n).is_some_and(|b| want(a, b) == Ok(Some(Ordering::Equal))))
    }
    fn nan(&self) -> bool {
        self.syms.values().any(|x| matches!(x, S::C(v) if v.is_nan()))
    }
}

/// Defines one name; a function under a name of its own choosing replaces what the model has there.
fn define(s: &mut Src, c: Context<'static>, n: &'static str, x: &S) -> Context<'static> {
    let key = name(s, n);
    let mut c = c;
    match x {
        S::C(v) if s.chance(1, 2) => c.with_var(key, *v),
        S::C(v) => {
            c.set_var(key, *v);
            c
        }
        S::F(f) => {
            let g = make(s, f);
            if s.chance(1, 2) {
                c.with_fn(g)
            } else {
                c.set_fn(g);
                c
            }
        }
    }
}

fn names(s: &mut Src, e: &BTreeSet<&'static str>) -> HashSet<&'static str> {
    e.iter().map(|n| name(s, n)).collect()
}

/// A context with the definitions of the model, by one of many histories.
fn build(s: &mut Src, m: &Model) -> Context<'static> {
    let mut c = Context::default();
    let mut order: Vec<(&'static str, &S)> = m.syms.iter().map(|(n, x)| (*n, x)).collect();
    // functions kept under another name can only come in one piece
    let odd = order.iter().any(|(n, x)| matches!(x, S::F(f) if f.name != *n));
    for i in (1..order.len().min(12)).rev() {
        let j = s.below(i + 1);
        order.swap(i, j);
    }
    if order.len() > 12 && s.chance(1, 2) {
        order.reverse();
    }
    let expected_first = s.chance(1, 2);
    let expect = |s: &mut Src, mut c: Context<'static>| {
        let Some(e) = &m.expected else { return c };
        if s.chance(1, 4) {
            c.set_expected_vars(["x", "other"].into());
        }
        if s.chance(1, 2) {
            c.with_expected_vars(names(s, e))
        } else {
            c.set_expected_vars(names(s, e));
            c
        }
    };
    if expected_first {
        c = expect(s, c);
    }
    if odd || s.chance(1, 3) {
        if s.chance(1, 2) {
            // forgotten
            let n = *s.pick(NAMES);
            c.set_var(n, 4.0);
        }
        let all: HashMap<&'static str, Symbol> = order
            .iter()
            .map(|(n, x)| {
                let v = symbol(s, x);
                (name(s, n), v)
            })
            .collect();
        c = c.with_symbols(all);
    } else {
        for (n, x) in &order {
            if s.chance(1, 3) {
                // overwritten
                let old = match gen_s(s, true) {
                    S::F(f) => S::F(F { name: n, ..f }),
                    v => v,
                };
                c = define(s, c, n, &old);
            }
            c = define(s, c, n, x);
            if s.chance(1, 8) {
                c = sut("clone", || c.clone()).unwrap_or_default();
            }
        }
    }
    if !expected_first {
        c = expect(s, c);
    }
    c
}

fn gen_model(s: &mut Src) -> Model {
    let mut m = Model::default();
    let nan = s.chance(1, 8);
    let odd = s.chance(1, 6);
    for _ in 0..s.below(6) {
        let n = *s.pick(NAMES);
        let x = match gen_s(s, nan) {
            S::F(f) if !odd => S::F(F { name: n, ..f }),
            x => x,
        };
        m.syms.insert(n, x);
    }
    if s.chance(1, 30) {
        let k = s.size(8, 60, fillers().len());
        for (i, n) in fillers()[..k].iter().enumerate() {
            m.syms.insert(n, if i % 5 == 4 { S::F(F { name: n, nb: Some(1), imp: i % IMPS }) } else { S::C(i as f64) });
        }
    }
    if s.chance(1, 3) {
        m.expected = Some((0..s.below(5)).map(|_| *s.pick(NAMES)).collect());
        if s.chance(1, 20) {
            let k = s.size(8, 60, fillers().len());
            m.expected.as_mut().unwrap().extend(&fillers()[..k]);
        }
    }
    m
}

fn edit_model(s: &mut Src, m: &Model) -> Model {
    let mut e = m.clone();
    let some = |s: &mut Src, m: &Model| -> Option<&'static str> {
        let k: Vec<&'static str> = m.syms.keys().copied().collect();
        if k.is_empty() { None } else { Some(*s.pick(&k)) }
    };
    match s.below(10) {
        0 => {
            let n = *s.pick(NAMES);
            e.syms.insert(n, S::C(gen_c(s, false)));
        }
        1 => {
            if let Some(n) = some(s, m) {
                e.syms.remove(n);
            }
        }
        2 | 3 | 4 => {
            if let Some(n) = some(s, m) {
                let x = edit_s(s, &m.syms[n], false);
                let x = match x {
                    // keys follow names
                    S::F(f) if matches!(&m.syms[n], S::F(g) if g.name != n) => S::F(f),
                    S::F(f) => S::F(F { name: n, ..f }),
                    x => x,
                };
                e.syms.insert(n, x);
            }
        }
        5 => {
            // two names trade places
            if let (Some(a), Some(b)) = (some(s, m), some(s, m)) {
                e.syms.insert(a, m.syms[b].clone());
                e.syms.insert(b, m.syms[a].clone());
            }
        }
        6 => e.expected = if m.expected.is_some() { None } else { Some(BTreeSet::new()) },
        7 => {
            let x = e.expected.get_or_insert_with(BTreeSet::new);
            let n = *s.pick(NAMES);
            if !x.remove(n) {
                x.insert(n);
            }
        }
        _ => {}
    }
    e
}

pub fn p25(s: &mut Src, case: &mut Case) -> R<()> {
    match s.below(3) {
        0 => {
            let mut ms = vec![S::F(gen_f(s))];
            for _ in 1..s.range(2, 5) {
                let i = s.below(ms.len());
                let S::F(f) = ms[i].clone() else { unreachable!() };
                let f = if s.chance(1, 4) { gen_f(s) } else { edit_f(s, &f) };
                ms.push(S::F(f));
            }
            case.note(format!("functions {ms:?}"));
            case.class("functions");
            if ms.iter().any(|m| *m != ms[0]) {
                case.nontrivial(&format!("{ms:?}"));
            }
            let xs: Vec<Function> = ms
                .iter()
                .map(|m| {
                    let S::F(f) = m else { unreachable!() };
                    make(s, f)
                })
                .collect();
            compare(&xs, &ms, case)
        }
        1 => {
            let nan = s.chance(1, 3);
            let mut ms = vec![gen_s(s, nan)];
            for _ in 1..s.range(2, 5) {
                let i = s.below(ms.len());
                let m = ms[i].clone();
                ms.push(if s.chance(1, 4) { gen_s(s, nan) } else { edit_s(s, &m, nan) });
            }
            case.note(format!("symbols {ms:?}"));
            case.class("symbols");
            if ms.iter().any(|m| *m != ms[0]) {
                case.nontrivial(&format!("{ms:?}"));
            }
            let xs: Vec<Symbol> = ms.iter().map(|m| symbol(s, m)).collect();
            compare(&xs, &ms, case)
        }
        _ => contexts(s, case),
    }
}

fn contexts(s: &mut Src, case: &mut Case) -> R<()> {
    let mut ms = vec![gen_model(s)];
    for _ in 1..s.range(2, 4) {
        let i = s.below(ms.len());
        let m = ms[i].clone();
        ms.push(edit_model(s, &m));
    }
    case.note(format!("contexts {ms:?}"));
    case.class("contexts");
    if ms.iter().any(|m| !m.syms.is_empty()) {
        case.nontrivial(&format!("{ms:?}"));
    }
    let cs: Vec<Context<'static>> = ms.iter().map(|m| build(s, m)).collect();
    for i in 0..cs.len() {
        for j in 0..cs.len() {
            case.eval();
            let w = ms[i].same(&ms[j]);
            case.class(if w { "equal pair" } else { "unequal pair" });
            let (eq, ne) = sut("comparison", || (cs[i] == cs[j], cs[i] != cs[j]))?;
            if eq != w || ne == w {
                return Err(format!("contexts {:?} and {:?}: == is {eq}, != is {ne}", ms[i], ms[j]));
            }
            let (p, q) = (Parser::new_with_ctx(cs[i].clone()), Parser::new_with_ctx(cs[j].clone()));
            if sut("comparison", || p == q)? != w {
                return Err(format!("parsers with {:?} and {:?} compare equal: {}", ms[i], ms[j], !w));
            }
            if w && i < j {
                // equal parsers are interchangeable
                let text = gen_text(s, &ms[i]);
                let (a, b) = (parse(&p, &text)?, parse(&q, &text)?);
                let same = match (&a, &b) {
                    (Ok(x), Ok(y)) => x == y || display(x)?.contains("NaN"),
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                if !same {
                    return Err(format!("equal parsers, but {} gives {a:?} and {b:?} with {:?}", quote(&text), ms[i]));
                }
                case.class("same text by equal parsers");
            }
        }
        let c = sut("clone", || cs[i].clone())?;
        let want = !ms[i].nan();
        if sut("comparison", || c == cs[i])? != want {
            return Err(format!("a clone of {:?} compares equal: {}", ms[i], !want));
        }
        if want {
            // a clone that is changed differs, and does not when changed back
            let n = *s.pick(NAMES);
            let mut c = c;
            c.set_var(n, 123.25);
            let kept = matches!(ms[i].syms.get(n), Some(S::C(v)) if *v == 123.25);
            if sut("comparison", || c == cs[i])? != kept {
                return Err(format!("a clone of {:?} with {n:?} redefined compares equal: {}", ms[i], !kept));
            }
            if let Some(x) = ms[i].syms.get(n).filter(|x| !matches!(x, S::F(f) if f.name != n)) {
                c = define(s, c, n, x);
                if !sut("comparison", || c == cs[i])? {
                    return Err(format!("a clone of {:?} with {n:?} redefined and set back is unequal", ms[i]));
                }
            }
        }
    }
    Ok(())
}

fn gen_text(s: &mut Src, m: &Model) -> String {
    let known: Vec<&'static str> = m.syms.keys().copied().collect();
    let n = if known.is_empty() || s.chance(1, 4) { *s.pick(NAMES) } else { *s.pick(&known) };
    match s.below(5) {
        0 => format!("{n} + 1"),
        1 => format!("{n}(1)"),
        2 => format!("{n}(1, 2) - {n}(2, 1)"),
        3 => format!("{n}(y)"),
        _ => n.to_owned(),
    }
}
