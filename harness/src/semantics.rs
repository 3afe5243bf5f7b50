//! P04, P05, P06, P08, P09, P19: meaning of expression trees.
use crate::sut::*;
use std::collections::{BTreeSet, HashMap};
use xprs::{Function, Parser, Xprs};
use xvcore::*;

// ------------------------------------------------------------------------------------ P04

pub fn p04(s: &mut Src, case: &mut Case) -> R<()> {
    let kind = s.below(6);
    let opts = GenOpts {
        vars: kind != 0,
        need_vars: kind != 0,
        patterns: if kind == 2 { 12 } else { 60 },
        ..GenOpts::default()
    };
    let w = world(s, case, CTX_ANY, opts, 3);
    let p = w.parser();
    let x = must_parse(&p, &w.text)?;
    let d = display(&x)?;
    if !OPT {
        // without the feature nothing may be rewritten at all: same values everywhere
        let names = w.ast.vars();
        for k in 0..2 {
            let env = full_env(s, &names, k == 0);
            check_value(case, "unoptimised value", &x, &w.ast, &env, true)?;
        }
        case.class("build without optimisation");
        if w.ast.size() > 2 {
            case.nontrivial(&w.text);
        }
        return Ok(());
    }
    if !w.ast.has_vars() {
        case.class("constant expression");
        let mut reg = Reg::default();
        let want = w.ast.eval_reg(&Env::new(), &mut reg).unwrap();
        case.eval();
        let v = must_eval(&x, &Env::new())?;
        if !vars(&x).is_empty() {
            return Err(format!("constant expression reports variables {:?}", vars(&x)));
        }
        // a single number is what its display denotes
        if !is_number_display(&d) {
            return Err(format!("constant expression was not reduced to a number but to {}", quote(&d)));
        }
        if !reg.ambiguous && !same(v, want) {
            return Err(format!("constant expression folded to {v:?}, its value is {want:?}"));
        }
        if w.ast.size() > 2 {
            case.nontrivial(&w.text);
        }
        return Ok(());
    }
    let names = w.ast.vars();
    let mut used = 0;
    for _ in 0..4 {
        let env = full_env(s, &names, true);
        if check_value(case, "optimised value", &x, &w.ast, &env, false)? {
            used += 1;
        }
    }
    // values that make sub-expressions zero or one
    for c in [0.0, 1.0, 2.0] {
        let env: Env = names.iter().map(|n| (n.clone(), c)).collect();
        if check_value(case, "optimised value", &x, &w.ast, &env, false)? {
            used += 1;
        }
    }
    if used > 0 {
        case.nontrivial(&w.text);
    } else {
        case.class("no regular point");
    }
    // every constant sub-expression is folded: writing its value instead changes nothing. Both are
    // written with the same parentheses (around every operand): parentheses may add a pass of
    // rewriting
    if let Some(sub) = first_constant_subtree(&w.gen, s) {
        let mut reg = Reg::default();
        let v = sub.norm().eval_reg(&Env::new(), &mut reg).unwrap();
        if v.is_finite() && v.is_sign_positive() && !reg.ambiguous {
            case.class("constant sub-expression");
            let folded = replace_subtree(&w.gen, &sub, &Ast::Lit(format!("{v:?}")));
            let t1 = render_tokens(&w.gen, ORDER, s, 32).join(" ");
            let t2 = render_tokens(&folded, ORDER, s, 32).join(" ");
            case.note(format!("with its constant part folded by hand {}", quote(&t2)));
            let (x1, x2) = (must_parse(&p, &t1)?, must_parse(&p, &t2)?);
            case.eval();
            let (d1, d2) = (display(&x1)?, display(&x2)?);
            if d1 != d2 {
                return Err(format!(
                    "constant sub-expression {} not folded to {v:?}: {} against {}",
                    sub.show(),
                    quote(&d1),
                    quote(&d2)
                ));
            }
        }
    }
    // and none is left in the text as it was laid out
    if let Ok(shown) = ref_parse(&d, &w.rc, ORDER) {
        case.eval();
        if let Some(left) = unfolded(&shown.ast) {
            return Err(format!("constant sub-expression {} left in {}", left.show(), quote(&d)));
        }
    }
    Ok(())
}

/// A sub-expression without variables that is not a number with or without a sign.
fn unfolded(a: &Ast) -> Option<&Ast> {
    if !a.has_vars() {
        let leaf = match a {
            Ast::Neg(x) => x.children().is_empty() && !matches!(**x, Ast::Call(..)),
            _ => a.children().is_empty() && !matches!(a, Ast::Call(..)),
        };
        return if leaf { None } else { Some(a) };
    }
    a.children().into_iter().find_map(unfolded)
}

pub fn is_number_display(d: &str) -> bool {
    d.parse::<f64>().is_ok()
}

/// Some maximal sub-expression without variables that is more than a leaf.
fn first_constant_subtree(a: &Ast, s: &mut Src) -> Option<Ast> {
    fn collect<'a>(a: &'a Ast, out: &mut Vec<&'a Ast>) {
        if !a.has_vars() {
            if !a.children().is_empty() || matches!(a, Ast::Call(..)) {
                out.push(a);
            }
            return;
        }
        for c in a.children() {
            collect(c, out);
        }
    }
    let mut v = Vec::new();
    collect(a, &mut v);
    if v.is_empty() {
        None
    } else {
        Some(v[s.below(v.len())].clone())
    }
}

fn replace_subtree(a: &Ast, from: &Ast, to: &Ast) -> Ast {
    if a == from {
        return to.clone();
    }
    match a {
        Ast::Pos(x) => Ast::Pos(Box::new(replace_subtree(x, from, to))),
        Ast::Neg(x) => neg(replace_subtree(x, from, to)),
        Ast::Fact(x) => Ast::Fact(Box::new(replace_subtree(x, from, to))),
        Ast::Bin(op, x, y) => {
            bin(*op, replace_subtree(x, from, to), replace_subtree(y, from, to))
        }
        Ast::Call(f, v) => Ast::Call(*f, v.iter().map(|x| replace_subtree(x, from, to)).collect()),
        o => o.clone(),
    }
}

// ------------------------------------------------------------------------------------ P05

/// Applies substitutions through one of the four forms; earlier entries win.
pub fn simplify_by<'t>(mut x: Xprs<'t>, form: usize, list: &[(&str, f64)]) -> R<Xprs<'t>> {
    match form % 4 {
        0 => {
            for v in list {
                x = sut("simplify_for", || x.simplify_for(*v))?;
            }
        }
        1 => {
            for v in list {
                sut("simplify_for_in_place", || x.simplify_for_in_place(*v))?;
            }
        }
        2 => x = sut("simplify_for_multiple", || x.simplify_for_multiple(list))?,
        _ => sut("simplify_for_multiple_in_place", || x.simplify_for_multiple_in_place(list))?,
    }
    Ok(x)
}

pub const FORMS: [&str; 4] = [
    "simplify_for",
    "simplify_for_in_place",
    "simplify_for_multiple",
    "simplify_for_multiple_in_place",
];

pub fn p05(s: &mut Src, case: &mut Case) -> R<()> {
    let w = world(s, case, CTX_ANY, GenOpts { patterns: 25, need_vars: true, ..GenOpts::default() }, 6);
    let p = w.parser();
    let x = must_parse(&p, &w.text)?;
    let names = w.ast.vars();
    let before = vars(&x);
    // a total assignment consistent with what gets substituted
    let finite = !s.chance(1, 8);
    let full = full_env(s, &names, finite);
    let steps = s.range(1, 4);
    let mut cur = x;
    let mut done: BTreeSet<String> = BTreeSet::new();
    let all: Vec<String> = names.iter().cloned().collect();
    for _ in 0..steps {
        let form = s.below(4);
        // names with their values; unknown names, repeated names with other values
        let n = if s.chance(1, 8) { s.size(6, 40, 300) } else { s.range(0, 5) };
        let mut list: Vec<(String, f64)> = Vec::new();
        for _ in 0..n {
            let name = if all.is_empty() || s.chance(1, 6) {
                (*s.pick(&["unused_1", "nope", "e", "sin", "", "x ", "pi"])).to_owned()
            } else {
                all[s.below(all.len())].clone()
            };
            let first = !done.contains(&name) && !list.iter().any(|(k, _)| *k == name);
            let v = match full.get(&name) {
                Some(v) if first => *v,
                // gone already, or never there: its value must not matter
                _ => gen_value(s),
            };
            list.push((name, v));
        }
        let l: Vec<(&str, f64)> = list.iter().map(|(k, v)| (k.as_str(), *v)).collect();
        case.note(format!("{} {:?}", FORMS[form], l));
        case.class(FORMS[form]);
        let other = sut("clone", || cur.clone())?;
        cur = simplify_by(cur, form, &l)?;
        for (k, _) in &list {
            done.insert(k.clone());
        }
        // another form does the same
        let form2 = (form + 1 + s.below(3)) % 4;
        let y = simplify_by(other, form2, &l)?;
        // remaining assignment
        let rest: Env =
            full.iter().filter(|(k, _)| !done.contains(*k)).map(|(k, v)| (k.clone(), *v)).collect();
        let mut reg = Reg::default();
        let want = w.ast.eval_reg(&full, &mut reg).unwrap();
        for (what, z) in [(FORMS[form], &cur), (FORMS[form2], &y)] {
            let left = vars(z);
            if let Some(v) = left.iter().find(|v| done.contains(*v)) {
                return Err(format!("{what}: {v:?} is still a variable of {}", display(z)?));
            }
            if let Some(v) = left.iter().find(|v| !before.contains(*v)) {
                return Err(format!("{what}: new variable {v:?} in {}", display(z)?));
            }
            case.eval();
            let got = must_eval(z, &rest).map_err(|e| format!("{what}: {e} ({})", show_env(&rest)))?;
            if reg.regular() && !same(got, want) {
                return Err(format!(
                    "{what}: value {got:?}, original expression gives {want:?} (simplified to {}, rest {})",
                    quote(&display(z)?),
                    show_env(&rest)
                ));
            }
            // another assignment of the remaining variables
            if !rest.is_empty() {
                let mut other = full.clone();
                for (k, v) in full_env(s, &rest.keys().cloned().collect(), true) {
                    other.insert(k, v);
                }
                let mut r2 = Reg::default();
                let w2 = w.ast.eval_reg(&other, &mut r2).unwrap();
                let g2 = must_eval(z, &other)?;
                if r2.regular() && !same(g2, w2) {
                    return Err(format!(
                        "{what}: value {g2:?}, original expression gives {w2:?} at {}",
                        show_env(&other)
                    ));
                }
            }
        }
        if reg.regular() {
            case.class("regular point");
            if before.iter().any(|v| done.contains(v)) {
                case.nontrivial(&case.shown());
            }
        }
        if !rest.is_empty() && before.iter().any(|v| done.contains(v)) {
            case.class("partial substitution");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ P06

/// The reported set is exactly what evaluation needs.
pub fn check_vars(s: &mut Src, case: &mut Case, x: &Xprs, what: &str) -> R<()> {
    let set = vars(x);
    case.eval();
    let env = full_env(s, &set, true);
    let v = must_eval(x, &env)
        .map_err(|e| format!("{what}: {e} although all of {set:?} were given"))?;
    let mut more = env.clone();
    for extra in ["unused_1", "zz", "pi", "sin", "e", "x", "y"] {
        more.entry(extra.to_owned()).or_insert(f64::NAN);
    }
    let w = must_eval(x, &more)?;
    if !same(v, w) {
        return Err(format!("{what}: extra names changed the value from {v:?} to {w:?}"));
    }
    for n in set.iter().take(60) {
        let mut less = env.clone();
        less.remove(n);
        if s.chance(1, 4) {
            // names that are almost the missing one, perhaps alone
            if s.chance(1, 2) && set.len() < 8 {
                less.clear();
            }
            let like = [format!("{n} "), format!(" {n}"), n.to_uppercase(), n.to_lowercase(), format!("{n}'"), format!("{n}_"), n[..n.len() - 1].to_owned()];
            let k = s.pick(&like).clone();
            if !set.contains(&k) {
                less.insert(k, 2.0);
            }
        }
        case.eval();
        match eval(x, &less)? {
            Ok(v) => {
                return Err(format!(
                    "{what}: {n:?} is reported as a variable, but evaluation without it gives {v:?} ({})",
                    display(x)?
                ))
            }
            Err(e) => {
                let name = missing_name(&e);
                if name != Some(n) && !name.is_some_and(|m| set.contains(m) && !less.contains_key(m)) {
                    return Err(format!("{what}: {n:?} was missing, the error says {e:?}"));
                }
            }
        }
    }
    if set.len() > 1 {
        let keep = subset(s, &set);
        let part: Env = env.iter().filter(|(k, _)| keep.contains(k)).map(|(k, v)| (k.clone(), *v)).collect();
        if part.len() < set.len() {
            match eval(x, &part)? {
                Ok(v) => return Err(format!("{what}: evaluated to {v:?} with only {part:?}")),
                Err(e) => match missing_name(&e) {
                    Some(n) if set.contains(n) && !part.contains_key(n) => (),
                    _ => return Err(format!("{what}: error {e:?} names no missing variable")),
                },
            }
        }
    }
    Ok(())
}

pub fn p06(s: &mut Src, case: &mut Case) -> R<()> {
    let w = world(s, case, CTX_ANY, GenOpts { patterns: 25, need_vars: true, ..GenOpts::default() }, 8);
    let p = w.parser();
    let mut x = must_parse(&p, &w.text)?;
    let written = w.ast.vars();
    let got = vars(&x);
    if !OPT && got != written {
        return Err(format!("variables {got:?}, written in the text: {written:?}"));
    }
    if let Some(v) = got.iter().find(|v| !written.contains(*v)) {
        return Err(format!("{v:?} reported but not a variable of the text ({written:?})"));
    }
    check_vars(s, case, &x, "after parsing")?;
    if !got.is_empty() {
        case.nontrivial(&w.text);
    }
    case.class(match got.len() {
        0 => "no variable left",
        1 => "1 variable",
        2..=4 => "2-4 variables",
        _ => ">4 variables",
    });
    let steps = s.range(0, 3);
    let mut prev = got;
    let mut gone: BTreeSet<String> = BTreeSet::new();
    for _ in 0..steps {
        let n = s.range(0, 3);
        let mut list: Vec<(String, f64)> = Vec::new();
        for _ in 0..n {
            let names: Vec<&String> = prev.iter().collect();
            let name = if names.is_empty() || s.chance(1, 6) {
                "unused_1".to_owned()
            } else {
                names[s.below(names.len())].clone()
            };
            // zeros and ones make rewrite rules drop other variables
            let v = if s.chance(1, 2) { s.below(3) as f64 } else { gen_finite(s) };
            list.push((name, v));
        }
        let form = s.below(4);
        let l: Vec<(&str, f64)> = list.iter().map(|(k, v)| (k.as_str(), *v)).collect();
        case.note(format!("{} {:?}", FORMS[form], l));
        case.class("simplified");
        x = simplify_by(x, form, &l)?;
        gone.extend(list.into_iter().map(|l| l.0));
        let now = vars(&x);
        if let Some(v) = now.iter().find(|v| !prev.contains(*v) || gone.contains(*v)) {
            return Err(format!("after {}: unexpected variable {v:?}", FORMS[form]));
        }
        if now.len() + 1 < prev.len() && n == 1 {
            case.class("a rule dropped another variable");
        }
        check_vars(s, case, &x, FORMS[form])?;
        let c = sut("clone", || x.clone())?;
        if vars(&c) != now {
            return Err("a clone reports other variables".into());
        }
        prev = now;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ P08

fn outcome(p: &Parser, text: &str, env: &Env) -> R<String> {
    Ok(match parse(p, text)? {
        Err(e) => format!("error {}", err_msg(&e)?),
        Ok(x) => match eval(&x, env)? {
            Ok(v) => {
                format!("{} = {:x} {:?}", display(&x)?, canonical_bits(v), vars(&x))
            }
            Err(e) => format!("missing {e}"),
        },
    })
}

pub fn canonical_bits(v: f64) -> u64 {
    if v.is_nan() {
        f64::NAN.to_bits()
    } else {
        v.to_bits()
    }
}

/// One built-in (or the factorial sign) evaluated by several threads at once at different values.
fn hammer(s: &mut Src, case: &mut Case) -> R<()> {
    let k = s.below(BUILTINS.len() + 1);
    let text = match BUILTINS.get(k) {
        None => "x! + y".to_owned(),
        Some(b) => match b.arity() {
            Some(1) => format!("{0}(x) + y", b.name),
            Some(_) => format!("{0}(x, y)", b.name),
            None => format!("{0}(x, y, 2, x)", b.name),
        },
    };
    case.note(format!("{text} in four threads"));
    case.class("one function in threads");
    let p = Parser::default();
    let x = must_parse(&p, &text)?;
    let values: Vec<f64> = (0..8).map(|i| if i < 4 { s.below(1000) as f64 / 50.0 } else { gen_value(s) }).collect();
    let envs: Vec<HashMap<&str, f64>> = values
        .iter()
        .enumerate()
        .map(|(i, v)| HashMap::from([("x", *v), ("y", values[(i * 3 + 1) % 8])]))
        .collect();
    let at = |m: &HashMap<&str, f64>| sut("eval", || x.eval(m).map(canonical_bits).map_err(|e| e.to_string()));
    let mut alone = Vec::new();
    for m in &envs {
        alone.push(at(m)??);
    }
    let (x, envs, alone, text) = (&x, &envs, &alone, &text);
    let failures: Vec<R<()>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4)
            .map(|th| {
                sc.spawn(move || {
                    for round in 0..1500 {
                        let i = (round + 2 * th) % 8;
                        let v = sut("eval", || x.eval(&envs[i]).map_err(|e| e.to_string()))??;
                        if canonical_bits(v) != alone[i] {
                            return Err(format!(
                                "{text} at {:?} is {v:?} beside other threads, {:?} alone",
                                envs[i],
                                f64::from_bits(alone[i])
                            ));
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    case.evals += 6000;
    failures.into_iter().collect()
}

pub fn p08(s: &mut Src, case: &mut Case) -> R<()> {
    if s.chance(1, 24) {
        return hammer(s, case);
    }
    s.hold(2, 5);
    let g = gen_ctx(s, CTX_ANY);
    let rc = g.refctx();
    let names = gen_vars(s, &rc, 4);
    let n = s.range(1, 4);
    let mut texts = Vec::new();
    for _ in 0..n {
        if s.chance(1, 5) {
            texts.push(crate::lang::gen_text(s, case, &rc));
        } else {
            let o = GenOpts { fuel: 30, max_depth: 5, ..GenOpts::default() };
            let a = Gen::new(s, o, &rc, names.clone()).top();
            texts.push(render(&a, ORDER, s));
        }
    }
    // texts of the same length that differ in one character
    if s.chance(1, 3) {
        let mut t = texts[0].clone().into_bytes();
        let places: Vec<usize> = (0..t.len()).filter(|i| t[*i].is_ascii_alphanumeric()).collect();
        if !places.is_empty() {
            let i = *s.pick(&places);
            t[i] = match t[i] {
                d @ b'0'..=b'9' => b'0' + (d - b'0' + 1 + s.below(9) as u8) % 10,
                c @ b'a'..=b'z' => b'a' + (c - b'a' + 1 + s.below(25) as u8) % 26,
                c => b'A' + (c - b'A' + 1 + s.below(25) as u8) % 26,
            };
            texts.push(String::from_utf8(t).expect("ASCII for ASCII"));
        }
    }
    s.release();
    case.note(format!("context {}; texts {:?}", g.show(), texts));
    let mut envs: Vec<Env> = Vec::new();
    for _ in 0..2 {
        let mut e = Env::new();
        // every name any text may need
        for t in &texts {
            if let Ok(r) = ref_parse(t, &rc, ORDER) {
                for v in r.ast.vars() {
                    e.entry(v).or_insert_with(|| gen_value(s));
                }
            }
        }
        envs.push(e);
    }
    // baseline: each from a fresh parser
    let mut base: Vec<[String; 2]> = Vec::new();
    for t in &texts {
        let p = parser(&g);
        base.push([outcome(&p, t, &envs[0])?, outcome(&p, t, &envs[1])?]);
    }
    if base.iter().any(|b| b[0].contains(" = ")) {
        case.nontrivial(&format!("{texts:?}"));
    }
    // a history over a shared parser and retained expressions
    let shared = parser(&g);
    let mut kept: Vec<(usize, Xprs)> = Vec::new();
    // one piece of memory that holds one text after the other
    let mut buf = String::with_capacity(texts.iter().map(String::len).max().unwrap_or(0) + 1);
    let steps = s.range(3, 16);
    for step in 0..steps {
        let i = s.below(texts.len());
        let e = s.below(2);
        match s.below(9) {
            7 | 8 => {
                buf.clear();
                buf.push_str(&texts[i]);
                case.eval();
                let got = outcome(&shared, &buf, &envs[e])?;
                if got != base[i][e] {
                    return Err(format!(
                        "step {step}: {} in memory that held another text gives {got:?}, a fresh parser gave {:?}",
                        quote(&texts[i]),
                        base[i][e]
                    ));
                }
            }
            0 | 1 => {
                // now and then as often as some number in the code says
                let often = match s.chance(1, 60) {
                    true => s.dict_size(2, 600).unwrap_or(1),
                    false => 1,
                };
                case.eval();
                let mut got = outcome(&shared, &texts[i], &envs[e])?;
                for _ in 1..often {
                    if got == base[i][e] {
                        got = outcome(&shared, &texts[i], &envs[e])?;
                    }
                }
                if got != base[i][e] {
                    return Err(format!(
                        "step {step}: {} gives {got:?}, a fresh parser gave {:?}",
                        quote(&texts[i]),
                        base[i][e]
                    ));
                }
                if let Ok(x) = parse(&shared, &texts[i])? {
                    kept.push((i, x));
                }
            }
            2 if !kept.is_empty() => {
                let k = s.below(kept.len());
                let c = sut("clone", || kept[k].1.clone())?;
                let i = kept[k].0;
                if s.chance(1, 24) {
                    // many owners of the same functions
                    for _ in 0..s.size(20, 140, 600) {
                        kept.push((i, sut("clone", || c.clone())?));
                    }
                    case.class("many clones");
                }
                kept.push((i, c));
                case.class("clone");
            }
            3 if !kept.is_empty() => {
                let k = s.below(kept.len());
                drop(kept.swap_remove(k));
                case.class("drop");
            }
            4 if !kept.is_empty() => {
                // consuming a clone does not touch the original
                let k = s.below(kept.len());
                let c = sut("clone", || kept[k].1.clone())?;
                if let Some(v) = vars(&c).first() {
                    let _ = sut("simplify_for", || c.simplify_for((v, 0.0)))?;
                    case.class("clone simplified");
                }
            }
            _ if !kept.is_empty() => {
                let k = s.below(kept.len());
                let (i, x) = &kept[k];
                compare_entries(case, x, &envs[e], &base[*i][e], s)?;
            }
            _ => (),
        }
    }
    // plain entry points
    if g.defs.is_empty() {
        for (t, b) in texts.iter().zip(&base) {
            let r = sut("Xprs::try_from", || Xprs::try_from(t.as_str()))?;
            let got = match r {
                Err(e) => format!("error {}", err_msg(&e)?),
                Ok(x) => match eval(&x, &envs[0])? {
                    Ok(v) => format!("{} = {:x} {:?}", display(&x)?, canonical_bits(v), vars(&x)),
                    Err(e) => format!("missing {e}"),
                },
            };
            if got != b[0] {
                return Err(format!("Xprs::try_from({}) gives {got:?}, a parser {:?}", quote(t), b[0]));
            }
            case.class("try_from");
        }
    }
    // concurrently
    if s.chance(1, 12) {
        case.class("threads");
        let failure = std::sync::Mutex::new(None::<String>);
        let kept = &kept;
        let shared = &shared;
        std::thread::scope(|sc| {
            for th in 0..4 {
                let (texts, envs, base, failure) = (&texts, &envs, &base, &failure);
                sc.spawn(move || {
                    let run = || -> R<()> {
                        for round in 0..6 {
                            for j in 0..texts.len() {
                                let i = (j + th) % texts.len();
                                let e = (round + th) % 2;
                                let got = outcome(shared, &texts[i], &envs[e])?;
                                if got != base[i][e] {
                                    return Err(format!(
                                        "concurrently {} gives {got:?} instead of {:?}",
                                        quote(&texts[i]),
                                        base[i][e]
                                    ));
                                }
                            }
                            for (i, x) in kept {
                                let e = (round + th) % 2;
                                let c = sut("clone", || x.clone())?;
                                for y in [x, &c] {
                                    if let Ok(v) = eval(y, &envs[e])? {
                                        let b = format!("= {:x} ", canonical_bits(v));
                                        if !base[*i][e].contains(&b) {
                                            return Err(format!(
                                                "concurrently {} evaluates to {v:?}, alone {:?}",
                                                quote(&texts[*i]),
                                                base[*i][e]
                                            ));
                                        }
                                    }
                                }
                            }
                        }
                        Ok(())
                    };
                    if let Err(m) = run() {
                        *failure.lock().unwrap() = Some(m);
                    }
                });
            }
        });
        if let Some(m) = failure.into_inner().unwrap() {
            return Err(m);
        }
    }
    Ok(())
}

fn compare_entries(case: &mut Case, x: &Xprs, env: &Env, base: &str, s: &mut Src) -> R<()> {
    if !base.contains(" = ") {
        return Ok(());
    }
    case.eval();
    let v = must_eval(x, env)?;
    if !base.contains(&format!("= {:x} ", canonical_bits(v))) {
        return Err(format!("eval gives {v:?} now, earlier {base:?}"));
    }
    let u = eval_unchecked(x, env)?;
    if canonical_bits(u) != canonical_bits(v) {
        return Err(format!("eval_unchecked gives {u:?}, eval {v:?} for {}", display(x)?));
    }
    let set = vars(x);
    if set.is_empty() {
        let a = sut("eval_no_vars", || x.eval_no_vars().map_err(|e| e.to_string()))??;
        let b = sut("eval_no_vars_unchecked", || x.eval_no_vars_unchecked())?;
        if canonical_bits(a) != canonical_bits(v) || canonical_bits(b) != canonical_bits(v) {
            return Err(format!("eval {v:?}, eval_no_vars {a:?}, eval_no_vars_unchecked {b:?}"));
        }
        case.class("no-variable entry points");
    } else {
        let drop: Vec<&String> = set.iter().collect();
        let gone = drop[s.below(drop.len())].clone();
        let mut less = env.clone();
        less.remove(&gone);
        if let Ok(v) = eval_unchecked(x, &less) {
            return Err(format!("eval_unchecked without {gone:?} returned {v:?}"));
        }
        if sut("", || x.eval_no_vars().is_ok())? {
            return Err("eval_no_vars succeeded although there are variables".to_string());
        }
        if let Ok(v) = sut("", || x.eval_no_vars_unchecked()) {
            return Err(format!("eval_no_vars_unchecked returned {v:?} although there are variables"));
        }
        case.class("missing variable");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ P09

pub fn p09(s: &mut Src, case: &mut Case) -> R<()> {
    let w = world(s, case, CTX_FINITE, GenOpts { patterns: 18, need_vars: true, ..GenOpts::default() }, 4);
    let p = w.parser();
    let mut x = must_parse(&p, &w.text)?;
    let mut simplified = false;
    if s.chance(1, 2) {
        let set = vars(&x);
        let names = subset(s, &set);
        for n in names {
            let v = gen_finite(s);
            case.note(format!("{n} = {v:?} substituted"));
            x = sut("simplify_for", || x.simplify_for((&n, v)))?;
            simplified = true;
        }
    }
    let d = display(&x)?;
    case.note(format!("displayed {}", quote(&d)));
    if tokenize(&d).iter().any(|t| matches!(&t.tok, Tok::Ident(n) if n == "inf" || n == "NaN")) {
        case.class("non-finite constant (skipped)");
        return Ok(());
    }
    case.eval();
    // both orders of operations read the same structure
    let (a, b) = (ref_parse(&d, &w.rc, Order::Pemdas), ref_parse(&d, &w.rc, Order::Pejmdas));
    let ast = match (a, b) {
        (Ok(a), Ok(b)) => {
            if !a.ast.same_tree(&b.ast) {
                return Err(format!("{} means different things in the two orders of operations", quote(&d)));
            }
            a.ast
        }
        (Err(e), _) | (_, Err(e)) => {
            return Err(format!("displayed form {} is not well-formed ({:?})", quote(&d), e.kind))
        }
    };
    let y = must_parse(&p, &d).map_err(|e| format!("displayed form: {e}"))?;
    let (vx, vy) = (vars(&x), vars(&y));
    if !OPT && vx != vy || !vy.is_subset(&vx) {
        return Err(format!("variables {vx:?} became {vy:?} when {} was read back", quote(&d)));
    }
    if ast.vars() != vx {
        return Err(format!("{} displays variables {:?}, the expression has {vx:?}", quote(&d), ast.vars()));
    }
    if !OPT {
        let d2 = display(&y)?;
        // `--2` may read back as a double negation of a number
        let again = ref_parse(&d2, &w.rc, ORDER).map_err(|e| format!("{} not well-formed ({:?})", quote(&d2), e.kind))?;
        if !again.ast.canon().same_tree(&ast.canon()) {
            return Err(format!("displayed again as {}", quote(&d2)));
        }
        if !simplified && !ast.canon().same_tree(&w.ast.canon()) {
            return Err(format!(
                "displayed structure {} is not the parsed one {}",
                quote(&ast.show()),
                quote(&w.ast.show())
            ));
        }
    }
    let mut used = false;
    for _ in 0..3 {
        let env = full_env(s, &vx, true);
        // what is displayed is what is evaluated
        let mut reg = Reg::default();
        let want = ast.eval_reg(&env, &mut reg).unwrap();
        let (v, u) = (must_eval(&x, &env)?, must_eval(&y, &env)?);
        case.eval();
        if !reg.regular() {
            continue;
        }
        used = true;
        if !same(v, want) || !same(u, v) {
            return Err(format!(
                "value {v:?}; read back {u:?}; displayed text means {want:?}; at {}",
                show_env(&env)
            ));
        }
    }
    if used && ast.size() > 2 {
        case.nontrivial(&d);
    }
    if simplified {
        case.class("simplified");
    }
    if d.contains('-') {
        case.class("minus sign");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ P19

/// Equality up to swapping operands of `+` and `*`.
fn comm_eq(a: &Ast, b: &Ast) -> bool {
    match (a, b) {
        (Ast::Num(x), Ast::Num(y)) => x == y,
        (Ast::Var(x), Ast::Var(y)) => x == y,
        (Ast::Pos(x), Ast::Pos(y)) | (Ast::Neg(x), Ast::Neg(y)) | (Ast::Fact(x), Ast::Fact(y)) => {
            comm_eq(x, y)
        }
        (Ast::Bin(o, a, b), Ast::Bin(q, c, d)) => {
            o == q
                && (comm_eq(a, c) && comm_eq(b, d)
                    || matches!(o, Op::Add | Op::Mul) && comm_eq(a, d) && comm_eq(b, c))
        }
        (Ast::Call(f, v), Ast::Call(g, w)) => {
            f.canon() == g.canon() && v.len() == w.len() && v.iter().zip(w).all(|(x, y)| comm_eq(x, y))
        }
        _ => false,
    }
}

fn another(a: &[f64]) -> f64 {
    a.len() as f64 - 7.25
}

pub fn p19(s: &mut Src, case: &mut Case) -> R<()> {
    s.hold(1, 3);
    let g = gen_ctx(s, CtxOpts { nonfinite: false, shadow: true });
    let rc = g.refctx();
    let p = parser(&g);
    let names = gen_vars(s, &rc, 4);
    let o = GenOpts { fuel: 30, max_depth: 5, shapes: s.chance(1, 8), own: 15, ..GenOpts::default() };
    let mut ge = Gen::new(s, o, &rc, names);
    let mut a = ge.top();
    let regroup = ge.s.chance(1, 3);
    if regroup && ge.s.chance(1, 2) {
        let op = *ge.s.pick(&[Op::Add, Op::Mul, Op::Add, Op::Mul, Op::Sub, Op::Div]);
        let (v, w) = (ge.atom(), ge.expr(2));
        a = if ge.s.chance(1, 2) { bin(op, bin(op, a, v), w) } else { bin(op, v, bin(op, a, w)) };
    }
    let deep = a.depth() > 40;
    let b = if deep { a.clone() } else { commute(&a, ge.s) };
    let c = if regroup {
        ge.rewrite(&a)
    } else if ge.s.chance(3, 4) {
        ge.edit(&a)
    } else {
        ge.expr(3)
    };
    let e = if deep { c.clone() } else { commute(&c, ge.s) };
    let gens = [a, b, c, e];
    let texts: Vec<String> = gens.iter().map(|a| render(a, ORDER, s)).collect();
    s.release();
    case.note(format!("context {}; texts {:?}", g.show(), texts));
    let mut xs = Vec::new();
    for t in &texts {
        xs.push(must_parse(&p, t)?);
    }
    let shown: Vec<String> = {
        let mut v = Vec::new();
        for x in &xs {
            v.push(display(x)?);
        }
        v
    };
    let nan = |d: &str| d.contains("NaN");
    let asts: Vec<Ast> = gens.iter().map(Ast::norm).collect();
    let eq = |i: usize, j: usize| -> R<bool> { sut("equality", || xs[i] == xs[j]) };
    let mut m = [[false; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            m[i][j] = eq(i, j)?;
            case.eval();
        }
    }
    for i in 0..4 {
        if nan(&shown[i]) {
            continue;
        }
        if !m[i][i] {
            return Err(format!("{} is not equal to itself", quote(&texts[i])));
        }
        let cl = sut("clone", || xs[i].clone())?;
        if !sut("equality", || cl == xs[i])? {
            return Err(format!("a clone of {} is not equal to it", quote(&texts[i])));
        }
        for j in 0..4 {
            if nan(&shown[j]) {
                continue;
            }
            if m[i][j] != m[j][i] {
                return Err(format!("equality of {} and {} is not symmetric", quote(&texts[i]), quote(&texts[j])));
            }
            for k in 0..4 {
                if m[i][j] && m[j][k] && !m[i][k] && !nan(&shown[k]) {
                    return Err(format!("equality is not transitive on {:?}", [i, j, k].map(|q| &texts[q])));
                }
            }
            // swapped operands of + and *: equal. Anything else: unequal (no rewriting here)
            if !OPT {
                let want = comm_eq(&asts[i], &asts[j]);
                if m[i][j] != want {
                    return Err(format!(
                        "{} and {} compare {}, they {} up to operand swaps",
                        quote(&texts[i]),
                        quote(&texts[j]),
                        m[i][j],
                        if want { "agree" } else { "differ" }
                    ));
                }
                case.class(if want { "equal pair" } else { "unequal pair" });
            } else {
                // what is displayed is what is compared
                if let (Ok(r), Ok(t)) = (ref_parse(&shown[i], &rc, ORDER), ref_parse(&shown[j], &rc, ORDER)) {
                    let finite = |d: &str| !d.contains("inf");
                    if finite(&shown[i]) && finite(&shown[j]) {
                        let want = comm_eq(&r.ast.canon(), &t.ast.canon());
                        if m[i][j] != want {
                            return Err(format!(
                                "{} and {} compare {}, they {} up to operand swaps",
                                quote(&shown[i]),
                                quote(&shown[j]),
                                m[i][j],
                                if want { "agree" } else { "differ" }
                            ));
                        }
                        case.class(if want { "equal pair" } else { "unequal pair" });
                    }
                }
            }
            // equal expressions are interchangeable
            if m[i][j] && i < j {
                if vars(&xs[i]) != vars(&xs[j]) {
                    return Err(format!("equal, but variables {:?} and {:?}", vars(&xs[i]), vars(&xs[j])));
                }
                let env = full_env(s, &vars(&xs[i]), true);
                let mut r1 = Reg::default();
                let mut r2 = Reg::default();
                let mut all = env.clone();
                for a in [&asts[i], &asts[j]] {
                    for v in a.vars() {
                        all.entry(v).or_insert(1.5);
                    }
                }
                asts[i].eval_reg(&all, &mut r1);
                asts[j].eval_reg(&all, &mut r2);
                let (v, w) = (must_eval(&xs[i], &env)?, must_eval(&xs[j], &env)?);
                // zeros of either sign are equal, their reciprocals are not
                let zeros = v.is_infinite() && v == -w;
                if r1.regular() && r2.regular() && !same(v, w) && !zeros {
                    return Err(format!("equal, but {v:?} and {w:?} at {}", show_env(&env)));
                }
            }
        }
    }
    // the same text in a context where a function of the same name is another one
    let own: Vec<usize> = rc
        .syms
        .values()
        .filter_map(|d| if let Sym::Fn(FnRef::U(i)) = d { Some(*i) } else { None })
        .collect();
    let used: Vec<usize> = own
        .iter()
        .copied()
        .filter(|i| asts[0].any(&|n| matches!(n, Ast::Call(FnRef::U(j), _) if j == i)))
        .collect();
    if !own.is_empty() {
        let i = *s.pick(if used.is_empty() { &own } else { &used });
        let u = &USER_FNS[i];
        let again = s.chance(1, 3);
        let mut ctx = sut("clone", || p.ctx().clone())?;
        if !again {
            if s.chance(1, 2) {
                ctx.set_fn(Function::new_static(u.name, another, u.arity));
            } else {
                ctx.set_fn(Function::new_dyn(u.name, another, u.arity));
            }
        }
        let q = Parser::new_with_ctx(ctx);
        let y = must_parse(&q, &texts[0])?;
        let names_it = |d: &str| tokenize(d).iter().any(|t| matches!(&t.tok, Tok::Ident(n) if n == u.name));
        let (d0, d1) = (&shown[0], display(&y)?);
        let (r1, r2) = (sut("equality", || xs[0] == y)?, sut("equality", || y == xs[0])?);
        case.eval();
        let called = names_it(d0) || names_it(&d1);
        if !nan(d0) && !nan(&d1) && d0.contains("inf") == d1.contains("inf") {
            if (again || !called && *d0 == d1) && !(r1 && r2) {
                return Err(format!(
                    "{} parsed with {} context compares unequal",
                    quote(&texts[0]),
                    if again { "a clone of the" } else { "another" }
                ));
            }
            if !again && called && (r1 || r2) {
                return Err(format!(
                    "{} compares equal to itself calling another function {}",
                    quote(d0),
                    u.name
                ));
            }
            case.class(match (again, called) {
                (true, _) => "cloned context",
                (_, true) => "another function of the same name",
                _ => "unused function redefined",
            });
        }
    }
    if asts[0].size() > 2 {
        case.nontrivial(&format!("{texts:?}"));
    }
    Ok(())
}
