//! P01, P02, P03, P10, P11, P18: the text language.
use crate::bigdec;
use crate::sut::*;
use xprs::Xprs;
use xvcore::*;

/// A text: valid, nearly valid, soup or noise.
pub fn gen_text(s: &mut Src, case: &mut Case, rc: &RefCtx) -> String {
    gen_text_in(s, case, rc, ORDER)
}

pub fn gen_text_in(s: &mut Src, case: &mut Case, rc: &RefCtx, order: Order) -> String {
    match s.below(8) {
        0 | 1 => {
            case.class("token soup");
            gen_soup(s)
        }
        2 => {
            case.class("character noise");
            gen_noise(s)
        }
        k => {
            let names = gen_vars(s, rc, 4);
            let o = GenOpts { max_depth: 4, fuel: 24, ..GenOpts::default() };
            let a = Gen::new(s, o, rc, names).top();
            let p = s.below(4);
            let mut toks = render_tokens(&a, order, s, p);
            if s.chance(1, 24) {
                nest_tokens(&mut toks, s);
            }
            if k <= 5 {
                case.class("mutated tokens");
                mutate_tokens(&mut toks, s);
                return layout(&toks, s);
            }
            let t = layout(&toks, s);
            if k == 6 {
                case.class("mutated characters");
                mutate_chars(&t, s)
            } else {
                case.class("well-formed");
                t
            }
        }
    }
}

/// Any text, now and then a deeply nested or very long one.
pub fn gen_any_text(s: &mut Src, case: &mut Case, rc: &RefCtx, order: Order) -> String {
    if s.chance(1, 32) {
        case.class("long or deeply nested text");
        return gen_long_text(s);
    }
    gen_text_in(s, case, rc, order)
}

/// Deeply nested or very long texts.
pub fn gen_long_text(s: &mut Src) -> String {
    const UNITS: &[(&str, &str, &str)] = &[
        ("(", "x", ")"),
        ("-", "2", ""),
        ("abs(", "x", ")"),
        ("x+", "x", ""),
        ("2^", "x", ""),
        ("x ", "y", ""),
        ("", "3", "!"),
        (" \t\n", "x", "\r\x0c "),
        ("9", "9", "9"),
        ("max(x,", "1", ")"),
        ("x(", "y", ")"),
        ("a", "b", "c"),
        ("1-x*(", "2", ")/3"),
        ("+-", "x", "!"),
        (",", "", ","),
        ("é", "", "é"),
        ("∑", "x", "é"),
        ("x", "$", "é"),
        ("1+", "#", "😀"),
        ("1_", "1", "_1"),
        ("sum(", "", ")"),
        ("2(", "3", ")!"),
    ];
    let (a, m, b) = *s.pick(UNITS);
    let n = match s.below(4) {
        0..=2 => s.range(1, 120),
        _ => s.size(100, 1200, 1500),
    };
    // mostly balanced
    let k = if s.chance(1, 4) { s.below(n + 2) } else { n };
    let mut t = a.repeat(n);
    t.push_str(m);
    t.push_str(&b.repeat(k));
    if s.chance(1, 4) {
        t.push_str(&soup_token(s));
    }
    if s.chance(1, 8) {
        // something else somewhere in it
        let mut at = s.below(t.len() + 1);
        while !t.is_char_boundary(at) {
            at -= 1;
        }
        t.insert_str(at, &soup_token(s));
    }
    if s.chance(1, 8) {
        // followed by a tail that nothing else explains
        let n = s.size(300, 3000, 9000);
        t.push_str(&s.pick(&["é", "x", " ", "€", "(", "😀", "1é"]).repeat(n));
    }
    t
}

// ------------------------------------------------------------------------------------ P01

pub fn p01(s: &mut Src, case: &mut Case) -> R<()> {
    let g = gen_ctx(s, CTX_ANY);
    let rc = g.refctx();
    let text = if s.chance(1, 12) {
        case.class("long or deep text");
        gen_long_text(s)
    } else {
        gen_text(s, case, &rc)
    };
    if !g.defs.is_empty() {
        case.note(format!("context {}", g.show()));
        case.class("with context");
    }
    case.note(format!("text {}", quote(&text)));
    if !text.is_ascii() {
        case.class("non-ASCII");
    }
    if text.trim().is_empty() {
        case.class("blank");
    }
    let mut ctx = context(&g);
    if s.chance(1, 6) {
        let set: Vec<&'static str> = VARS.iter().copied().filter(|_| s.chance(1, 2)).collect();
        ctx.set_expected_vars(set.into_iter().collect());
        case.class("declared variables");
    }
    let p = xprs::Parser::new_with_ctx(ctx);
    case.nontrivial(&format!("{}{text}", g.show()));
    match parse(&p, &text)? {
        Err(e) => {
            case.class("rejected");
            case.eval();
            let _ = err_info(&e, text.len())?;
            sut("ParseError Debug", || format!("{e:?}"))?;
            // the graphical renderer is quadratic in the length of a line
            if text.len() < 3000 {
                render_report(e)?;
            }
        }
        Ok(x) => {
            case.class("accepted");
            exercise(x, s, case)?;
        }
    }
    Ok(())
}

/// Everything that may be done with an accepted expression must not panic.
pub fn exercise(x: Xprs, s: &mut Src, case: &mut Case) -> R<()> {
    let names = vars(&x);
    display(&x)?;
    sut("Debug", || format!("{x:?}"))?;
    let c = sut("clone", || x.clone())?;
    sut("equality", || c == x)?;
    for _ in 0..2 {
        let env = full_env(s, &names, false);
        case.eval();
        must_eval(&x, &env)?;
        eval_unchecked(&x, &env)?;
    }
    if !names.is_empty() {
        let partial: Env = subset(s, &names).into_iter().map(|n| (n, gen_value(s))).collect();
        let _ = eval(&x, &partial)?;
        let mut y = sut("clone", || x.clone())?;
        for n in names.iter().take(4) {
            let v = gen_value(s);
            y = sut("simplify_for", || y.simplify_for((n, v)))?;
            display(&y)?;
        }
        let env = full_env(s, &names, false);
        must_eval(&y, &env)?;
        let list: Vec<(&str, f64)> = env.iter().map(|(k, v)| (k.as_str(), *v)).collect();
        let mut z = sut("clone", || x.clone())?;
        sut("simplify_for_multiple_in_place", || z.simplify_for_multiple_in_place(&list))?;
        display(&z)?;
        sut("eval_no_vars", || z.eval_no_vars().map_err(|e| e.to_string()))??;
    } else {
        let y = sut("clone", || x.clone())?;
        sut("simplify_for", || y.simplify_for(("x", 1.0)))?;
        sut("eval_no_vars", || x.eval_no_vars().map_err(|e| e.to_string()))??;
        sut("eval_no_vars_unchecked", || x.eval_no_vars_unchecked())?;
    }
    let owned: Vec<&str> = names.iter().map(String::as_str).collect();
    let vals: Vec<f64> = owned.iter().map(|_| gen_value(s)).collect();
    sut("bind_n_runtime", move || -> R<()> {
        match c.bind_n_runtime(&owned) {
            Ok(f) => {
                let _ = f(&vals).map_err(|e| e.to_string())?;
                let _ = f(&[]).map_err(|e| e.to_string());
                Ok(())
            }
            Err(e) => Err(format!("binding all variables failed: {e}")),
        }
    })??;
    sut("bind", move || match x.bind("x") {
        Ok(f) => {
            f(1.0);
        }
        Err(e) => {
            let _ = format!("{e} {e:?}");
        }
    })?;
    Ok(())
}

// ------------------------------------------------------------------------------------ P02

pub fn p02(s: &mut Src, case: &mut Case) -> R<()> {
    if s.chance(3, 5) {
        let w = world(s, case, CTX_ANY, GenOpts::default(), 4);
        let p = w.parser();
        let x = must_parse(&p, &w.text)?;
        let exact = !OPT || !w.ast.has_vars();
        let names = w.ast.vars();
        let mut used = false;
        for k in 0..3 {
            let env = full_env(s, &names, k != 2);
            used |= check_value(case, "value", &x, &w.ast, &env, exact)?;
            if names.is_empty() {
                break;
            }
        }
        if used && w.ast.size() > 2 {
            case.nontrivial(&w.text);
        }
        return Ok(());
    }
    // acceptance and meaning of arbitrary texts against the reference grammar
    let g = gen_ctx(s, CTX_ANY);
    let rc = g.refctx();
    let text = gen_any_text(s, case, &rc, ORDER);
    if !g.defs.is_empty() {
        case.note(format!("context {}", g.show()));
    }
    case.note(format!("text {}", quote(&text)));
    if unspecified(&text) {
        case.class("unspecified (skipped)");
        return Ok(());
    }
    let p = parser(&g);
    let want = ref_parse(&text, &rc, ORDER);
    let got = parse(&p, &text)?;
    case.eval();
    match (want, got) {
        (Err(_), Err(_)) => {
            case.class("rejected by both");
            if tokenize(&text).len() > 2 {
                case.nontrivial(&text);
            }
            Ok(())
        }
        (Err(e), Ok(x)) => Err(format!(
            "{} is not well-formed ({:?} at byte {}) but was accepted as {}",
            quote(&text),
            e.kind,
            e.start,
            display(&x)?
        )),
        (Ok(r), Err(e)) => Err(format!(
            "{} means {} but was rejected ({})",
            quote(&text),
            r.ast.show(),
            err_msg(&e)?
        )),
        (Ok(r), Ok(x)) => {
            case.class("accepted by both");
            let names = r.ast.vars();
            let exact = !OPT || !r.ast.has_vars();
            for k in 0..3 {
                let env = full_env(s, &names, k != 2);
                check_value(case, "value", &x, &r.ast, &env, exact)?;
            }
            if r.ast.size() > 2 {
                case.nontrivial(&text);
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------------------ P03

fn has_jux(a: &Ast) -> bool {
    a.any(&|n| matches!(n, Ast::Bin(Op::Jux, ..)))
}

/// Writes every implicit product explicitly: a plain `*` in PEMDAS, a parenthesised run in PEJMDAS.
fn explicit(a: &Ast) -> Ast {
    match a {
        Ast::Bin(op, x, y) => {
            bin(if *op == Op::Jux { Op::Mul } else { *op }, explicit(x), explicit(y))
        }
        Ast::Pos(x) => Ast::Pos(Box::new(explicit(x))),
        Ast::Neg(x) => neg(explicit(x)),
        Ast::Fact(x) => Ast::Fact(Box::new(explicit(x))),
        Ast::Call(f, args) => Ast::Call(*f, args.iter().map(explicit).collect()),
        o => o.clone(),
    }
}

pub fn p03(s: &mut Src, case: &mut Case) -> R<()> {
    let g = gen_ctx(s, CTX_ANY);
    let rc = g.refctx();
    let names = gen_vars(s, &rc, 5);
    let o = GenOpts { max_depth: 5, fuel: 40, patterns: 5, ..GenOpts::default() };
    let mut ge = Gen::new(s, o, &rc, names);
    let mut a = ge.top();
    if !has_jux(&a) {
        // put a run somewhere
        let b = ge.expr(2);
        let run = bin(Op::Jux, a, b);
        a = match ge.s.below(6) {
            0 => run,
            1 => {
                let c = ge.expr(2);
                let op = *ge.s.pick(&[Op::Div, Op::Mul, Op::Mod, Op::Pow, Op::Add, Op::Sub]);
                bin(op, c, run)
            }
            2 => {
                let c = ge.expr(2);
                let op = *ge.s.pick(&[Op::Div, Op::Mul, Op::Mod, Op::Pow, Op::Add, Op::Sub]);
                bin(op, run, c)
            }
            3 => neg(run),
            4 => {
                let c = ge.expr(1);
                bin(Op::Jux, run, c)
            }
            _ => Ast::Fact(Box::new(run)),
        };
    }
    let parens = s.below(3);
    let toks = render_tokens(&a, ORDER, s, parens);
    let text = layout(&toks, s);
    let ex = explicit(&a);
    let toks2 = render_tokens(&ex, ORDER, s, 0);
    let text2 = layout(&toks2, s);
    case.note(format!("context {}; text {}; explicit {}", g.show(), quote(&text), quote(&text2)));
    classify(&a, case);
    let p = parser(&g);
    let x = must_parse(&p, &text)?;
    let y = must_parse(&p, &text2)?;
    let ast = a.norm();
    let names = ast.vars();
    let exact = !OPT || !ast.has_vars();
    for k in 0..3 {
        let env = full_env(s, &names, k != 2);
        let used = check_value(case, "implicit form", &x, &ast, &env, exact)?;
        check_value(case, "explicit form", &y, &ast, &env, exact)?;
        let (v, w) = (must_eval(&x, &env)?, must_eval(&y, &env)?);
        if used && !same(v, w) {
            return Err(format!("implicit form gives {v:?}, explicit form {w:?} at {}", show_env(&env)));
        }
    }
    case.nontrivial(&text);
    // a number literal after a number literal is rejected wherever it appears
    let at: Vec<usize> = toks
        .iter()
        .enumerate()
        .filter(|(_, t)| t.starts_with(|c: char| c.is_ascii_digit() || c == '.'))
        .map(|(i, _)| i)
        .collect();
    let mut bad = toks.clone();
    let lit = ["5", "0", "1.5", "2e3", "12"][s.below(5)].to_owned();
    if at.is_empty() {
        bad.push("(".into());
        bad.push("3".into());
        bad.push(lit);
        bad.push(")".into());
    } else {
        bad.insert(at[s.below(at.len())] + 1, lit);
    }
    let bad = bad.join(" ");
    case.note(format!("with adjacent numbers {}", quote(&bad)));
    case.eval();
    if let Ok(z) = parse(&p, &bad)? {
        return Err(format!("adjacent numbers accepted: {} as {}", quote(&bad), display(&z)?));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ P10

pub fn p10(s: &mut Src, case: &mut Case) -> R<()> {
    // a literal, possibly malformed, as digits, points, underscores and exponent
    let long = s.chance(1, 6);
    let lit = match s.below(10) {
        0..=5 => gen_literal(s, if long { 420 } else { 22 }),
        6 => {
            // shortest or full representation of a random double
            let v = gen_finite(s).abs();
            if s.chance(1, 2) {
                format!("{v:e}")
            } else {
                format!("{v}")
            }
        }
        7 => {
            // close to the midpoint of two neighbouring doubles
            let v = f64::from_bits(s.u64() & !(1 << 63));
            if v.is_finite() {
                bigdec::midpoint_decimal(v, s.below(3))
            } else {
                "0".to_owned()
            }
        }
        _ => {
            // digits, points and underscores in any arrangement
            let n = s.range(1, 8);
            let mut t = String::new();
            for _ in 0..n {
                let c = *s.pick(&["0", "1", "9", ".", "_", "5", "."]);
                if t.is_empty() && c == "_" {
                    continue;
                }
                t.push_str(c);
            }
            if t.is_empty() {
                t.push('7');
            }
            t
        }
    };
    let mantissa_end = lit.find(['e', 'E']).unwrap_or(lit.len());
    let digits = lit[..mantissa_end].chars().filter(char::is_ascii_digit).count();
    let points = lit[..mantissa_end].chars().filter(|c| *c == '.').count();
    let valid = digits > 0 && points <= 1;
    let g = gen_ctx(s, CtxOpts { nonfinite: false, shadow: false });
    let g = GenCtx {
        defs: g.defs.into_iter().filter(|d| matches!(d, Def::Const("k" | "C", _))).collect(),
    };
    let rc = g.refctx();
    let p = parser(&g);
    // what surrounds it: prefix, suffix
    const AROUND: &[(&str, &str)] = &[
        ("", ""),
        (" ", " "),
        ("(", ")"),
        ("-", ""),
        ("x+", "*y"),
        ("x*", "-y"),
        ("abs(", ")"),
        ("sum(x,", ",y)"),
        ("x ", ""),
        ("", " x"),
        ("", "x"),
        ("", "(x)"),
        ("+", "!"),
        ("2^", "^x"),
        ("x-", "e"),
        ("", "e"),
        ("", "E"),
        ("", "e+x"),
        ("", "e-x"),
        ("", "e-"),
        ("", "ex"),
        ("", "e_"),
        ("", "E x"),
        ("", "e(x)"),
        ("", "e2"),
        ("", "E+3"),
        ("", "e-2"),
        ("", "e 2"),
        ("", "e+ 2"),
        ("", "e .5"),
        ("", "e2.5"),
        ("", "e2_3"),
        ("", "e2e3"),
        ("", "pi"),
        ("", "exp(x)"),
        ("", "\t%y"),
        ("x/", "/y"),
        ("", "e3x"),
        ("", "e3(x)"),
        ("", "e+3x"),
        ("", "xe3"),
    ];
    // or something that looks like an exponent
    let mut exp = String::new();
    if s.chance(1, 4) {
        exp.push_str(*s.pick(&["e", "E"]));
        exp.push_str(*s.pick(&["", "", "+", "-", "_", ".", " ", "e"]));
        for _ in 0..s.below(4) {
            exp.push_str(*s.pick(&["0", "1", "2", "7", "12", "30"]));
        }
        for _ in 0..s.below(4) {
            exp.push_str(*s.pick(&[".", "5", "_", "e", "E", "+", "-", " ", "x", "!", "3", "*", "(y)", "'", "^2"]));
        }
        case.class("exponent look-alike");
    }
    let (pre, post) = match s.below(3) {
        _ if !exp.is_empty() => (AROUND[s.below(12)].0, exp.as_str()),
        0 => AROUND[0],
        _ => *s.pick(AROUND),
    };
    let post = if !exp.is_empty() && pre.contains('(') { format!("{post})") } else { post.to_owned() };
    let text = format!("{pre}{lit}{post}");
    case.note(format!("text {}", quote(&text)));
    case.class(if long { "long literal" } else { "short literal" });
    if !valid {
        case.class("malformed");
    }
    if lit.contains('_') {
        case.class("underscores");
    }
    case.nontrivial(&text);
    case.eval();
    if valid {
        // alone: exactly the nearest double
        let x = must_parse(&p, &lit)?;
        let v = must_eval(&x, &Env::new())?;
        if !bigdec::is_nearest(&lit, v) {
            return Err(format!("{} evaluates to {v:e}, which is not the nearest double", quote(&lit)));
        }
        if !vars(&x).is_empty() {
            return Err(format!("{} has variables {:?}", quote(&lit), vars(&x)));
        }
    } else if parse(&p, &lit)?.is_ok() {
        return Err(format!("malformed literal {} accepted", quote(&lit)));
    }
    if unspecified(&text) {
        return Ok(());
    }
    // in context: as the reference tokenizer and grammar read it
    let want = ref_parse(&text, &rc, ORDER);
    let got = parse(&p, &text)?;
    match (want, got) {
        (Err(_), Err(_)) => {
            case.class("rejected in context");
            Ok(())
        }
        (Err(e), Ok(x)) => Err(format!(
            "{} is not well-formed ({:?}) but was accepted as {}",
            quote(&text),
            e.kind,
            display(&x)?
        )),
        (Ok(r), Err(e)) => {
            Err(format!("{} means {} but was rejected ({})", quote(&text), r.ast.show(), err_msg(&e)?))
        }
        (Ok(r), Ok(x)) => {
            case.class("accepted in context");
            let names = r.ast.vars();
            let exact = !OPT || names.is_empty();
            for k in 0..2 {
                let env = full_env(s, &names, k == 0);
                check_value(case, "value in context", &x, &r.ast, &env, exact)?;
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------------------ P11

/// Whitespace between tokens where it is allowed, long runs now and then.
fn relayout(toks: &[String], s: &mut Src) -> String {
    let mut t = String::new();
    let dense = s.below(3);
    // now and then one very long gap
    let mut until_long = if s.chance(1, 40) { Some(s.below(toks.len() + 1)) } else { None };
    let mut gap = |s: &mut Src, must: bool| -> String {
        let mut w = String::new();
        match until_long {
            Some(0) => {
                until_long = None;
                let n = *s.pick(&[130, 260, 300, 1030, 4100, 65_540]) + s.below(4);
                let n = if s.chance(1, 4) { s.dict_size(5, 70_000).unwrap_or(n) } else { n };
                let c = *s.pick(&[' ', '\t', '\n', '\r', '\x0c']);
                return c.to_string().repeat(n);
            }
            Some(k) => until_long = Some(k - 1),
            None => (),
        }
        let n = match s.below(8) {
            0..=3 => 0,
            4 | 5 => 1,
            6 => s.range(1, 4),
            _ => s.size(1, 60, 3000),
        };
        let n = if dense == 0 { n.min(1) } else { n };
        for _ in 0..n.max(usize::from(must)) {
            w.push(*s.pick(&[' ', '\t', '\n', '\r', '\x0c']));
        }
        w
    };
    t.push_str(&gap(s, false));
    for (i, tok) in toks.iter().enumerate() {
        if i > 0 {
            // alphanumeric neighbours (and exponents) need a separator
            let a = toks[i - 1].chars().last().unwrap_or(' ');
            let b = tok.chars().next().unwrap_or(' ');
            let wordy = |c: char| c.is_ascii_alphanumeric() || matches!(c, '.' | '_' | '\'');
            let must = wordy(a) && (wordy(b) || matches!(b, '+' | '-'))
                || matches!(a, '+' | '-') && wordy(b);
            t.push_str(&gap(s, must));
        }
        t.push_str(tok);
    }
    t.push_str(&gap(s, false));
    t
}

fn same_outcome(a: &str, b: &str, p: &xprs::Parser) -> R<bool> {
    let (x, y) = (parse(p, a)?, parse(p, b)?);
    match (x, y) {
        (Err(_), Err(_)) => Ok(false),
        (Ok(_), Err(e)) => {
            Err(format!("{} accepted, {} rejected ({})", quote(a), quote(b), err_msg(&e)?))
        }
        (Err(e), Ok(_)) => {
            Err(format!("{} rejected ({}), {} accepted", quote(a), err_msg(&e)?, quote(b)))
        }
        (Ok(x), Ok(y)) => {
            let (dx, dy) = (display(&x)?, display(&y)?);
            if dx != dy {
                return Err(format!("{} is {dx}, {} is {dy}", quote(a), quote(b)));
            }
            if vars(&x) != vars(&y) {
                return Err(format!("different variables for {} and {}", quote(a), quote(b)));
            }
            if !dx.contains("NaN") && !sut("equality", || x == y)? {
                return Err(format!("{} and {} parse to unequal expressions", quote(a), quote(b)));
            }
            Ok(true)
        }
    }
}

pub fn p11(s: &mut Src, case: &mut Case) -> R<()> {
    let g = gen_ctx(s, CTX_ANY);
    let rc = g.refctx();
    let p = parser(&g);
    if s.chance(1, 2) {
        // whitespace, any token list
        let mut toks: Vec<String> = if s.chance(1, 3) {
            let t = gen_soup(s);
            tokenize(&t).iter().map(|k| t[k.start..k.end].to_owned()).collect()
        } else {
            let names = gen_vars(s, &rc, 4);
            let a = Gen::new(s, GenOpts { fuel: 30, ..GenOpts::default() }, &rc, names).top();
            let k = s.below(3);
            render_tokens(&a, ORDER, s, k)
        };
        if s.chance(1, 4) {
            mutate_tokens(&mut toks, s);
            let t = toks.join(" ");
            toks = tokenize(&t).iter().map(|k| t[k.start..k.end].to_owned()).collect();
        }
        let a = toks.join(" ");
        let b = relayout(&toks, s);
        case.note(format!("context {}; texts {} and {}", g.show(), quote(&a), quote(&b)));
        if !same_tokens(&b, &toks) {
            return Ok(());
        }
        case.eval();
        let accepted = same_outcome(&a, &b, &p)?;
        case.class(if accepted { "whitespace, accepted" } else { "whitespace, rejected" });
        if toks.len() > 2 {
            case.nontrivial(&b);
        }
        return Ok(());
    }
    let names = gen_vars(s, &rc, 4);
    let gen = Gen::new(s, GenOpts { fuel: 40, ..GenOpts::default() }, &rc, names).top();
    let plain = render_tokens(&gen, ORDER, s, 0);
    let many = 2 + s.below(10);
    let wrapped = render_tokens(&gen, ORDER, s, many);
    let (mut a, b) = (plain.join(" "), wrapped.join(" "));
    if s.chance(1, 4) {
        let n = s.range(1, 80);
        a = format!("{}{a}{}", "(".repeat(n), ")".repeat(n));
    }
    case.note(format!("context {}; texts {} and {}", g.show(), quote(&a), quote(&b)));
    let x = must_parse(&p, &a)?;
    let y = must_parse(&p, &b)?;
    let ast = gen.norm();
    let names = ast.vars();
    let exact = !OPT || names.is_empty();
    case.class("parentheses");
    for k in 0..3 {
        let env = full_env(s, &names, k != 2);
        check_value(case, "fewest parentheses", &x, &ast, &env, exact)?;
        check_value(case, "more parentheses", &y, &ast, &env, exact)?;
        let (v, w) = (must_eval(&x, &env)?, must_eval(&y, &env)?);
        let mut reg = Reg::default();
        ast.eval_reg(&env, &mut reg);
        if (exact || reg.regular()) && !same(v, w) {
            return Err(format!("{v:?} and {w:?} at {}", show_env(&env)));
        }
    }
    if a != b {
        case.nontrivial(&b);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ P18

/// Does the message name the thing?
fn names_it(msg: &str, kind: &ErrKind) -> bool {
    match kind {
        ErrKind::End => msg.to_lowercase().contains("end of expression"),
        ErrKind::Unexpected(c) | ErrKind::Illegal(c) | ErrKind::Expected(c) => {
            msg.contains(&format!("`{c}`"))
        }
        ErrKind::Malformed(t) => msg.contains(&format!("`{t}`")),
        ErrKind::TooFew(e, g) | ErrKind::TooMany(e, g) => {
            integers(msg) == [*e, *g] || integers(msg) == [*g, *e] && e != g
        }
        ErrKind::MissingArg => msg.to_lowercase().contains("missing argument"),
    }
}

pub fn p18(s: &mut Src, case: &mut Case) -> R<()> {
    let g = gen_ctx(s, CTX_ANY);
    let rc = g.refctx();
    let p = parser(&g);
    let mut text = gen_any_text(s, case, &rc, ORDER);
    if s.chance(1, 3) {
        // an error inside calls and parentheses
        let inner = text.clone();
        text = match s.below(6) {
            0 => format!("max({inner}"),
            1 => format!("max(x, {inner})"),
            2 => format!("(1 + ({inner})) * 2"),
            3 => format!("sum(abs({inner}), y)"),
            4 => format!("x - atan2(y, {inner}) - z"),
            _ => format!("sqrt(max(1,{inner},2))"),
        };
        case.class("nested");
    }
    if s.chance(1, 30) {
        // far from the beginning
        let n = *s.pick(&[120, 250, 260, 700, 2000, 65_530]) + s.below(8);
        let n = if s.chance(1, 4) { s.dict_size(5, 70_000).unwrap_or(n) } else { n };
        let c = if n > 700 { '\n' } else { *s.pick(&[' ', '\t', '\n', '\r', '\x0c']) };
        text = format!("{}{text}", c.to_string().repeat(n));
        case.class("far from the beginning");
    }
    case.note(format!("context {}; text {}", g.show(), quote(&text)));
    if unspecified(&text) {
        return Ok(());
    }
    let Err(want) = ref_parse(&text, &rc, ORDER) else {
        case.class("well-formed (skipped)");
        return Ok(());
    };
    case.eval();
    let e = match parse(&p, &text)? {
        Err(e) => e,
        Ok(x) => {
            return Err(format!(
                "{} ({:?} at byte {}) was accepted as {}",
                quote(&text),
                want.kind,
                want.start,
                display(&x)?
            ))
        }
    };
    let i = err_info(&e, text.len())?;
    let ctx = format!(
        "{}: message {:?}, labels {:?}; the problem is {:?} at bytes {}..{}",
        quote(&text),
        i.msg,
        i.labels,
        want.kind,
        want.start,
        want.end
    );
    case.class(match want.kind {
        ErrKind::End => "end of text",
        ErrKind::Unexpected(_) => "unexpected",
        ErrKind::Illegal(_) => "illegal",
        ErrKind::Expected(_) => "expected",
        ErrKind::Malformed(_) => "malformed number",
        ErrKind::TooFew(..) => "too few",
        ErrKind::TooMany(..) => "too many",
        ErrKind::MissingArg => "missing argument",
    });
    if !text.is_ascii() {
        case.class("non-ASCII text");
    }
    case.nontrivial(&text);
    if !text.is_empty() && i.source.as_deref() != Some(&text) {
        return Err(format!("source text not carried ({:?}) by {ctx}", i.source));
    }
    let [(o, l)] = i.labels[..] else {
        return Err(format!("not exactly one label: {ctx}"));
    };
    let end = o.checked_add(l).unwrap_or(usize::MAX);
    if end > text.len() || !text.is_char_boundary(o) || !text.is_char_boundary(end) {
        return Err(format!("label outside the text or inside a character: {ctx}"));
    }
    let placed = match want.kind {
        // the end, or the last character
        ErrKind::End => o == want.start || o + 1 == want.start && end <= want.start,
        ErrKind::Unexpected(_) | ErrKind::Illegal(_) | ErrKind::Expected(_) => {
            o == want.start && end <= want.end
        }
        ErrKind::Malformed(_) | ErrKind::TooFew(..) | ErrKind::TooMany(..) => {
            (o, end) == (want.start, want.end)
        }
        // from the comma side to the parenthesis
        ErrKind::MissingArg => o <= want.start && want.start <= end && l <= 2,
    };
    if !placed {
        return Err(format!("label misplaced: {ctx}"));
    }
    if !names_it(&i.msg, &want.kind) {
        return Err(format!("message does not name the problem: {ctx}"));
    }
    if let (ErrKind::TooFew(a, b), Some(h)) | (ErrKind::TooMany(b, a), Some(h)) =
        (&want.kind, &i.help)
    {
        if integers(h) != [a - b] {
            return Err(format!("help {h:?} should say {}: {ctx}", a - b));
        }
    }
    sut("rendering", || e.clone())?;
    if text.len() < 3000 {
        render_report(e)?;
    }
    // what follows the problem does not matter
    if want.kind != ErrKind::End && want.end > want.start {
        let head = &text[..want.end];
        let mut tail = String::new();
        if s.chance(3, 4) {
            tail.push(' ');
            let t = gen_soup(s);
            tail.push_str(&t);
        }
        let other = format!("{head}{tail}");
        let Err(w2) = ref_parse(&other, &rc, ORDER) else {
            return Err(format!("HARNESS: {} became well-formed as {}", ctx, quote(&other)));
        };
        if w2.kind == want.kind && w2.start == want.start {
            case.note(format!("same start {}", quote(&other)));
            case.eval();
            match parse(&p, &other)? {
                Ok(_) => return Err(format!("{} accepted, although {ctx}", quote(&other))),
                Err(f) => {
                    let j = err_info(&f, other.len())?;
                    if j.msg != i.msg || j.labels != i.labels {
                        return Err(format!(
                            "{} reports {:?} at {:?}, although {ctx}",
                            quote(&other),
                            j.msg,
                            j.labels
                        ));
                    }
                }
            }
        }
    }
    Ok(())
}

/// Deep inputs on an ordinary 8 MiB stack (see the known findings): exit 0 if handled.
pub fn probe(kind: &str, n: usize) -> i32 {
    let text = match kind {
        "parens" => format!("{}1{}", "(".repeat(n), ")".repeat(n)),
        "open" => "(".repeat(n),
        "minus" => format!("{}1", "-".repeat(n)),
        "chain" => format!("{}x", "x+".repeat(n)),
        _ => return 2,
    };
    let p = xprs::Parser::default();
    match p.parse(&text) {
        Ok(x) => {
            let m = [("x", 1.0)].into();
            let v = x.eval(&m);
            drop(v);
            drop(x);
        }
        Err(e) => drop(e.to_string()),
    }
    0
}
