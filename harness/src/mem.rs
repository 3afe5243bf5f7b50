//! P20: user functions that panic leave memory sound.
//!
//! The global allocator keeps, for blocks allocated while tracking is on, a header in front of the
//! block: freeing twice is noticed, freed blocks are filled with a pattern and kept until the end
//! of the case (writes after the free change the pattern, reads see nonsense), and blocks still
//! live when everything was dropped are leaks.
use crate::sut::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use xprs::{Context, Function, Parser, Xprs};
use xvcore::*;

pub struct Tracking;

const PLAIN: u64 = 0x504c_4149_4e21_0001;
const LIVE: u64 = 0x4c49_5645_2121_0002;
const FREED: u64 = 0x4652_4545_4421_0003;
const FILL: u8 = 0xDB;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    next: *mut Header,
}
const HEAD: usize = 32;

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
}
static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
/// Bytes of tracked blocks: now, at most, and all ever allocated.
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
static PEAK_BYTES: AtomicI64 = AtomicI64::new(0);
static ALL_BYTES: AtomicI64 = AtomicI64::new(0);
/// Freed blocks go back to the system at once.
static NO_QUARANTINE: AtomicBool = AtomicBool::new(false);
static DOUBLE_FREES: AtomicU64 = AtomicU64::new(0);
static QUARANTINE: AtomicPtr<Header> = AtomicPtr::new(std::ptr::null_mut());

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 {
            return System.alloc(l);
        }
        let Ok(full) = Layout::from_size_align(l.size() + HEAD, 16) else {
            return std::ptr::null_mut();
        };
        let p = System.alloc(full);
        if p.is_null() {
            return p;
        }
        let tracked = TRACK.try_with(Cell::get).unwrap_or(false);
        let h = p.cast::<Header>();
        h.write(Header {
            magic: if tracked { LIVE } else { PLAIN },
            size: l.size(),
            align: l.align(),
            next: std::ptr::null_mut(),
        });
        if tracked {
            LIVE_BLOCKS.fetch_add(1, SeqCst);
            let n = l.size() as i64;
            ALL_BYTES.fetch_add(n, SeqCst);
            let now = LIVE_BYTES.fetch_add(n, SeqCst) + n;
            PEAK_BYTES.fetch_max(now, SeqCst);
        }
        p.add(HEAD)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > 16 {
            return System.dealloc(p, l);
        }
        let h = p.sub(HEAD).cast::<Header>();
        match (*h).magic {
            LIVE => {
                (*h).magic = FREED;
                if (*h).size != l.size() || (*h).align != l.align() {
                    DOUBLE_FREES.fetch_add(1, SeqCst);
                }
                std::ptr::write_bytes(p, FILL, (*h).size);
                LIVE_BLOCKS.fetch_sub(1, SeqCst);
                LIVE_BYTES.fetch_sub((*h).size as i64, SeqCst);
                if NO_QUARANTINE.load(SeqCst) {
                    let size = (*h).size;
                    return System.dealloc(h.cast(), Layout::from_size_align_unchecked(size + HEAD, 16));
                }
                let mut head = QUARANTINE.load(SeqCst);
                loop {
                    (*h).next = head;
                    match QUARANTINE.compare_exchange(head, h, SeqCst, SeqCst) {
                        Ok(_) => break,
                        Err(now) => head = now,
                    }
                }
            }
            PLAIN => {
                System.dealloc(h.cast(), Layout::from_size_align_unchecked(l.size() + HEAD, 16));
            }
            _ => {
                // freed already, or never allocated
                DOUBLE_FREES.fetch_add(1, SeqCst);
            }
        }
    }
}

/// Empties the quarantine; the number of blocks written to after they were freed.
fn release_quarantine() -> u64 {
    let mut h = QUARANTINE.swap(std::ptr::null_mut(), SeqCst);
    let mut spoiled = 0;
    unsafe {
        while !h.is_null() {
            let next = (*h).next;
            let size = (*h).size;
            let data = std::slice::from_raw_parts(h.cast::<u8>().add(HEAD), size);
            if (*h).magic != FREED || data.iter().any(|b| *b != FILL) {
                spoiled += 1;
            }
            System.dealloc(h.cast(), Layout::from_size_align_unchecked(size + HEAD, 16));
            h = next;
        }
    }
    spoiled
}

/// Runs `f` with its allocations tracked.
fn track<T>(f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            TRACK.with(|t| t.set(false));
        }
    }
    let _off = Off;
    TRACK.with(|t| t.set(true));
    f()
}

// ------------------------------------------------------------------------------- the functions

/// The panic of a user function (raised without going through the panic hook).
struct Boom;

thread_local! {
    /// calls left until a function panics; none: never
    static FUSE: Cell<Option<u32>> = const { Cell::new(None) };
    static CALLED: Cell<u32> = const { Cell::new(0) };
}

fn spark() {
    CALLED.with(|c| c.set(c.get() + 1));
    FUSE.with(|f| match f.get() {
        None => (),
        Some(0) => {
            f.set(None);
            resume_unwind(Box::new(Boom))
        }
        Some(n) => f.set(Some(n - 1)),
    });
}

fn bang(a: &[f64]) -> f64 {
    spark();
    a.iter().fold(1.0, |acc, x| acc * 1.5 + x)
}
fn bang1(a: &[f64]) -> f64 {
    spark();
    a[0] - 2.0
}
fn bang2(a: &[f64]) -> f64 {
    spark();
    a[0] - 3.0 * a[1]
}

enum Done<T> {
    Val(T),
    Boom,
}

/// Calls into the crate with the fuse set; other panics are failures.
fn call<T>(what: &str, fuse: Option<u32>, f: impl FnOnce() -> T) -> R<Done<T>> {
    FUSE.with(|x| x.set(fuse));
    let r = catch_unwind(AssertUnwindSafe(|| track(f)));
    FUSE.with(|x| x.set(None));
    match r {
        Ok(v) => Ok(Done::Val(v)),
        Err(e) if e.is::<Boom>() => {
            drop(e);
            Ok(Done::Boom)
        }
        Err(_) => Err(format!("{what} panicked: {}", take_panic())),
    }
}

// -------------------------------------------------------------------------------- the scenario

const VNAMES: [&str; 4] = ["x", "y", "z", "t"];

fn gen_expr(s: &mut Src, d: usize, out: &mut String) {
    if d == 0 || s.exhausted() {
        match s.below(6) {
            0..=2 => out.push_str(s.pick(&VNAMES)),
            3 => out.push_str("k"),
            _ => out.push_str(&s.below(9).to_string()),
        }
        return;
    }
    match s.below(14) {
        0..=5 => {
            let (name, n) = *s.pick(&[("b1", 1), ("d1", 1), ("b2", 2), ("d2", 2), ("bv", 9), ("dv", 9), ("max", 9)]);
            let n = if n == 9 { s.below(5) } else { n };
            out.push_str(name);
            out.push('(');
            for i in 0..n {
                if i > 0 {
                    out.push(',');
                }
                gen_expr(s, d - 1, out);
            }
            out.push(')');
        }
        6 => {
            out.push_str("-(");
            gen_expr(s, d - 1, out);
            out.push(')');
        }
        7 => {
            out.push('(');
            gen_expr(s, d - 1, out);
            out.push_str(")!");
        }
        8 => {
            // the same operand twice: rules that compare and drop subtrees
            let mut t = String::new();
            gen_expr(s, d - 1, &mut t);
            out.push_str(&format!("(({t}){}({t}))", s.pick(&["-", "/", "%", "+", "*"])));
        }
        _ => {
            out.push('(');
            gen_expr(s, d - 1, out);
            out.push_str(*s.pick(&["+", "*", "-", "/", "^", "%", "+0*", "*1+", "^0*", "*0+"]));
            gen_expr(s, d - 1, out);
            out.push(')');
        }
    }
}

type Bound = Box<dyn Fn(&[f64]) -> f64>;

/// An expression under observation, with what it evaluates to.
struct Item<'t> {
    x: Xprs<'t>,
    shown: String,
    value: f64,
}

const ENV: [f64; 4] = [2.0, 0.5, -1.25, 3.0];

fn env() -> HashMap<&'static str, f64> {
    VNAMES.iter().copied().zip(ENV).collect()
}

fn value_of(x: &Xprs, m: &HashMap<&str, f64>) -> R<f64> {
    match call("evaluation", None, || x.eval(m))? {
        Done::Val(Ok(v)) => Ok(v),
        Done::Val(Err(e)) => Err(format!("evaluation of {x} with x, y, z and t: {e}")),
        Done::Boom => unreachable!(),
    }
}

fn unchanged(items: &[Item], m: &HashMap<&str, f64>, log: &[String]) -> R<()> {
    for it in items {
        let shown = it.x.to_string();
        if shown != it.shown {
            return Err(format!("after {log:?}: {} became {shown}", it.shown));
        }
        let v = value_of(&it.x, m)?;
        if !identical(v, it.value) {
            return Err(format!("after {log:?}: {} was {:?}, is {v:?}", it.shown, it.value));
        }
    }
    Ok(())
}

/// One run of the scenario; returns the number of panics raised. `texts` outlives everything.
fn scenario(s: &mut Src, texts: &[String], token: &Arc<()>, case: &mut Case) -> R<u32> {
    let m = env();
    let mut log: Vec<String> = Vec::new();
    let mut booms = 0;
    let mut build = || -> Parser<'static> {
        let (a, b, c) = (token.clone(), token.clone(), token.clone());
        let mut ctx = Context::default()
            .with_fn(Function::new_static("b1", bang1, Some(1)))
            .with_fn(Function::new_static("b2", bang2, Some(2)))
            .with_fn(Function::new_static("bv", bang, None))
            .with_fn(Function::new_dyn("d1", move |v| { let _ = &a; bang1(v) }, Some(1)))
            .with_fn(Function::new_dyn("d2", move |v| { let _ = &b; bang2(v) }, Some(2)));
        ctx.set_fn(Function::new_dyn("dv", move |v| { let _ = &c; bang(v) }, None));
        ctx.set_var("k", 4.0);
        Parser::new_with_ctx(ctx)
    };
    let mut p = track(&mut build);
    let mut items: Vec<Item> = Vec::new();
    let mut bounds: Vec<(Bound, f64)> = Vec::new();
    let n = s.size(3, 16, 40);
    for i in 0..n {
        if s.exhausted() {
            break;
        }
        let fuse = if s.chance(2, 3) { Some(s.below(3) as u32) } else { None };
        let fuse = if i == 0 { None } else { fuse };
        let op = if i == 0 { 0 } else { s.below(14) };
        let mut boomed = false;
        match op {
            // parse
            0..=2 => {
                let t = &texts[s.below(texts.len())];
                log.push(format!("parse {t} (fuse {fuse:?})"));
                match call("parse", fuse, || p.parse(t))? {
                    Done::Val(Ok(x)) => {
                        let shown = x.to_string();
                        let value = value_of(&x, &m)?;
                        items.push(Item { x, shown, value });
                    }
                    Done::Val(Err(e)) => return Err(format!("{t} rejected: {e}")),
                    Done::Boom => boomed = true,
                }
            }
            // evaluate
            3 | 4 if !items.is_empty() => {
                let it = &items[s.below(items.len())];
                log.push(format!("eval {} (fuse {fuse:?})", it.shown));
                let r = if op == 3 {
                    call("eval", fuse, || it.x.eval(&m).unwrap_or(f64::NAN))?
                } else {
                    call("eval_unchecked", fuse, || it.x.eval_unchecked(&m))?
                };
                match r {
                    Done::Val(v) if !identical(v, it.value) => {
                        return Err(format!("after {log:?}: evaluation gives {v:?}, before {:?}", it.value))
                    }
                    Done::Val(_) => (),
                    Done::Boom => boomed = true,
                }
            }
            // simplify in place
            5..=8 if !items.is_empty() => {
                let i = s.below(items.len());
                let k = s.below(4);
                let l = s.below(4);
                let list = [(VNAMES[k], ENV[k]), ("unused", 1.0), (VNAMES[l], ENV[l])];
                // work on a clone now and then
                let it = if s.chance(1, 2) {
                    let c = track(|| items[i].x.clone());
                    Item { x: c, shown: items[i].shown.clone(), value: items[i].value }
                } else {
                    items.swap_remove(i)
                };
                let Item { mut x, shown, value } = it;
                log.push(format!("simplify({op}) {shown} for {list:?} (fuse {fuse:?})"));
                let kept = match op {
                    5 => match call("simplify_for_in_place", fuse, || x.simplify_for_in_place(list[0]))? {
                        Done::Val(()) => Some(x),
                        Done::Boom => {
                            boomed = true;
                            Some(x)
                        }
                    },
                    6 => match call("simplify_for_multiple_in_place", fuse, || {
                        x.simplify_for_multiple_in_place(&list)
                    })? {
                        Done::Val(()) => Some(x),
                        Done::Boom => {
                            boomed = true;
                            Some(x)
                        }
                    },
                    7 => match call("simplify_for", fuse, move || x.simplify_for(list[0]))? {
                        Done::Val(y) => Some(y),
                        Done::Boom => {
                            boomed = true;
                            None
                        }
                    },
                    _ => match call("simplify_for_multiple", fuse, move || x.simplify_for_multiple(&list))? {
                        Done::Val(y) => Some(y),
                        Done::Boom => {
                            boomed = true;
                            None
                        }
                    },
                };
                if boomed && kept.is_some() {
                    case.class("panic while simplifying in place");
                }
                if let Some(mut x) = kept {
                    if boomed {
                        // what is left is an expression: it can be shown, copied, simplified again and
                        // evaluated without touching freed memory; no value is promised
                        for step in 0..3 {
                            match s.below(4) {
                                0 => drop(call("display", None, || x.to_string())?),
                                1 => drop(call("clone", None, || x.clone())?),
                                2 => drop(call("evaluation", None, || x.eval(&m))?),
                                _ => drop(call("simplify", None, || x.simplify_for_in_place(("x", step as f64)))?),
                            }
                        }
                        track(|| drop(x));
                    } else {
                        let shown = x.to_string();
                        let v = value_of(&x, &m)?;
                        let _ = value;
                        items.push(Item { x, shown, value: v });
                    }
                }
            }
            // bind, with the function kept
            9 if !items.is_empty() => {
                let it = items.swap_remove(s.below(items.len()));
                log.push(format!("bind {}", it.shown));
                let owned = Owned::new(it.x.clone());
                drop(it.x);
                let v = it.value;
                match call("bind4", None, || owned.bind())? {
                    Done::Val(Ok(f)) => bounds.push((f, v)),
                    Done::Val(Err(e)) => return Err(format!("binding {} to x, y, z, t: {e}", it.shown)),
                    Done::Boom => unreachable!(),
                }
            }
            10 if !bounds.is_empty() => {
                let (f, v) = &bounds[s.below(bounds.len())];
                log.push(format!("call bound (fuse {fuse:?})"));
                match call("the bound function", fuse, || f(&ENV))? {
                    Done::Val(w) if !identical(*v, w) => {
                        return Err(format!("after {log:?}: the bound function gives {w:?}, expected {v:?}"))
                    }
                    Done::Val(_) => (),
                    Done::Boom => {
                        case.class("panic in a bound function");
                        boomed = true;
                    }
                }
            }
            11 if !items.is_empty() => {
                let i = s.below(items.len());
                log.push(format!("clone {}", items[i].shown));
                let it = &items[i];
                let c = Item { x: track(|| it.x.clone()), shown: it.shown.clone(), value: it.value };
                items.push(c);
            }
            12 if !items.is_empty() => {
                let it = items.swap_remove(s.below(items.len()));
                log.push(format!("drop {}", it.shown));
                track(|| drop(it.x));
            }
            13 => {
                if s.chance(1, 2) {
                    log.push("clone the parser".into());
                    p = track(|| p.clone());
                } else {
                    log.push("new parser".into());
                    p = track(&mut build);
                }
            }
            _ => (),
        }
        if boomed {
            booms += 1;
            log.push("boom".into());
            // everything else is as before
            unchanged(&items, &m, &log)?;
            for (f, v) in &bounds {
                match call("a bound function", None, || f(&ENV))? {
                    Done::Val(w) if identical(*v, w) => (),
                    _ => return Err(format!("after {log:?}: a bound function changed")),
                }
            }
            let t = &texts[0];
            match call("parse", None, || p.parse(t))? {
                Done::Val(Ok(x)) => {
                    value_of(&x, &m)?;
                }
                _ => return Err(format!("after {log:?}: {t} is no longer accepted")),
            }
        }
        if DOUBLE_FREES.load(SeqCst) != 0 {
            return Err(format!("after {log:?}: memory freed twice"));
        }
    }
    unchanged(&items, &m, &log)?;
    case.note(format!("{log:?}"));
    case.eval();
    // everything goes, in any order
    if s.chance(1, 2) {
        track(|| drop(p));
        track(|| drop(bounds));
        track(|| drop(items));
    } else {
        track(|| drop(items));
        track(|| drop(p));
        track(|| drop(bounds));
    }
    Ok(booms)
}

/// An expression made independent of the borrowed text by leaking nothing: the names of the
/// variables are static, only the lifetime is widened.
struct Owned(Xprs<'static>);

impl Owned {
    fn new(x: Xprs<'_>) -> Self {
        // Safety: the texts outlive the scenario and so every bound function
        Owned(unsafe { std::mem::transmute::<Xprs<'_>, Xprs<'static>>(x) })
    }
    fn bind(self) -> Result<Bound, xprs::BindError> {
        let f = self.0.bind4("x", "y", "z", "t")?;
        Ok(Box::new(move |a: &[f64]| f(a[0], a[1], a[2], a[3])))
    }
}

pub fn p20(s: &mut Src, case: &mut Case) -> R<()> {
    let mut texts = Vec::new();
    for _ in 0..s.range(1, 4) {
        let mut t = String::new();
        let d = s.range(1, 3);
        gen_expr(s, d, &mut t);
        if s.chance(2, 3) {
            t = format!("{}({t})", s.pick(&["b1", "d1", "dv", "bv"]));
        }
        texts.push(t);
    }
    case.note(format!("texts {texts:?}"));
    let token = Arc::new(());
    // twice: what the first run leaves behind in caches is not a leak, what the second leaves is
    let mut rest = Vec::new();
    while !s.exhausted() && rest.len() < 4000 {
        rest.push(s.raw());
    }
    let mut booms = 0;
    for round in 0..2 {
        DOUBLE_FREES.store(0, SeqCst);
        release_quarantine();
        let before = LIVE_BLOCKS.load(SeqCst);
        let mut sub = Case::default();
        let r = catch_unwind(AssertUnwindSafe(|| {
            scenario(&mut Src::new(&rest), &texts, &token, &mut sub)
        }));
        let live = LIVE_BLOCKS.load(SeqCst) - before;
        let doubles = DOUBLE_FREES.load(SeqCst);
        let spoiled = release_quarantine();
        if round == 1 {
            case.desc.extend(sub.desc);
            case.classes.extend(sub.classes);
            case.evals += sub.evals;
        }
        booms = match r {
            Ok(r) => r?,
            Err(e) => resume_unwind(e),
        };
        if doubles != 0 {
            return Err("memory freed twice".into());
        }
        if spoiled != 0 {
            return Err("memory written to after it was freed".into());
        }
        if round == 1 && live > 0 {
            return Err(format!("{live} blocks were never freed"));
        }
        if live < 0 {
            return Err(format!("{} blocks freed too often", -live));
        }
        if Arc::strong_count(&token) != 1 {
            return Err(format!("{} references to a dropped function are left", Arc::strong_count(&token) - 1));
        }
    }
    case.class(match booms {
        0 => "no panic",
        1 => "1 panic",
        _ => "several panics",
    });
    if booms > 0 {
        let key: Vec<String> = rest.iter().map(u16::to_string).collect();
        case.nontrivial(&format!("{texts:?}{}", key.join(",")));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ P24

/// Bytes allocated (live at the end, at most, altogether) by `f`.
struct Use {
    live: i64,
    peak: i64,
    all: i64,
}

fn measure<T>(what: &str, f: impl FnOnce() -> T) -> R<(T, Use)> {
    let (live, all) = (LIVE_BYTES.load(SeqCst), ALL_BYTES.load(SeqCst));
    PEAK_BYTES.store(live, SeqCst);
    let v = sut(what, || track(f))?;
    let u = Use {
        live: LIVE_BYTES.load(SeqCst) - live,
        peak: PEAK_BYTES.load(SeqCst) - live,
        all: ALL_BYTES.load(SeqCst) - all,
    };
    Ok((v, u))
}

/// Bytes per byte of text (plus 64); at least ten times what the present tree takes.
const KEPT: i64 = 400;
const PEAK: i64 = 600;
const WORK: i64 = 300;
/// Bytes per square of the length of the displayed form (nested calls are put together from inside).
const SHOWN: i64 = 8;
/// Bytes per square of the same.
const SQUARE: i64 = 200;

fn within(what: &str, text: &str, got: i64, bound: i64) -> R<()> {
    if std::env::var_os("XV_MEASURE").is_some() {
        eprintln!("USE {what} {} {got} {:.4}", text.len(), got as f64 / bound as f64);
    }
    if got > bound {
        return Err(format!(
            "{what} takes {got} bytes for a text of {} bytes (more than {bound}): {}",
            text.len(),
            quote(text)
        ));
    }
    Ok(())
}

/// Everything one does with a text; nothing survives. `bounds`: compare sizes as well.
fn p24_round(g: &GenCtx, declared: Option<&[&'static str]>, text: &str, vals: &[f64], bounds: bool, case: &mut Case) -> R<bool> {
    let n = text.len() as i64 + 64;
    let (p, _) = measure("context", || {
        let mut c = context(g);
        if let Some(d) = declared {
            c.set_expected_vars(d.iter().copied().collect());
        }
        xprs::Parser::new_with_ctx(c)
    })?;
    let (r, u) = measure("parse", || p.parse(text))?;
    if bounds {
        case.eval();
        within("what parsing leaves", text, u.live, KEPT * n)?;
        within("parsing, at most,", text, u.peak, PEAK * n)?;
        within("parsing, altogether,", text, u.all, SQUARE * n * n)?;
    }
    let x = match r {
        Err(e) => {
            let (_, u) = measure("message", || format!("{e} {e:?}"))?;
            if bounds {
                within("the message", text, u.all, WORK * n)?;
            }
            if text.len() < 200 {
                measure("report", move || drop(format!("{:?}", miette::Report::new(e))))?;
            } else {
                measure("drop", move || drop(e))?;
            }
            return Ok(false);
        }
        Ok(x) => x,
    };
    let names: Vec<&str> = {
        let mut v: Vec<&str> = x.vars.iter().copied().collect();
        v.sort_unstable();
        v
    };
    let env: HashMap<&str, f64> =
        names.iter().enumerate().map(|(i, n)| (*n, vals[i % vals.len()])).collect();
    for k in 0..2 {
        let (_, u) = measure("eval", || {
            if k == 0 {
                x.eval(&env).unwrap_or(0.0)
            } else {
                x.eval_unchecked(&env)
            }
        })?;
        if bounds {
            case.eval();
            within("evaluation", text, u.all, WORK * n)?;
        }
    }
    measure("eval without variables", || {
        let _ = x.eval_no_vars().map_err(|e| e.to_string());
        let _ = x.eval(&HashMap::new()).map_err(|e| e.to_string());
    })?;
    let (shown, u) = measure("display", || x.to_string())?;
    if bounds {
        let n = shown.len() as i64 + 64;
        within("display", text, u.all, SHOWN * n * n)?;
    }
    drop(shown);
    let (c, u) = measure("clone", || x.clone())?;
    if bounds {
        within("a clone", text, u.all, KEPT * n)?;
    }
    measure("equality", || c == x)?;
    let list: Vec<(&str, f64)> = names.iter().take(if bounds { 300 } else { 12 }).map(|k| (*k, env[k])).collect();
    let (mut y, u) = measure("simplify_for_multiple", || c.simplify_for_multiple(&list))?;
    if bounds {
        case.eval();
        within("simplification leaves", text, u.live, KEPT * n)?;
        // one name after the other
        let times = (names.len() as i64 / 4).max(1);
        within("simplification, altogether,", text, u.all, SQUARE * n * n * times)?;
    }
    measure("simplify_for_multiple_in_place", || y.simplify_for_multiple_in_place(&list))?;
    let mut z = x.clone();
    for (name, v) in list.iter().take(3) {
        if *v < 0.0 {
            z = measure("simplify_for", || z.simplify_for((name, *v)))?.0;
        } else {
            measure("simplify_for_in_place", || z.simplify_for_in_place((name, *v)))?;
        }
    }
    let (w, _) = measure("clone", || x.clone())?;
    let args: Vec<f64> = names.iter().map(|n| env[n]).collect();
    let names2 = names.clone();
    measure("bind", move || {
        let _ = w.clone().bind("no_such_name").map(|f| f(1.0)).map_err(|e| e.to_string());
        if let Ok(f) = w.bind_n_runtime(&names2) {
            let _ = f(&args).map_err(|e| e.to_string());
            let _ = f(&[]).map_err(|e| e.to_string());
        }
    })?;
    measure("drop", move || drop((x, y, z)))?;
    Ok(true)
}

pub fn p24(s: &mut Src, case: &mut Case) -> R<()> {
    let g = gen_ctx(s, CTX_ANY);
    let rc = g.refctx();
    let long = s.chance(1, 10);
    let text = if long {
        case.class("long or deep text");
        let mut t = crate::lang::gen_long_text(s);
        while t.len() > 1500 {
            t.pop();
        }
        t
    } else if s.chance(1, 24) {
        case.class("many names");
        let stem = *s.pick(&["v", "x_", "Alpha", "_"]);
        let wrap = *s.pick(&["", "", "sin", "-", "max"]);
        let sep = *s.pick(&["+", "*", " - ", "/", "^", ")+(", "! - "]);
        let many: Vec<String> = (0..if s.chance(1, 20) { s.range(100, 260) } else { s.size(10, 60, 260) })
            .map(|i| if wrap.is_empty() { format!("{stem}{i}") } else { format!("{wrap}({stem}{i})") })
            .collect();
        let body = many.join(sep);
        match s.below(4) {
            0 => format!("max({})", many.join(",")),
            1 => format!("sum({body}, {})", many[0]),
            2 => format!("{body} + "),
            _ => format!("({body})"),
        }
    } else if s.chance(1, 6) {
        // one piece inside itself, again and again
        case.class("nested piece");
        let names = gen_vars(s, &rc, 3);
        let o = GenOpts { max_depth: 3, fuel: 8, ..GenOpts::default() };
        let mut piece = Gen::new(s, o, &rc, names).top();
        let mut out = piece.clone();
        let hole = "x".to_owned();
        if !piece.vars().contains(&hole) {
            piece = Ast::Bin(Op::Add, Box::new(piece), Box::new(Ast::Var(hole.clone())));
        }
        for _ in 0..s.size(1, 24, 100) {
            let map = std::iter::once((hole.clone(), out)).collect();
            let next = piece.subst(&map);
            if next.size() > 300 {
                out = next;
                break;
            }
            out = next;
        }
        render(&out, ORDER, s)
    } else {
        crate::lang::gen_text(s, case, &rc)
    };
    let mut text = text;
    while text.len() > 4000 {
        text.pop();
    }
    let declared: Option<Vec<&'static str>> = s.chance(1, 8).then(|| {
        case.class("declared variables");
        VARS.iter().copied().filter(|_| s.chance(4, 5)).collect()
    });
    case.note(format!("context {} {declared:?}; text {}", g.show(), quote(&text)));
    let vals: Vec<f64> = (0..6).map(|_| gen_value(s)).collect();
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            NO_QUARANTINE.store(false, SeqCst);
        }
    }
    let _back = Back;
    NO_QUARANTINE.store(true, SeqCst);
    DOUBLE_FREES.store(0, SeqCst);
    let accepted = p24_round(&g, declared.as_deref(), &text, &vals, true, case)?;
    case.class(if accepted { "accepted" } else { "rejected" });
    // again, and as part of texts never seen before
    let long = if s.chance(1, 2) { 0 } else { s.size(8, 120, 400) };
    let shift = if s.chance(1, 2) { 0 } else { 3 };
    let variant = |i: u64| {
        let i = i + shift;
        let tag = fnv(&text).wrapping_add(i);
        match i % 6 {
            0 | 3 => text.clone(),
            1 => format!("({text}) + q{tag:x}{}", "n".repeat(long)),
            2 => format!("{tag} * ({text})"),
            4 => format!("{}{tag}.5 - ({text})", "1".repeat(long)),
            _ => format!("{}({text}{tag:x}", " ".repeat(long)),
        }
    };
    let moved = |i: u64| -> Vec<f64> { vals.iter().map(|v| v + i as f64).collect() };
    let rounds = if text.len() > 400 { 3 } else { 6 };
    let before = (LIVE_BLOCKS.load(SeqCst), LIVE_BYTES.load(SeqCst));
    for i in 0..rounds {
        p24_round(&g, declared.as_deref(), &variant(i), &moved(i), false, case)?;
    }
    case.eval();
    let grown = |b: (i64, i64)| LIVE_BLOCKS.load(SeqCst) > b.0 || LIVE_BYTES.load(SeqCst) > b.1;
    if grown(before) {
        // something that is filled once or kept up to a limit is not an accumulation
        let more = if text.len() > 200 { 400 } else { 3000 };
        let mut at = before;
        for i in 0..more {
            if i == more / 2 {
                at = (LIVE_BLOCKS.load(SeqCst), LIVE_BYTES.load(SeqCst));
            }
            p24_round(&g, declared.as_deref(), &variant(rounds + i), &moved(rounds + i), false, case)?;
        }
        if grown(at) {
            return Err(format!(
                "after {more} more rounds {} blocks and {} bytes are never freed: {}",
                LIVE_BLOCKS.load(SeqCst) - before.0,
                LIVE_BYTES.load(SeqCst) - before.1,
                quote(&text)
            ));
        }
    }
    if DOUBLE_FREES.load(SeqCst) != 0 {
        return Err("memory freed twice".into());
    }
    if !accepted || text.len() > 8 {
        case.nontrivial(&format!("{}{text}", g.show()));
    }
    Ok(())
}
