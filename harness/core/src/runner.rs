//! Runs a check over choice lists generated and shrunk by proptest, and keeps the statistics.
use crate::src::Src;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Seek, SeekFrom, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Records panics silently instead of printing them.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line()));
        let text = format!("{msg}{}", loc.unwrap_or_default());
        if std::env::var_os("XV_SHOW_PANICS").is_some() {
            eprintln!("panic: {text}");
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(text));
    }));
}

pub fn take_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".to_owned())
}

/// Calls into the code under test; a panic there becomes a failure of the check.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{what} panicked: {}", take_panic()))
}

/// What one case reports.
#[derive(Default)]
pub struct Case {
    pub desc: Vec<String>,
    pub classes: Vec<&'static str>,
    pub key: Option<u64>,
    pub evals: u64,
    /// an operation did not answer in time: no verdict
    pub inconclusive: Option<String>,
}

impl Case {
    pub fn note(&mut self, s: impl Into<String>) {
        let s = s.into();
        // a case that crashes the process cannot describe itself afterwards
        if std::env::var_os("XV_TRACE").is_some() {
            eprintln!("{s}");
        }
        self.desc.push(s);
    }
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    /// Marks the case non-trivial; equal keys count once.
    pub fn nontrivial(&mut self, key: &str) {
        self.key = Some(crate::fnv(key));
    }
    /// Counts evaluations of the oracle inside the case.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn shown(&self) -> String {
        self.desc.join("; ")
    }
}

pub type Check<'a> = &'a dyn Fn(&mut Src, &mut Case) -> Result<(), String>;

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub oracle_evals: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub harness_error: Option<String>,
    pub failure: Option<Failure>,
}

pub struct Failure {
    pub choices: Vec<u16>,
    pub message: String,
    pub desc: String,
}

pub enum Verdict {
    Pass(Case),
    Fail(Case, String),
    HarnessError(String),
}

/// Runs the check once on a choice list.
pub fn run_once(check: Check, choices: &[u16]) -> Verdict {
    let mut case = Case::default();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut s = Src::new(choices);
        let r = check(&mut s, &mut case);
        if s.ran_out() {
            case.class("choices used up");
        }
        r
    }));
    match r {
        Ok(_) if case.inconclusive.is_some() => {
            Verdict::HarnessError(format!("no answer: {}", case.inconclusive.take().unwrap()))
        }
        Ok(Ok(())) => Verdict::Pass(case),
        Ok(Err(m)) => Verdict::Fail(case, m),
        Err(_) => Verdict::HarnessError(format!("{} [{}]", take_panic(), case.shown())),
    }
}

pub struct RunOpts {
    pub seed: u64,
    pub cases: u32,
    pub prop: String,
    pub config: String,
    pub current: Option<std::path::PathBuf>,
    /// multiplies the lengths of choice lists
    pub scale: usize,
}

/// A case written before it runs, so that a crash of the process can be attributed to it.
struct Current(Option<std::fs::File>);

impl Current {
    fn put(&mut self, choices: &[u16]) {
        if let Some(f) = &mut self.0 {
            let mut b = Vec::with_capacity(choices.len() * 2 + 4);
            b.extend_from_slice(&(choices.len() as u32).to_le_bytes());
            for c in choices {
                b.extend_from_slice(&c.to_le_bytes());
            }
            f.seek(SeekFrom::Start(0)).unwrap();
            f.write_all(&b).unwrap();
        }
    }
}

pub fn read_current(path: &str) -> Option<Vec<u16>> {
    let b = std::fs::read(path).ok()?;
    let n = u32::from_le_bytes(b.get(..4)?.try_into().ok()?) as usize;
    b.get(4..4 + 2 * n).map(|d| {
        d.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()
    })
}

pub fn run_many(check: Check, o: &RunOpts) -> Stats {
    let mut seed = [0u8; 32];
    let h = crate::fnv(&format!("{}|{}|{}", o.seed, o.prop, o.config));
    seed[..8].copy_from_slice(&h.to_le_bytes());
    seed[8..16].copy_from_slice(&o.seed.to_le_bytes());
    let config = Config {
        cases: o.cases,
        failure_persistence: None,
        max_shrink_iters: 6000,
        max_shrink_time: 60_000,
        source_file: None,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
    let k = o.scale.max(1);
    let strategy = prop_oneof![
        1 => vec(any::<u16>(), 0..60 * k),
        4 => vec(any::<u16>(), 40 * k..160 * k),
        4 => vec(any::<u16>(), 100 * k..400 * k),
        1 => vec(any::<u16>(), 300 * k..1200 * k),
    ];
    let stats = RefCell::new(Stats::default());
    let cur = RefCell::new(Current(
        o.current.as_ref().map(|p| std::fs::File::create(p).expect("create the current-case file")),
    ));
    let failed = RefCell::new(None::<(String, String)>);
    let res = runner.run(&strategy, |choices: Vec<u16>| {
        cur.borrow_mut().put(&choices);
        let v = run_once(check, &choices);
        let shrinking = failed.borrow().is_some();
        match v {
            Verdict::Pass(case) => {
                if !shrinking {
                    let mut st = stats.borrow_mut();
                    st.cases += 1;
                    st.oracle_evals += case.evals;
                    for c in &case.classes {
                        *st.classes.entry(c).or_default() += 1;
                    }
                    if let Some(key) = case.key {
                        let fresh = st.nontrivial.insert(key);
                        let n = st.nontrivial.len();
                        // samples spread over the run
                        if fresh && st.samples.len() < 12 && (n % 37 == 1 || n < 3) {
                            let mut t = case.shown();
                            if t.len() > 400 {
                                let mut k = 400;
                                while !t.is_char_boundary(k) {
                                    k -= 1;
                                }
                                t.truncate(k);
                                t.push_str("...");
                            }
                            st.samples.push(t);
                        }
                    }
                }
                Ok(())
            }
            Verdict::Fail(case, m) => {
                *failed.borrow_mut() = Some((m.clone(), case.shown()));
                Err(TestCaseError::fail(m))
            }
            Verdict::HarnessError(m) => {
                if shrinking {
                    return Ok(());
                }
                stats.borrow_mut().harness_error = Some(m.clone());
                *failed.borrow_mut() = Some((m.clone(), String::new()));
                Err(TestCaseError::fail(m))
            }
        }
    });
    let mut st = stats.into_inner();
    if st.harness_error.is_none() {
        match res {
            Ok(()) => (),
            Err(TestError::Fail(_, choices)) => {
                // the shrunk case decides the message
                st.failure = Some(match run_once(check, &choices) {
                    Verdict::Fail(case, message) => {
                        Failure { choices, message, desc: case.shown() }
                    }
                    _ => {
                        let (m, d) = failed.into_inner().unwrap();
                        Failure { choices, message: format!("{m} (not reproduced on rerun)"), desc: d }
                    }
                });
            }
            Err(e) => st.harness_error = Some(format!("proptest: {e}")),
        }
    }
    st
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Stats {
    pub fn to_json(&self, o: &RunOpts, replay: Option<&str>) -> String {
        let mut j = String::from("{");
        write!(j, "\"property\":{},", json_str(&o.prop)).unwrap();
        write!(j, "\"config\":{},", json_str(&o.config)).unwrap();
        write!(j, "\"cases\":{},", self.cases).unwrap();
        write!(j, "\"oracle_evals\":{},", self.oracle_evals).unwrap();
        write!(j, "\"nontrivial\":{},", self.nontrivial.len()).unwrap();
        let cl: Vec<String> =
            self.classes.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect();
        write!(j, "\"classes\":{{{}}},", cl.join(",")).unwrap();
        let sm: Vec<String> = self.samples.iter().map(|s| json_str(s)).collect();
        write!(j, "\"samples\":[{}],", sm.join(",")).unwrap();
        let opt = |x: Option<String>| x.map_or("null".to_owned(), |s| json_str(&s));
        write!(j, "\"harness_error\":{},", opt(self.harness_error.clone())).unwrap();
        write!(
            j,
            "\"failure\":{},",
            opt(self.failure.as_ref().map(|f| format!("{} [{}]", f.message, f.desc)))
        )
        .unwrap();
        write!(j, "\"replay\":{}}}", opt(replay.map(str::to_owned))).unwrap();
        j
    }
}
