//! xv: runs one check of one build configuration.
mod bigdec;
mod calls;
mod funcs;
mod lang;
mod mem;
mod peers;
mod repl;
mod semantics;
mod sut;
mod values;

use std::fmt::Write as _;
use std::path::PathBuf;
use xvcore::*;

#[global_allocator]
static ALLOC: mem::Tracking = mem::Tracking;

const STACK: usize = 768 << 20;

type CheckFn = fn(&mut Src, &mut Case) -> Result<(), String>;

const CHECKS: &[(&str, CheckFn)] = &[
    ("P01", lang::p01),
    ("P02", lang::p02),
    ("P03", lang::p03),
    ("P04", semantics::p04),
    ("P05", semantics::p05),
    ("P06", semantics::p06),
    ("P07", funcs::p07),
    ("P08", semantics::p08),
    ("P09", semantics::p09),
    ("P10", lang::p10),
    ("P11", lang::p11),
    ("P12", funcs::p12),
    ("P13", funcs::p13),
    ("P14", funcs::p14),
    ("P15", funcs::p15),
    ("P16", funcs::p16),
    ("P17", funcs::p17),
    ("P18", lang::p18),
    ("P19", semantics::p19),
    ("P20", mem::p20),
    ("P21", repl::p21),
    ("P22", peers::p22),
    ("P23", calls::p23),
    ("P24", mem::p24),
    ("P25", values::p25),
];

struct Args(Vec<String>);

impl Args {
    fn get(&self, name: &str) -> Option<&str> {
        let i = self.0.iter().position(|a| a == name)?;
        self.0.get(i + 1).map(String::as_str)
    }
    fn num(&self, name: &str, default: u64) -> u64 {
        self.get(name).map_or(default, |v| v.parse().expect(name))
    }
    fn need(&self, name: &str) -> &str {
        self.get(name).unwrap_or_else(|| panic!("{name} missing"))
    }
}

fn check_of(prop: &str) -> CheckFn {
    CHECKS.iter().find(|(n, _)| *n == prop).unwrap_or_else(|| panic!("no check {prop}")).1
}

fn show_choices(c: &[u16]) -> String {
    c.iter().map(u16::to_string).collect::<Vec<_>>().join(",")
}

fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}

fn replay_text(prop: &str, config: &str, choices: &[u16], message: &str, input: &str) -> String {
    let mut t = String::new();
    writeln!(t, "property={prop}").unwrap();
    writeln!(t, "config={config}").unwrap();
    writeln!(t, "dict={}", env_dict()).unwrap();
    writeln!(t, "message={}", one_line(message)).unwrap();
    writeln!(t, "input={}", one_line(input)).unwrap();
    writeln!(t, "choices={}", show_choices(choices)).unwrap();
    t
}

fn env_dict() -> String {
    std::env::var("XV_DICT").unwrap_or_default()
}

fn run(a: &Args) -> i32 {
    set_dict(&env_dict());
    let prop = a.0[1].clone();
    let check = check_of(&prop);
    let o = RunOpts {
        seed: a.num("--seed", 1),
        cases: a.num("--cases", 1000) as u32,
        prop: prop.clone(),
        config: a.get("--config").unwrap_or("local").to_owned(),
        current: a.get("--current").map(PathBuf::from),
        scale: a.num("--scale", 1) as usize * base_scale(&prop),
    };
    let st = run_many(&check, &o);
    let mut replay = None;
    if let Some(f) = &st.failure {
        let text = replay_text(&prop, &o.config, &f.choices, &f.message, &f.desc);
        if let Some(dir) = a.get("--replay-dir") {
            std::fs::create_dir_all(dir).expect("replay directory");
            let path = format!("{dir}/{prop}-{}.txt", o.config.replace(',', "-"));
            std::fs::write(&path, text).expect("replay file");
            replay = Some(path);
        }
        eprintln!("{prop} {}: {} [{}]", o.config, f.message, f.desc);
    }
    if let Some(e) = &st.harness_error {
        eprintln!("{prop} {}: harness error: {e}", o.config);
    }
    if let Some(p) = a.get("--keys") {
        let b: Vec<u8> = st.nontrivial.iter().flat_map(|k| k.to_le_bytes()).collect();
        std::fs::write(p, b).expect("key file");
    }
    let j = st.to_json(&o, replay.as_deref());
    match a.get("--out") {
        Some(p) => std::fs::write(p, j).expect("statistics file"),
        None => {
            eprintln!("cases {} oracle {} nontrivial {}", st.cases, st.oracle_evals, st.nontrivial.len());
            eprintln!("{:?}", st.classes);
            for s in &st.samples {
                eprintln!("  {}", one_line(s));
            }
        }
    }
    if st.harness_error.is_some() {
        2
    } else if st.failure.is_some() {
        1
    } else {
        0
    }
}

/// Runs the case in a replay file once: exit 1 if the check fails on it.
fn replay(a: &Args) -> i32 {
    let text = std::fs::read_to_string(&a.0[1]).expect("replay file");
    let field = |k: &str| {
        text.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix('='))).unwrap_or("")
    };
    let prop = field("property").to_owned();
    // the choices mean what they meant with the dictionary of that run
    set_dict(field("dict"));
    let choices: Vec<u16> = field("choices")
        .split(',')
        .filter(|t| !t.is_empty())
        .map(|t| t.parse().expect("choice"))
        .collect();
    let check = check_of(&prop);
    match run_once(&check, &choices) {
        Verdict::Pass(c) => {
            println!("{prop}: holds [{}]", one_line(&c.shown()));
            0
        }
        Verdict::Fail(c, m) => {
            println!("{prop}: {} [{}]", one_line(&m), one_line(&c.shown()));
            if let Some(p) = a.get("--describe") {
                let t = replay_text(&prop, field("config"), &choices, &m, &c.shown());
                std::fs::write(p, t).expect("description");
            }
            1
        }
        Verdict::HarnessError(m) => {
            println!("{prop}: harness error: {m}");
            2
        }
    }
}

fn main() {
    let args = Args(std::env::args().skip(1).collect());
    install_panic_hook();
    let code = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || match args.0.first().map(String::as_str) {
            Some("run") => run(&args),
            Some("replay") => replay(&args),
            Some("serve") => {
                set_dict(&env_dict());
                peers::serve()
            }
            // the probes of the known recursion limit run on an ordinary stack
            Some("probe") => std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || lang::probe(args.need("--kind"), args.num("--n", 1000) as usize))
                .unwrap()
                .join()
                .unwrap_or(101),
            _ => {
                eprintln!("usage: xv run PROP | replay FILE | serve | probe");
                2
            }
        })
        .expect("thread")
        .join();
    match code {
        Ok(c) => std::process::exit(c),
        Err(_) => {
            eprintln!("harness panic: {}", "see XV_SHOW_PANICS");
            std::process::exit(2)
        }
    }
}

/// Properties whose cases are histories or several texts need longer choice lists.
fn base_scale(prop: &str) -> usize {
    match prop {
        "P17" => 4,
        "P03" | "P21" | "P04" | "P05" | "P06" | "P07" | "P08" | "P09" | "P14" | "P16" | "P19" | "P23" => 2,
        _ => 1,
    }
}
