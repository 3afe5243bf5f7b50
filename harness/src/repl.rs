//! P21: the REPL program, driven over pipes, against the library it is built from.
use crate::lang::gen_text;
use crate::sut::*;
use std::collections::{BTreeSet, HashMap};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;
use xprs::Parser;
use xvcore::*;

const LIMIT: usize = 32 << 20;
const PROMPT: &str = ">> ";

enum Ended {
    /// exit status and output
    Exit(Option<i32>, String),
    /// more output than any session needs
    Endless,
    Timeout,
}

/// `cpu`: a limit in seconds of processor time.
fn session(input: Vec<u8>, cpu: Option<u32>) -> Ended {
    let exe = std::env::var("XV_REPL").expect("XV_REPL names the repl program");
    let mut cmd = match cpu {
        None => Command::new(exe),
        Some(n) => {
            let mut c = Command::new("/bin/sh");
            c.arg("-c").arg(format!("ulimit -t {n}; exec \"$0\"")).arg(exe);
            c
        }
    };
    let mut child = cmd
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .env("NO_COLOR", "1")
        .spawn()
        .expect("start the repl");
    let mut stdin = child.stdin.take().unwrap();
    let mut stdout = child.stdout.take().unwrap();
    let writer = std::thread::spawn(move || {
        // the program may leave early
        let _ = stdin.write_all(&input);
    });
    let (tx, rx) = mpsc::channel();
    let reader = std::thread::spawn(move || {
        let mut out = Vec::new();
        let mut buf = [0u8; 1 << 16];
        loop {
            match stdout.read(&mut buf) {
                Ok(0) | Err(_) => break,
                Ok(n) => out.extend_from_slice(&buf[..n]),
            }
            if out.len() > LIMIT {
                break;
            }
        }
        drop(stdout);
        let _ = tx.send(out);
    });
    let res = match rx.recv_timeout(Duration::from_secs(60)) {
        Err(_) => Ended::Timeout,
        Ok(out) if out.len() > LIMIT => Ended::Endless,
        Ok(out) => {
            let text = String::from_utf8_lossy(&out).into_owned();
            let mut status = None;
            for _ in 0..6000 {
                if let Ok(Some(s)) = child.try_wait() {
                    status = Some(s);
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            match status {
                Some(s) => Ended::Exit(s.code(), text),
                None => Ended::Timeout,
            }
        }
    };
    let _ = child.kill();
    let _ = child.wait();
    let _ = writer.join();
    let _ = reader.join();
    res
}

/// One line of a session and the answers to its questions.
struct Turn {
    line: String,
    names: BTreeSet<String>,
    answers: Vec<String>,
    exit: bool,
}

enum Stuck {
    /// it waits for input without having shown what is expected (which comes first)
    Silent(String, String),
    Ended(String),
    Slow,
}

/// A session with a user who types only after having seen the question.
struct Dialogue {
    child: std::process::Child,
    stdin: Option<std::process::ChildStdin>,
    rx: mpsc::Receiver<Vec<u8>>,
    seen: Vec<u8>,
}

impl Dialogue {
    fn start() -> Self {
        let exe = std::env::var("XV_REPL").expect("XV_REPL names the repl program");
        let mut child = Command::new(exe)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .env("NO_COLOR", "1")
            .spawn()
            .expect("start the repl");
        let stdin = child.stdin.take();
        let mut stdout = child.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let mut buf = [0u8; 1 << 16];
            while let Ok(n) = stdout.read(&mut buf) {
                if n == 0 || tx.send(buf[..n].to_vec()).is_err() {
                    break;
                }
            }
        });
        Dialogue { child, stdin, rx, seen: Vec::new() }
    }

    /// Whether the process sleeps (as opposed to being slow).
    fn asleep(&self) -> bool {
        let stat = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).unwrap_or_default();
        stat.rfind(')').is_some_and(|i| stat[i + 1..].trim_start().starts_with('S'))
    }

    /// Waits for the output since the last input to satisfy `done`.
    fn wait<T>(&mut self, what: &str, done: impl Fn(&str) -> Option<T>) -> Result<T, Stuck> {
        let mut idle = 0;
        let start = std::time::Instant::now();
        while start.elapsed() < Duration::from_secs(120) {
            if let Some(t) = done(&self.tail()) {
                return Ok(t);
            }
            match self.rx.recv_timeout(Duration::from_millis(20)) {
                Ok(b) => {
                    // lines come one by one
                    self.seen.extend(b);
                    while let Ok(b) = self.rx.try_recv() {
                        self.seen.extend(b);
                    }
                    idle = 0;
                }
                Err(mpsc::RecvTimeoutError::Timeout) => {
                    idle = if self.asleep() { idle + 1 } else { 0 };
                    if idle >= 50 {
                        return Err(Stuck::Silent(what.to_owned(), self.tail()));
                    }
                }
                Err(mpsc::RecvTimeoutError::Disconnected) => return Err(Stuck::Ended(self.tail())),
            }
        }
        Err(Stuck::Slow)
    }

    /// The end of the output since the last input.
    fn tail(&self) -> String {
        let from = self.seen.len().saturating_sub(2000);
        String::from_utf8_lossy(&self.seen[from..]).into_owned()
    }

    fn send(&mut self, t: &str) {
        self.seen.clear();
        // the program may leave early, which the next wait sees
        let _ = self.stdin.as_mut().unwrap().write_all(t.as_bytes());
    }

    fn run(&mut self, turns: &[Turn]) -> Result<(), Stuck> {
        let prompt = |t: &str| t.ends_with(PROMPT).then_some(());
        self.wait("the prompt", prompt)?;
        for t in turns {
            self.send(&t.line);
            if t.exit {
                break;
            }
            let mut names = t.names.clone();
            for a in &t.answers {
                let n = self.wait("the question for a variable", |t| {
                    let question = t.rsplit('\n').next()?.strip_suffix(": ")?;
                    names.contains(question).then(|| question.to_owned())
                })?;
                names.remove(&n);
                self.send(&format!("{a}\n"));
            }
            self.wait("the answer and the next prompt", prompt)?;
        }
        drop(self.stdin.take());
        Ok(())
    }
}

fn dialogue(turns: &[Turn]) -> Result<(), Stuck> {
    let mut d = Dialogue::start();
    let r = d.run(turns);
    let _ = d.child.kill();
    let _ = d.child.wait();
    r
}

fn squeeze(t: &str) -> String {
    t.chars().filter(|c| c.is_alphanumeric()).collect()
}

/// What one line should produce.
enum Expect {
    Accepted { line: String, answers: Vec<f64> },
    Rejected { line: String, msg: String, help: String },
}

fn check_accepted(seg: &str, line: &str, answers: &[f64]) -> R<()> {
    let p = Parser::default();
    let x = must_parse(&p, line)?;
    let shown = display(&x)?;
    let want = format!("Interpreted as: {shown}");
    if !seg.lines().any(|l| l == want) {
        return Err(format!("no line {want:?} for {}", quote(line)));
    }
    let names = vars(&x);
    let Some(l) = seg.lines().find(|l| l.starts_with("Variables: ")) else {
        return Err(format!("no variables shown for {}", quote(line)));
    };
    let listed: Vec<&str> = l.split('"').skip(1).step_by(2).collect();
    if listed.len() != names.len() || listed.iter().any(|n| !names.contains(*n)) {
        return Err(format!("{l:?} for {}, which has {names:?}", quote(line)));
    }
    let Some(l) = seg.lines().find(|l| l.contains("Evaluated: ")) else {
        return Err(format!("no value shown for {}", quote(line)));
    };
    let k = l.rfind("Evaluated: ").unwrap();
    let asked: Vec<&str> = l[..k].split(": ").filter(|t| !t.is_empty()).collect();
    let set: BTreeSet<String> = asked.iter().map(|t| (*t).to_owned()).collect();
    if asked.len() != names.len() || set != names {
        return Err(format!("asked for {asked:?} for {}, which has {names:?}", quote(line)));
    }
    // the answers were given in the order of the questions
    let env: HashMap<&str, f64> = asked.iter().copied().zip(answers.iter().copied()).collect();
    let value = sut("eval", || x.eval(&env))?.map_err(|e| e.to_string())?;
    let text = l[k + "Evaluated: ".len()..].trim();
    match text.parse::<f64>() {
        Ok(v) if identical(v, value) => Ok(()),
        _ => Err(format!("{} with {env:?}: printed {text}, the library gives {value:?}", quote(line))),
    }
}

fn check_segment(seg: &str, want: &Expect) -> R<()> {
    match want {
        Expect::Accepted { line, answers } => check_accepted(seg, line, answers),
        Expect::Rejected { line, msg, help } => {
            if seg.contains("Evaluated: ") || seg.contains("Interpreted as: ") {
                return Err(format!("{} should be rejected, got {}", quote(line), quote(seg)));
            }
            let s = squeeze(seg);
            if !s.contains(&squeeze(msg)) || !s.contains(&squeeze(help)) {
                return Err(format!("no diagnostic {msg:?} ({help:?}) for {}: {}", quote(line), quote(seg)));
            }
            Ok(())
        }
    }
}

fn answer(s: &mut Src) -> (String, f64) {
    if s.chance(1, 12) {
        let (t, v) = *s.pick(&[
            ("nan", f64::NAN),
            ("NaN", f64::NAN),
            ("+2", 2.0),
            ("1.", 1.0),
            (".5", 0.5),
            ("-.5", -0.5),
            ("2E3", 2000.0),
            ("infinity", f64::INFINITY),
            ("-Inf", f64::NEG_INFINITY),
            ("1e999", f64::INFINITY),
            ("007", 7.0),
            ("1e-400", 0.0),
            ("  3  ", 3.0),
            ("\t4\r", 4.0),
        ]);
        return (t.to_owned(), v);
    }
    let v = match s.below(4) {
        0 => s.below(20) as f64,
        1 => *s.pick(&[0.0, -1.0, 0.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e300, -0.0, 170.0]),
        _ => gen_finite(s),
    };
    let t = match s.below(3) {
        0 => format!("{v}"),
        1 => format!("{v:e}"),
        _ => format!(" {v:?}\t"),
    };
    (t, v)
}

pub fn p21(s: &mut Src, case: &mut Case) -> R<()> {
    let rc = RefCtx::default();
    let mut input = String::new();
    let mut wants = Vec::new();
    let n = if s.chance(1, 12) { s.size(11, 48, 120) } else { s.range(1, 10) };
    let mut exited = false;
    let p = Parser::default();
    let mut shown = Vec::new();
    let mut turns = Vec::new();
    for _ in 0..n {
        if s.chance(1, 16) {
            let line = *s.pick(&["exit\n", "  exit \n", "exit\r\n", "\texit\t\n"]);
            input.push_str(line);
            turns.push(Turn { line: line.to_owned(), names: BTreeSet::new(), answers: Vec::new(), exit: true });
            exited = true;
            shown.push("exit".to_owned());
            // nothing after it counts
            if s.chance(1, 2) {
                input.push_str("1+1\n");
            }
            break;
        }
        let mut text = match s.below(8) {
            0 => Gen::new(s, GenOpts::default(), &rc, vec!["x".into(), "y".into()])
                .expr(3)
                .pipe(|a| render(&a, ORDER, s)),
            1 => (*s.pick(&["", " ", "2x", "x+y*z", "exit2", "exit + 1", "exitexit", "x!", "1/0", "2 exit", "Exit"])).to_owned(),
            2 if s.chance(1, 4) => {
                // a long line with many variables, or deeply nested
                let n = s.size(10, 200, 600);
                case.class("long line");
                match s.below(3) {
                    0 => (0..n).map(|i| format!("v{i}")).collect::<Vec<_>>().join(s.pick(&["+", " * ", "-"])),
                    1 => format!("{}x{}", "(".repeat(n), ")".repeat(n)),
                    _ => format!("{}y", "2*x-".repeat(n)),
                }
            }
            _ => gen_text(s, case, &rc),
        };
        text.retain(|c| !matches!(c, '\n' | '>'));
        if text.trim() == "exit" || text.len() > 1500 {
            text = "1".to_owned();
        }
        let line = format!("{text}\n");
        shown.push(text.clone());
        input.push_str(&line);
        match parse(&p, &line)? {
            Ok(x) => {
                let mut answers = Vec::new();
                let mut typed = Vec::new();
                for _ in 0..x.vars.len() {
                    let (t, v) = answer(s);
                    input.push_str(&t);
                    input.push('\n');
                    answers.push(v);
                    typed.push(t);
                }
                turns.push(Turn { line: line.clone(), names: vars(&x), answers: typed, exit: false });
                case.class(if answers.is_empty() { "accepted, no variables" } else { "accepted with variables" });
                wants.push(Expect::Accepted { line, answers });
            }
            Err(e) => {
                let i = err_info(&e, line.len())?;
                case.class("rejected");
                turns.push(Turn { line: line.clone(), names: BTreeSet::new(), answers: Vec::new(), exit: false });
                wants.push(Expect::Rejected { line, msg: i.msg, help: i.help.unwrap_or_default() });
            }
        }
    }
    // the last line may lack its end
    let cut = !exited && s.chance(1, 4) && matches!(wants.last(), Some(Expect::Accepted { .. }));
    if cut {
        input.pop();
        case.class("last line without newline");
    }
    case.class(if exited { "ends by exit" } else { "ends by end of input" });
    case.note(format!("session {}", quote(&input)));
    case.nontrivial(&input);
    case.eval();
    let mut end = session(input.clone().into_bytes(), None);
    if matches!(end, Ended::Timeout) {
        // a session takes milliseconds: one that uses up 20 s of processor time does not end
        end = session(input.into_bytes(), Some(20));
        if let Ended::Exit(None, _) = end {
            return Err("the repl did not end within 20 s of processor time".into());
        }
    }
    let (code, out) = match end {
        Ended::Exit(c, o) => (c, o),
        Ended::Endless => return Err("output without end".into()),
        Ended::Timeout => {
            case.inconclusive = Some("the repl did not finish in time".into());
            return Ok(());
        }
    };
    if code != Some(0) {
        return Err(format!("ended with {code:?} after {}", quote(&out[out.len() - out.len().min(200).min(out.len())..])));
    }
    let segs: Vec<&str> = out.split(PROMPT).skip(1).collect();
    for (i, w) in wants.iter().enumerate() {
        let Some(seg) = segs.get(i) else {
            return Err(format!("nothing printed for line {} of {shown:?}", i + 1));
        };
        check_segment(seg, w)?;
        case.eval();
    }
    if segs.len() != wants.len() + 1 {
        return Err(format!("{} prompts for {} lines of {shown:?}", segs.len(), wants.len()));
    }
    let last = segs[segs.len() - 1];
    if last.contains("Evaluated") || last.contains("Interpreted") || last.len() > 200 {
        return Err(format!("after the session: {}", quote(last)));
    }
    if s.chance(1, 2) {
        // the same, typed by someone who waits for the questions
        case.class("dialogue");
        case.eval();
        match dialogue(&turns).or_else(|_| dialogue(&turns)) {
            Ok(()) => (),
            Err(Stuck::Slow) => case.inconclusive = Some("the repl did not answer in time".into()),
            Err(Stuck::Silent(what, tail)) => {
                return Err(format!("it waits for input without showing {what}; last shown: {}", quote(&tail)))
            }
            Err(Stuck::Ended(tail)) => {
                return Err(format!("it ended before the session did; last shown: {}", quote(&tail)))
            }
        }
    }
    Ok(())
}

trait Pipe: Sized {
    fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T {
        f(self)
    }
}
impl Pipe for Ast {}
