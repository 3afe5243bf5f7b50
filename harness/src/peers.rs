//! P22: the same cases sent to one peer process per build configuration; their answers compared.
//!
//! A peer (`xv serve`) reads a choice list per line, decodes the case from it, and answers with
//! what its build makes of it. The orchestrator (`xv run P22`) compares the answers.
use crate::lang::gen_any_text;
use crate::sut::*;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;
use xprs::{Context, Parser, Xprs};
use xvcore::*;

struct Decoded {
    g: GenCtx,
    rc: RefCtx,
    text: String,
    points: Vec<Env>,
    /// two factors side by side somewhere
    implicit: bool,
}

/// Everything here is the same in every build.
fn decode(s: &mut Src, case: &mut Case) -> Decoded {
    let order = if s.chance(1, 2) { Order::Pejmdas } else { Order::Pemdas };
    let jux = s.chance(1, 3);
    let g = gen_ctx(s, CTX_FINITE);
    let rc = g.refctx();
    let text = if s.chance(1, 3) {
        gen_any_text(s, case, &rc, order)
    } else {
        case.class("well-formed");
        let names = gen_vars(s, &rc, 5);
        let a = Gen::new(s, GenOpts { jux, ..GenOpts::default() }, &rc, names).top();
        render(&a, order, s)
    };
    let toks = tokenize(&text);
    let mut names = std::collections::BTreeSet::new();
    for t in &toks {
        if let Tok::Ident(n) = &t.tok {
            if matches!(rc.resolve(n), Resolved::Var) {
                names.insert(n.clone());
            }
        }
    }
    let points = (0..4).map(|_| full_env(s, &names, true)).collect();
    let implicit = toks.windows(2).any(|w| {
        let ends = match &w[0].tok {
            Tok::Num(_) | Tok::RParen | Tok::Op('!') => true,
            Tok::Ident(n) => !matches!(rc.resolve(n), Resolved::Fn(_)),
            _ => false,
        };
        ends && matches!(w[1].tok, Tok::Num(_) | Tok::Ident(_) | Tok::LParen)
    });
    Decoded { g, rc, text, points, implicit }
}

/// What one build makes of a case.
#[derive(Clone, Debug, PartialEq)]
enum Answer {
    Accepted(Vec<Point>),
    Rejected,
    Panicked(String),
    Gone,
}

#[derive(Clone, Debug, PartialEq)]
struct Point {
    value: f64,
    /// all operands finite, no result NaN, no dependence on the sign of a zero
    regular: bool,
}

fn answer(d: &Decoded) -> R<Answer> {
    let ctx: Context = context(&d.g);
    let p = Parser::new_with_ctx(ctx);
    let x: Xprs = match parse(&p, &d.text)? {
        Ok(x) => x,
        Err(_) => return Ok(Answer::Rejected),
    };
    let reference = ref_parse(&d.text, &d.rc, ORDER).ok();
    let mut v = Vec::new();
    for env in &d.points {
        let mut reg = Reg::default();
        let regular = match &reference {
            Some(r) => {
                r.ast.eval_reg(env, &mut reg);
                reg.regular()
            }
            None => false,
        };
        let value = must_eval(&x, env)?;
        v.push(Point { value, regular });
    }
    Ok(Answer::Accepted(v))
}

pub fn serve() -> i32 {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let choices: Vec<u16> = line
            .split(',')
            .filter(|t| !t.is_empty())
            .map(|t| t.parse().expect("choice"))
            .collect();
        let mut s = Src::new(&choices);
        let d = decode(&mut s, &mut Case::default());
        let mut reply = format!("{:x} ", fnv(&d.text));
        match answer(&d) {
            Ok(Answer::Accepted(v)) => {
                reply.push('A');
                for p in v {
                    reply.push_str(&format!(" {:x}:{}", p.value.to_bits(), u8::from(p.regular)));
                }
            }
            Ok(_) => reply.push('E'),
            Err(m) => reply.push_str(&format!("P {}", m.replace('\n', " "))),
        }
        reply.push('\n');
        if out.write_all(reply.as_bytes()).and_then(|()| out.flush()).is_err() {
            break;
        }
    }
    0
}

struct Peer {
    exe: String,
    label: String,
    child: Child,
    stdin: ChildStdin,
    rx: mpsc::Receiver<String>,
}

impl Peer {
    fn start(label: &str, exe: &str) -> Self {
        let mut child = Command::new(exe)
            .arg("serve")
            .env("XV_DICT", &dict().text)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("start a peer");
        let stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::new(stdout).lines() {
                let Ok(l) = l else { break };
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        Self { exe: exe.to_owned(), label: label.to_owned(), child, stdin, rx }
    }
    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        *self = Self::start(&self.label.clone(), &self.exe.clone());
    }
    fn pejmdas(&self) -> bool {
        self.label.contains("pejmdas")
    }
    fn toolchain(&self) -> &str {
        self.label.split(',').next().unwrap()
    }
}

impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn read_answer(line: &str) -> Option<(u64, Answer)> {
    let mut w = line.splitn(3, ' ');
    let h = u64::from_str_radix(w.next()?, 16).ok()?;
    Some((
        h,
        match w.next()? {
            "E" => Answer::Rejected,
            "P" => Answer::Panicked(w.next().unwrap_or("").to_owned()),
            _ => {
                let mut v = Vec::new();
                for t in w.next().unwrap_or("").split_whitespace() {
                    let (bits, r) = t.split_once(':')?;
                    v.push(Point {
                        value: f64::from_bits(u64::from_str_radix(bits, 16).ok()?),
                        regular: r == "1",
                    });
                }
                Answer::Accepted(v)
            }
        },
    ))
}

thread_local! {
    static PEERS: RefCell<Vec<Peer>> = const { RefCell::new(Vec::new()) };
}

/// Starts the peers named in `XV_PEERS` (`label=path` separated by `;`).
fn peers() -> Vec<Peer> {
    std::env::var("XV_PEERS")
        .expect("XV_PEERS names the peers")
        .split(';')
        .map(|t| {
            let (l, p) = t.split_once('=').expect("label=path");
            Peer::start(l, p)
        })
        .collect()
}

/// Answers of all peers, or None if one did not answer in time.
fn ask(ps: &mut [Peer], line: &str, want: u64) -> Option<Vec<Answer>> {
    for p in ps.iter_mut() {
        // a peer that is gone shows below
        let _ = p.stdin.write_all(line.as_bytes()).and_then(|()| p.stdin.flush());
    }
    let mut out = Vec::new();
    for p in ps.iter_mut() {
        match p.rx.recv_timeout(Duration::from_secs(60)) {
            Ok(l) => {
                let (h, a) = read_answer(&l).unwrap_or_else(|| panic!("peer said {l:?}"));
                assert_eq!(h, want, "peer {} decoded another text", p.label);
                out.push(a);
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => out.push(Answer::Gone),
            Err(mpsc::RecvTimeoutError::Timeout) => {
                for p in ps.iter_mut() {
                    p.restart();
                }
                return None;
            }
        }
    }
    for (p, a) in ps.iter_mut().zip(&out) {
        if *a == Answer::Gone {
            p.restart();
        }
    }
    Some(out)
}

/// Built-ins whose value comes from formulas inside the toolchain's standard library.
fn uses_std_formula(a: &Ast) -> bool {
    a.any(&|n| matches!(n, Ast::Call(f, _) if matches!(f.name(), "asinh" | "acosh" | "atanh")))
}

pub fn p22(s: &mut Src, case: &mut Case) -> R<()> {
    let start = s.data().to_vec();
    let d = decode(s, case);
    if !d.g.defs.is_empty() {
        case.note(format!("context {}", d.g.show()));
    }
    case.note(format!("text {}", quote(&d.text)));
    case.nontrivial(&format!("{}{}", d.g.show(), d.text));
    let line =
        format!("{}\n", start.iter().map(u16::to_string).collect::<Vec<_>>().join(","));
    let answers = PEERS.with(|ps| {
        let mut ps = ps.borrow_mut();
        if ps.is_empty() {
            *ps = peers();
        }
        ask(&mut ps, &line, fnv(&d.text))
    });
    let Some(answers) = answers else {
        case.inconclusive = Some("a peer did not answer".into());
        return Ok(());
    };
    let labels: Vec<(String, bool, String)> = PEERS.with(|ps| {
        ps.borrow().iter().map(|p| (p.label.clone(), p.pejmdas(), p.toolchain().to_owned())).collect()
    });
    let std_formula = [Order::Pemdas, Order::Pejmdas]
        .into_iter()
        .any(|o| ref_parse(&d.text, &d.rc, o).map_or(false, |r| uses_std_formula(&r.ast)));
    case.class(if d.implicit { "implicit multiplication" } else { "no implicit multiplication" });
    case.class(match &answers[0] {
        Answer::Accepted(v) if v.iter().any(|p| p.regular) => "accepted, regular points",
        Answer::Accepted(_) => "accepted, no regular point",
        Answer::Rejected => "rejected",
        _ => "panicked",
    });
    for i in 0..answers.len() {
        for j in 0..i {
            if labels[i].1 != labels[j].1 && d.implicit {
                continue;
            }
            case.eval();
            let (a, b) = (&answers[j], &answers[i]);
            let differ = |what: String| {
                Err(format!(
                    "{} and {} differ on {}: {what}",
                    labels[j].0,
                    labels[i].0,
                    quote(&d.text)
                ))
            };
            match (a, b) {
                (Answer::Accepted(x), Answer::Accepted(y)) => {
                    if std_formula && labels[i].2 != labels[j].2 {
                        continue;
                    }
                    for ((p, q), env) in x.iter().zip(y).zip(&d.points) {
                        if p.regular && q.regular && !same(p.value, q.value) {
                            return differ(format!(
                                "{:?} and {:?} at {}",
                                p.value,
                                q.value,
                                show_env(env)
                            ));
                        }
                    }
                }
                (Answer::Panicked(_), Answer::Panicked(_)) => (),
                (x, y) if std::mem::discriminant(x) == std::mem::discriminant(y) => (),
                (x, y) => {
                    let name = |a: &Answer| match a {
                        Answer::Accepted(_) => "accepted".to_owned(),
                        Answer::Rejected => "rejected".to_owned(),
                        Answer::Panicked(m) => m.clone(),
                        Answer::Gone => "process ended".to_owned(),
                    };
                    return differ(format!("{} and {}", name(x), name(y)));
                }
            }
        }
    }
    Ok(())
}
