//! C14: writers that fail.

use std::error::Error as _;
use std::io::{self, Write};
use std::sync::Arc;

use crate::explore::{fnv, Ch, Rec, FNV0};
use crate::funcs::{trace_len, trace_start, trace_take, DefFmt};
use crate::model::interp::Kind;
use crate::props::gen::{Kind as K, Skel, BIG, SIZES};
use crate::run::{check, parse_err, run_model, with_renderer, Case, End, Mask, Mode, Outcome, PLAIN};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        level: "fault_enumeration",
        rule: "every template of the list, every way its context is given and every plan of faults within the bounds (each call of write may accept everything, accept a part, be interrupted, fail or accept nothing) is rendered; distinct cases are distinct pairs of a template and a fault plan",
        scenarios: vec![
            Scenario { name: "no faults", body: no_faults },
            Scenario { name: "every plan", body: every_plan },
            Scenario { name: "every byte", body: every_byte },
            Scenario { name: "skeletons", body: skeletons },
            Scenario { name: "std writers", body: std_writers },
            Scenario { name: "sizes", body: sizes },
        ],
        apart: &[],
    }
}

const M: Mask = Mask {
    reason: true,
    partial: true,
    ..PLAIN
};

fn ctx() -> V {
    V::map([
        ("s", V::s("str<é>")),
        ("w", V::s("日本")),
        ("i", V::Int(-12)),
        ("d", V::Float(0.5)),
        ("n", V::None),
        ("e", V::s("")),
        ("t", V::Bool(true)),
        ("l", V::list([V::Int(1), V::s("b<"), V::Bool(false)])),
        ("m", V::map([("k", V::s("v")), ("q", V::Int(2))])),
        ("bad", V::list([V::list([])])),
    ])
}

const DOCS: &[&str] = &[
    "",
    "raw",
    "{{ s }}",
    "a{{ s }}b",
    "{{ e }}{{ n }}{{ e }}",
    "é{{ w }}日",
    "a{{ s | esc }}b",
    "a{{ i | twice }}b{{ d }}",
    "{% for x in l %}{{ x | esc }},{% endfor %}.",
    "{% for k, v in m %}{{ k }}={{ v | show }};{% endfor %}end",
    "{% if t %}yes{% else %}no{% endif %}{{ t }}",
    "[{% include \"t\" %}|{% include \"u\" with m %}]",
    "a{{ l }}b",
    "a{{ s | ferr }}b",
    "a{{ s | ferr0 }}b",
    "a{{ nosuch }}b",
    "a{{ s | fail }}b",
    "a{{ s | len }}{% include \"nosuch\" %}b",
    "a{% for x in bad %}x{{ x }}{% endfor %}b",
    "a{{ s | deaf }}b",
    "a{{ s | deaf }}",
    "{{ s | deaf }}{{ n }}",
    "{{ s | deaf }}{{ nosuch }}",
    "{{ s | deaf }}{{ s | fail }}",
    "{{ s | deaf }}{{ s | deaf }}",
    "{% for x in l %}{{ x | deaf }}{% endfor %}",
    "a{{ s | cover }}b",
    "a{{ s | deaferr }}b",
    "{% with s as q %}a{{ q }}{% endwith %}{# c #}{{- i -}} x",
    "a\n\n{{ d | up }}",
    "{% include \"bad\" %}z",
    "{% include \"cycle\" %}z",
];

fn doc(src: &str) -> Case {
    let mut c = Case::new(src, ctx());
    c.emax = Some(5);
    c
        .temp("t", "<{{ s | show }}>")
        .temp("u", "{{ k }}{{ q }}")
        .temp("bad", "x{{ s }}{{ l | up }}")
        .temp("cycle", "c{% include \"cycle\" %}")
        .writer(true)
}

/// What identifies an error that the writer made.
#[derive(Debug)]
struct Token(u32);
impl std::fmt::Display for Token {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "token {}", self.0)
    }
}
impl std::error::Error for Token {}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hard {
    Custom(u32),
    Kind(io::ErrorKind),
    Os(i32),
    Zero,
}
const HARD: &[Hard] = &[
    Hard::Custom(0),
    Hard::Zero,
    Hard::Kind(io::ErrorKind::BrokenPipe),
    Hard::Os(28),
    Hard::Kind(io::ErrorKind::WouldBlock),
    Hard::Kind(io::ErrorKind::WriteZero),
    Hard::Kind(io::ErrorKind::UnexpectedEof),
];
impl Hard {
    fn make(self) -> io::Result<usize> {
        Err(match self {
            Hard::Custom(n) => io::Error::new(io::ErrorKind::Other, Token(n)),
            Hard::Kind(k) => k.into(),
            Hard::Os(n) => io::Error::from_raw_os_error(n),
            Hard::Zero => return Ok(0),
        })
    }
    fn is(self, e: &io::Error) -> bool {
        match self {
            Hard::Custom(n) => e.kind() == io::ErrorKind::Other && e.get_ref().and_then(|e| e.downcast_ref::<Token>()).map(|t| t.0) == Some(n),
            Hard::Kind(k) => e.kind() == k && e.get_ref().is_none(),
            Hard::Os(n) => e.raw_os_error() == Some(n),
            Hard::Zero => e.kind() == io::ErrorKind::WriteZero,
        }
    }
}

struct Faulty<'a, 'b> {
    ch: &'a mut Ch<'b>,
    /// How many more times it may do less than asked, or fail.
    soft: usize,
    hard: usize,
    got: Vec<u8>,
    failed: Option<Hard>,
    plan: u64,
    calls: u32,
    after: u32,
    seen: usize,
}
impl Write for Faulty<'_, '_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        assert!(!buf.is_empty() || buf.is_empty());
        self.calls += 1;
        if self.failed.is_some() {
            self.after += 1;
        }
        let softs = if self.soft > 0 { 3 } else { 0 };
        let hards = if self.hard > 0 { HARD.len() } else { 0 };
        let c = if softs + hards == 0 || buf.is_empty() { 0 } else { self.ch.n(1 + softs + hards) };
        self.plan = fnv(self.plan, &[c as u8]);
        if c > softs {
            let h = match HARD[c - softs - 1] {
                Hard::Custom(_) => Hard::Custom(self.calls),
                h => h,
            };
            self.hard -= 1;
            self.seen = trace_len();
            self.failed.get_or_insert(h);
            return h.make();
        }
        let n = match c {
            0 => buf.len(),
            1 => 1,
            2 => (buf.len() + 1) / 2,
            _ => {
                self.soft -= 1;
                return Err(io::ErrorKind::Interrupted.into());
            }
        };
        if c > 0 {
            self.soft -= 1;
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Checks the end of a rendering to a writer that may have failed.
fn judge(c: &Case, model: &Outcome, res: Result<(), upon::Error>, got: &[u8], failed: Option<Hard>) -> Result<(), String> {
    let full = model.out.as_deref().unwrap_or("").as_bytes();
    let show = |r: &Result<(), upon::Error>| match r {
        Ok(()) => "Ok".to_string(),
        Err(e) => format!("{e} (source {:?})", e.source().map(|s| s.to_string())),
    };
    let bad = |why: &str| {
        Err(format!(
            "{why}\n{}\n  full output {:?}, then {:?}\n  the writer failed with {failed:?} and got {:?}\n  returned {}",
            c.describe(),
            model.out,
            model.end,
            String::from_utf8_lossy(got),
            show(&res)
        ))
    };
    if !full.starts_with(got) {
        return bad("what reached the writer is not a prefix of the output");
    }
    match failed {
        Some(h) => {
            let e = match &res {
                Err(e) => e,
                Ok(()) => return bad("a failed write is not reported"),
            };
            if parse_err(e, false).kind != Kind::Io {
                return bad("a failed write is not reported as an io error");
            }
            match e.source().and_then(|s| s.downcast_ref::<io::Error>()) {
                Some(s) if h.is(s) => Ok(()),
                _ => bad("the source of the error is not the error of the writer"),
            }
        }
        None => {
            if got.len() != full.len() {
                return bad("output was lost");
            }
            match (&model.end, &res) {
                (End::Ok, Ok(())) => Ok(()),
                (End::Err(m), Err(e)) => {
                    let i = parse_err(e, false);
                    if m.kind != i.kind {
                        return bad("the kind of error differs");
                    }
                    if e.source().is_some() {
                        return bad("an error that is not io has a source");
                    }
                    match m.reason.as_deref() {
                        Some("*") => Ok(()),
                        r if r == i.reason.as_deref() => Ok(()),
                        _ => bad("the message differs"),
                    }
                }
                _ => bad("it ended differently"),
            }
        }
    }
}

fn faulty(c: &Case, ch: &mut Ch, rec: &mut Rec, soft: usize, hard: usize) -> Result<(), String> {
    let model = run_model(c, rec, M);
    // What user code is called in a run without faults.
    trace_start(true);
    let _ = with_renderer(c, |r| r.to_writer(io::sink()));
    let calls = trace_take();
    let mut w = Faulty {
        ch,
        soft,
        hard,
        got: vec![],
        failed: None,
        plan: FNV0,
        calls: 0,
        after: 0,
        seen: 0,
    };
    trace_start(true);
    let res = with_renderer(c, |r| r.to_writer(&mut w)).expect("the templates compile");
    let seen = trace_take();
    rec.traces += 1;
    rec.nontrivial += 1;
    rec.state(fnv(w.plan, c.describe().as_bytes()));
    rec.outcome(fnv(fnv(FNV0, &w.got), format!("{:?}", w.failed).as_bytes()));
    rec.sample(|| format!("{} => {} calls of write, failed {:?}, got {:?}", c.describe(), w.calls, w.failed, String::from_utf8_lossy(&w.got)));
    judge(c, &model, res, &w.got, w.failed)?;
    if !calls.starts_with(&seen) {
        return Err(format!("{}\nother functions were called:\n  {seen:?}\ninstead of\n  {calls:?}", c.describe()));
    }
    if w.failed.is_some() && seen.len() > w.seen && !c.describe().contains("deaf") {
        return Err(format!("{}\nrendering went on after a failed write: {:?}", c.describe(), &seen[w.seen..]));
    }
    if w.after > 0 {
        return Err(format!("{}\n{} more writes after one failed with {:?}", c.describe(), w.after, w.failed));
    }
    Ok(())
}

/// Strings and writers agree, and an error comes after what precedes it.
fn no_faults(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut c = doc(DOCS[ch.n(DOCS.len())]);
    c.mode = *ch.pick(&[Mode::From, Mode::Serde, Mode::Fn]);
    c.writer = ch.flag();
    c.deff = *ch.pick(&[DefFmt::Builtin, DefFmt::Show, DefFmt::Err, DefFmt::ErrOnNone]);
    if ch.flag() {
        c = c.named("root");
    }
    rec.state(fnv(FNV0, format!("{c:?}").as_bytes()));
    check(&c, M, rec)
}

/// Up to two (three) short or interrupted writes and a failure anywhere.
fn every_plan(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut c = doc(DOCS[ch.n(DOCS.len())]);
    c.mode = *ch.pick(&[Mode::From, Mode::Serde, Mode::Fn]);
    c.deff = *ch.pick(&[DefFmt::Builtin, DefFmt::Esc]);
    let usual = c.mode == Mode::From && c.deff == DefFmt::Builtin;
    let soft = if usual { 2 } else { 1 } + usize::from(rec.thorough());
    faulty(&c, ch, rec, soft, 1)
}

/// A writer that takes one byte at a time, interrupted before each or not, and
/// ends anywhere.
struct Drip {
    left: usize,
    step: usize,
    interrupts: bool,
    ready: bool,
    end: Hard,
    got: Vec<u8>,
    failed: Option<Hard>,
}
impl Write for Drip {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts && !self.ready {
            self.ready = true;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.ready = false;
        if self.left == 0 {
            self.failed.get_or_insert(self.end);
            return self.end.make();
        }
        let n = buf.len().min(self.step).min(self.left);
        self.left -= n;
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn drip(c: &Case, ch: &mut Ch, rec: &mut Rec, left: usize, step: usize, ends: usize, model: &Outcome) -> Result<(), String> {
    let mut w = Drip {
        left,
        step,
        interrupts: ch.flag(),
        ready: false,
        end: HARD[ch.n(ends)],
        got: vec![],
        failed: None,
    };
    let res = with_renderer(c, |r| if step % 2 == 0 { r.to_writer(&mut w as &mut dyn Write) } else { r.to_writer(&mut w) }).expect("the templates compile");
    rec.traces += 1;
    rec.state(fnv(fnv(FNV0, &w.got), c.describe().as_bytes()));
    rec.outcome(fnv(fnv(FNV0, &w.got), format!("{:?}", w.failed).as_bytes()));
    let full = model.out.as_deref().unwrap_or("").len();
    if w.failed.is_none() && left < full {
        return Err(format!("{}\nthe writer took {left} bytes, the output has {full}, and it was not told", c.describe()));
    }
    judge(c, model, res, &w.got, w.failed)
}

fn every_byte(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut c = doc(DOCS[ch.n(DOCS.len())]);
    c.mode = *ch.pick(&[Mode::From, Mode::Serde, Mode::Fn]);
    c.deff = *ch.pick(&[DefFmt::Builtin, DefFmt::Esc]);
    let model = run_model(&c, rec, M);
    let n = model.out.as_deref().unwrap_or("").len();
    let left = ch.range(0, n);
    let step = *ch.pick(&[1, 2, 3, usize::MAX]);
    drip(&c, ch, rec, left, step, HARD.len(), &model)
}

fn skeletons(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const KS: &[K] = &[K::Emit, K::EmitX, K::IfElse, K::For, K::ForMap, K::With, K::Include, K::IncludeWith];
    let mut s = Skel::new(if rec.thorough() { 3 } else { 2 }, KS);
    let src = s.body(ch);
    let c = Case::new(src, Skel::ctx()).temp("inc", Skel::INC).writer(true);
    faulty(&c, ch, rec, 0, 1)
}

/// The writers of the standard library, with every capacity.
fn std_writers(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let c = doc(DOCS[ch.n(DOCS.len())]);
    let model = run_model(&c, rec, M);
    let full = model.out.clone().unwrap_or_default();
    let kind = ch.n(8);
    let cap = ch.range(0, full.len() + 1);
    let mut buf = vec![0u8; cap];
    let mut vec = Vec::new();
    let mut store = io::Cursor::new(vec![]);
    let (res, used, limited) = with_renderer(&c, |r| match kind {
        0 => {
            let mut w = &mut buf[..];
            let res = r.to_writer(&mut w);
            let left = w.len();
            (res, cap - left, true)
        }
        1 => {
            let mut w = io::Cursor::new(&mut buf[..]);
            let res = r.to_writer(&mut w);
            (res, w.position() as usize, true)
        }
        2 => (r.to_writer(&mut vec), 0, false),
        3 => (r.to_writer(Box::new(&mut vec) as Box<dyn Write + '_>), 0, false),
        4 => {
            let mut w = io::BufWriter::with_capacity(cap, &mut vec);
            let res = r.to_writer(&mut w);
            w.flush().unwrap();
            drop(w);
            (res, 0, false)
        }
        5 => {
            let mut w = io::LineWriter::with_capacity(cap, &mut vec);
            let res = r.to_writer(&mut w);
            w.flush().unwrap();
            drop(w);
            (res, 0, false)
        }
        6 => (r.to_writer(&mut store), 0, false),
        _ => {
            // Shared, as a file would be.
            let (mut a, b) = (Vec::new(), Arc::new(std::sync::Mutex::new(&mut vec)));
            struct S<'a>(Arc<std::sync::Mutex<&'a mut Vec<u8>>>);
            impl Write for S<'_> {
                fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
                    self.0.lock().unwrap().write(buf)
                }
                fn flush(&mut self) -> io::Result<()> {
                    Ok(())
                }
            }
            a.push(S(b));
            (r.to_writer(a.pop().unwrap()), 0, false)
        }
    })
    .expect("the templates compile");
    let got = match kind {
        0 | 1 => buf[..used].to_vec(),
        6 => store.into_inner(),
        _ => vec,
    };
    rec.traces += 1;
    rec.state(fnv(fnv(FNV0, &[kind as u8]), &got));
    let failed = (limited && cap < full.len()).then_some(Hard::Zero);
    if failed.is_some() && got != full.as_bytes()[..cap] {
        return Err(format!("{}\nof {cap} bytes of room not all were used: {:?}", c.describe(), String::from_utf8_lossy(&got)));
    }
    judge(&c, &model, res, &got, failed)
}

fn sizes(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let all: Vec<usize> = SIZES.iter().chain(BIG).copied().collect();
    let n = *ch.pick(&all);
    let c = match ch.n(5) {
        0 => Case::new("x".repeat(n), V::None),
        1 => Case::new("a{{ v }}b", V::map([("v", V::Str("é".repeat(n)))])),
        2 => Case::new("a{{ v | esc }}b", V::map([("v", V::Str("<".repeat(n.min(1400))))])),
        3 => Case::new("{% for x in v %}{{ x }}é{% endfor %}", V::map([("v", V::list((0..n.min(2050) as i64).map(V::Int)))])),
        _ => Case::new("{{ a }}".repeat(n.min(1030)), V::map([("a", V::s("ab"))])),
    };
    let c = c.writer(true);
    let model = run_model(&c, rec, M);
    let len = model.out.as_deref().unwrap_or("").len();
    let mut ends: Vec<usize> = [0, 1, 2, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537]
        .into_iter()
        .filter(|e| *e < len)
        .collect();
    ends.extend([len.saturating_sub(2), len.saturating_sub(1), len]);
    let left = *ch.pick(&ends);
    let step = *ch.pick(&[4096, usize::MAX]);
    drip(&c, ch, rec, left, step, 2, &model)
}
