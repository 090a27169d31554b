//! C19: renderings are independent of each other.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::OnceLock;

use crate::explore::{fnv, Ch, Rec, FNV0};
use crate::funcs::{event, install, trace_start, trace_swap, trace_take, Flt, Fmt, Fun};
use crate::model::interp::value_fn;
use crate::run::{compare, describe_outcome, panic_text, parse_err, path_of, run_model, Case, End, Mode, Outcome, Root, PLAIN};
use crate::sched::{self, count, set_point, steps, CALL, FINISH};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        level: "model_checking",
        rule: "every schedule of threads that share an engine (up to a number of preemptions, at calls of user code and at every basic block of the implementation), every nesting of renderings inside the user code of others and every history of failures within the bounds is carried out on the implementation; each rendering has to end as it does alone and as the reference machine says; a state is the schedule point (program, position) of every thread",
        scenarios: vec![
            Scenario { name: "calls", body: calls },
            Scenario { name: "steps", body: one_preemption },
            Scenario { name: "steps2", body: two_preemptions },
            Scenario { name: "three", body: three },
            Scenario { name: "nested", body: nested },
            Scenario { name: "deep", body: deep },
            Scenario { name: "failures", body: failures },
            Scenario { name: "repeat", body: repeat },
            Scenario { name: "context", body: context },
        ],
        apart: &[],
    }
}

/// What the shared engine knows.
const TEMPS: &[(&str, &str)] = &[
    ("p", "<{{ v }}{{ k?.z }}>"),
    ("q", "[{{ v }}]"),
    ("mid", "{{ v }}{% include \"q\" %}"),
    ("main", "{% with m as w %}{% include \"p\" with w %}{% include \"mid\" %}{% endwith %}"),
    ("rec", "{{ n }}{% include \"rec\" %}"),
    ("bad", "{% for x in l %}{% with x as y %}{% include \"oops\" %}{% endwith %}{% endfor %}"),
    ("oops", "{{ y }}{{ y.z }}"),
];
const STORE: &[(&str, &str)] = &[("s", "({{ v?.z | show }})"), ("q", "never")];

const FUNS: &[(&str, Fun)] = &[
    ("up", Fun::F(Flt::Up)),
    ("fail", Fun::F(Flt::Fail)),
    ("cat", Fun::F(Flt::Cat)),
    ("add", Fun::F(Flt::Add)),
    ("show", Fun::P(Fmt::Show)),
    ("ferr", Fun::P(Fmt::Err)),
];

#[derive(Clone, Copy)]
enum What {
    Named(&'static str),
    Anon(&'static str),
    /// Compiled when it runs.
    Late(&'static str),
    Debug,
}
struct Prog {
    what: What,
    mode: Mode,
    store: bool,
    rmax: Option<usize>,
}
const fn prog(what: What, mode: Mode) -> Prog {
    Prog { what, mode, store: false, rmax: None }
}

const PROGS: &[Prog] = &[
    prog(What::Anon("a{{ v }}b{{ m.k }}"), Mode::From),
    prog(What::Named("main"), Mode::Serde),
    prog(What::Anon("{% for x in l %}{{ loop.index }}{{ x | up }}{% if not loop.last %},{% endif %}{% endfor %}"), Mode::From),
    prog(What::Named("rec"), Mode::From),
    prog(What::Anon("x{{ v | fail }}y"), Mode::Serde),
    prog(What::Anon("{{ v }}é{{ l | ferr }}"), Mode::From),
    prog(What::Anon("1{{ v }}\n{{ nope }}"), Mode::Fn),
    Prog { what: What::Anon("{% include \"s\" %}{% include \"s\" with m %}"), mode: Mode::From, store: true, rmax: Some(2) },
    prog(What::Anon("{{ a.b.0 }}{% if f %}t{% else %}e{% endif %}"), Mode::Fn),
    prog(What::Anon("{{ v | cat: \"-\" | up | show }}{{ 1 | add: 2 }}{{ \"é\\n\" }}"), Mode::From),
    prog(What::Anon("{% for k, x in m %}{{ k }}{% for y in l %}{{ loop.first }}{% endfor %}{{ loop.index }}{% endfor %}"), Mode::Fn),
    prog(What::Late("{# c #}{{ v -}} {% if m %}{{ l.1 }}{% endif %}"), Mode::From),
    prog(What::Late("{% if v %}\n {% endfor %}"), Mode::From),
    prog(What::Named("bad"), Mode::From),
    prog(What::Debug, Mode::From),
];
const MAIN: usize = 1;
/// The ones with the fewest steps.
const SHORT: &[usize] = &[0, 8];

/// Two contexts with nothing in common.
fn ctx(c: usize) -> V {
    if c == 1 {
        return V::map([
            ("v", V::s("W2")),
            ("l", V::list([V::s("x"), V::s("y"), V::s("z")])),
            ("m", V::map([("k", V::Float(0.5)), ("v", V::s("nv")), ("z", V::None)])),
            ("a", V::map([("b", V::list([V::Int(8)]))])),
            ("k", V::map([("z", V::Int(5))])),
            ("n", V::Int(-4)),
            ("f", V::Bool(true)),
        ]);
    }
    V::map([
        ("v", V::s("V")),
        ("l", V::list([V::s("a"), V::s("b")])),
        ("m", V::map([("k", V::Int(1)), ("v", V::s("mv"))])),
        ("a", V::map([("b", V::list([V::Int(7)]))])),
        ("k", V::Map(BTreeMap::new())),
        ("n", V::Int(3)),
        ("f", V::Bool(false)),
    ])
}

fn case(way: Way) -> Case {
    let p = &PROGS[way.p];
    let mut c = Case::new("", ctx(way.c));
    c.temps = TEMPS.iter().map(|(n, s)| (n.to_string(), s.to_string())).collect();
    c.root = match p.what {
        What::Named(n) => Root::Named(n.into()),
        What::Anon(s) | What::Late(s) => Root::Anon(s.into()),
        What::Debug => Root::Anon("".into()),
    };
    c.funcs = FUNS;
    c.mode = p.mode;
    c.emax = Some(3);
    c.rmax = p.rmax;
    c.store = p.store.then(|| STORE.iter().map(|(n, s)| (n.to_string(), s.to_string())).collect());
    c.writer = way.writer.is_some();
    c
}

/// What renderings share.
struct World {
    e: upon::Engine<'static>,
    anon: Vec<Option<upon::Template<'static>>>,
    store: BTreeMap<&'static str, upon::Template<'static>>,
    v: [V; 2],
    value: [upon::Value; 2],
}
impl World {
    fn new(ps: &[usize]) -> World {
        let mut e = upon::Engine::new();
        for (n, f) in FUNS {
            install(&mut e, n, *f);
        }
        e.set_max_include_depth(3);
        for (n, s) in TEMPS {
            e.add_template(*n, *s).expect("compiles");
        }
        let anon = PROGS
            .iter()
            .enumerate()
            .map(|(i, p)| match p.what {
                What::Anon(s) if i == 0 || ps.contains(&i) => Some(e.compile(s).expect("compiles")),
                _ => None,
            })
            .collect();
        let store = STORE.iter().map(|(n, s)| (*n, e.compile(*s).expect("compiles"))).collect();
        let v = [ctx(0), ctx(1)];
        let value = [v[0].to_upon(), v[1].to_upon()];
        World { e, anon, store, v, value }
    }
    fn debug(&self) -> String {
        format!("{:?}{:#?}{:?}{:?}{:?}", self.e, self.anon, self.store, self.v, self.value)
    }
}

/// A context whose serialization is user code.
struct Pointy<'a>(&'a V);
impl serde::Serialize for Pointy<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        sched::point();
        self.0.serialize(s)
    }
}

/// A writer that is user code, and may stop working.
struct Sink<'a> {
    buf: &'a mut Vec<u8>,
    left: usize,
}
impl std::io::Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        sched::point();
        if self.left == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        self.left -= 1;
        self.buf.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// How a rendering goes.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Way {
    p: usize,
    /// Its context.
    c: usize,
    /// The writes that work, when it goes to a writer.
    writer: Option<usize>,
}
impl Way {
    fn any(ch: &mut Ch, ps: &[usize], c: usize) -> Way {
        let p = ps[ch.n(ps.len())];
        Way { p, c, writer: ch.flag().then_some(usize::MAX) }
    }
}
fn all() -> Vec<usize> {
    (0..PROGS.len()).collect()
}

fn perform(w: &World, way: Way) -> Outcome {
    let saved = trace_swap(None);
    trace_start(true);
    let r = catch_unwind(AssertUnwindSafe(|| perform_inner(w, way)));
    let trace = trace_take();
    trace_swap(saved);
    match r {
        Ok((end, out)) => Outcome { end, out, trace },
        Err(e) => Outcome { end: End::Panic(panic_text(e)), out: None, trace },
    }
}

fn perform_inner(w: &World, way: Way) -> (End, Option<String>) {
    let p = &PROGS[way.p];
    let late;
    let named;
    let get = |p: &[upon::ValueMember<'_>]| value_fn(&w.v[way.c], &path_of(p)).map(|v| v.to_upon());
    let r = match p.what {
        What::Debug => return (End::Ok, Some(format!("{:?} {:?} {:#?}", w.e, w.anon[0], w.store))),
        What::Named(n) => {
            named = w.e.template(n);
            match p.mode {
                Mode::Serde | Mode::SerdeRev => named.render(Pointy(&w.v[way.c])),
                Mode::From => named.render_from(&w.value[way.c]),
                Mode::Fn => named.render_from_fn(get),
            }
        }
        What::Anon(_) | What::Late(_) => {
            let t = match p.what {
                What::Late(s) => match w.e.compile(s) {
                    Ok(t) => {
                        late = t;
                        &late
                    }
                    Err(e) => return (End::Err(parse_err(&e, true)), None),
                },
                _ => w.anon[way.p].as_ref().unwrap(),
            };
            match p.mode {
                Mode::Serde | Mode::SerdeRev => t.render(&w.e, Pointy(&w.v[way.c])),
                Mode::From => t.render_from(&w.e, &w.value[way.c]),
                Mode::Fn => t.render_from_fn(&w.e, get),
            }
        }
    };
    let mut r = r;
    if p.store {
        r = r.with_template_fn(|n| {
            event(|| format!("tpl {n}"));
            w.store.get(n).ok_or_else(|| format!("no {n}"))
        });
    }
    if let Some(d) = p.rmax {
        r = r.with_max_include_depth(d);
    }
    match way.writer {
        None => match r.to_string() {
            Ok(s) => (End::Ok, Some(s)),
            Err(e) => (End::Err(parse_err(&e, false)), None),
        },
        Some(left) => {
            let mut buf = vec![];
            let res = r.to_writer(Sink { buf: &mut buf, left });
            let out = Some(String::from_utf8_lossy(&buf).into_owned());
            match res {
                Ok(()) => (End::Ok, out),
                Err(e) => (End::Err(parse_err(&e, false)), out),
            }
        }
    }
}

/// How each program ends alone, and the steps and calls it makes.
struct Alone {
    outcome: Outcome,
    steps: usize,
    calls: usize,
}
fn alone(way: Way) -> &'static Alone {
    static ALONE: OnceLock<Vec<[[Alone; 2]; 2]>> = OnceLock::new();
    let all = ALONE.get_or_init(|| {
        (0..PROGS.len())
            .map(|p| {
                [0, 1].map(|c| {
                [None, Some(usize::MAX)].map(|writer| {
                    // In a thread of its own, with an engine of its own.
                    std::thread::spawn(move || {
                        let w = World::new(&[p]);
                        let n = Rc::new(RefCell::new(0));
                        let m = n.clone();
                        set_point(Some(Box::new(move || *m.borrow_mut() += 1)));
                        let outcome = perform(&w, Way { p, c, writer });
                        set_point(None);
                        let calls = *n.borrow();
                        let w = World::new(&[p]);
                        let steps = count(|| drop(perform(&w, Way { p, c, writer })));
                        Alone { outcome, steps, calls }
                    })
                    .join()
                    .expect("alone")
                })
                })
            })
            .collect()
    });
    &all[way.p][way.c][usize::from(way.writer.is_some())]
}

fn same(a: &Outcome, b: &Outcome) -> bool {
    let end = match (&a.end, &b.end) {
        (End::Ok, End::Ok) => true,
        (End::Err(a), End::Err(b)) => format!("{a:?}") == format!("{b:?}"),
        _ => false,
    };
    end && a.out == b.out && a.trace == b.trace
}

/// Whether a rendering ended as it does alone.
fn judge(way: Way, got: &Outcome, what: &dyn Fn() -> String) -> Result<(), String> {
    let want = &alone(way).outcome;
    if same(want, got) {
        return Ok(());
    }
    Err(format!(
        "{}\n  of {}\n  alone:  {}\n  here:   {}",
        what(),
        case(way).describe(),
        describe_outcome(want),
        describe_outcome(got)
    ))
}

/// Whether it ends alone as the reference machine says.
fn specified(way: Way, rec: &mut Rec) -> Result<(), String> {
    rec.traces += 1;
    if matches!(PROGS[way.p].what, What::Debug) {
        return Ok(());
    }
    let c = case(way);
    let want = run_model(&c, rec, PLAIN);
    compare(&want, &alone(way).outcome, PLAIN)
        .map_err(|e| format!("{e}\n{}\n  specified: {}\n  alone: {}", c.describe(), describe_outcome(&want), describe_outcome(&alone(way).outcome)))
}

/// The world afterwards is as it was, and works.
fn afterwards(w: &World, before: &str, what: &dyn Fn() -> String) -> Result<(), String> {
    if w.debug() != before {
        return Err(format!("{}: the engine, a template or the context has changed", what()));
    }
    for writer in [None, Some(usize::MAX)] {
        let way = Way { p: MAIN, c: 0, writer };
        judge(way, &perform(w, way), &|| format!("{}, and then a rendering alone", what()))?;
    }
    Ok(())
}

fn threads(
    ways: &[Way],
    rec: &mut Rec,
    what: &dyn Fn() -> String,
    check_world: bool,
    drive: impl FnOnce(&sched::Ctl<'_>, &mut Rec),
) -> Result<(), String> {
    let w = World::new(&ways.iter().map(|w| w.p).collect::<Vec<_>>());
    let before = if check_world { w.debug() } else { String::new() };
    let jobs = ways.iter().map(|way| Box::new(|| perform(&w, *way)) as Box<dyn FnOnce() -> Outcome + '_>).collect();
    let r = sched::run(jobs, |c| drive(c, rec));
    rec.traces += 1;
    rec.nontrivial += 1;
    for (way, got) in ways.iter().zip(&r) {
        judge(*way, got, what)?;
    }
    if check_world {
        afterwards(&w, &before, what)?;
    }
    Ok(())
}

/// Every schedule at the calls of user code, up to a number of preemptions.
fn calls(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let ps = all();
    let a = Way::any(ch, &ps, 0);
    let b = Way::any(ch, &ps, 1);
    specified(a, rec)?;
    specified(b, rec)?;
    let bound = if rec.thorough() { 4 } else { 2 };
    schedule(&[a, b], bound, ch, rec)
}

fn three(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let ps: &[usize] = if rec.thorough() { &[0, 1, 2, 3, 5, 7, 8, 11] } else { &[0, 1, 3, 7] };
    let p: Vec<usize> = (0..3).map(|_| ch.n(ps.len())).collect();
    if p[0] > p[2] {
        return Ok(());
    }
    let ways: Vec<Way> = p.iter().enumerate().map(|(i, p)| Way { p: ps[*p], c: i % 2, writer: None }).collect();
    let bound = if rec.thorough() { 3 } else { 2 };
    schedule(&ways, bound, ch, rec)
}

fn schedule(ways: &[Way], bound: usize, ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let log = RefCell::new(String::new());
    let base = fnv(FNV0, format!("{ways:?}").as_bytes());
    threads(ways, rec, &|| format!("with the schedule {}", log.borrow()), true, |c, rec| {
        let n = ways.len();
        let mut at = vec![0u8; n];
        let mut live: Vec<usize> = (0..n).collect();
        let mut cur: Option<usize> = None;
        let mut left = bound;
        while !live.is_empty() {
            let next = match cur {
                Some(i) if left == 0 => i,
                Some(i) => {
                    // Staying comes first, so that less is a prefix of more.
                    let mut o = vec![i];
                    o.extend(live.iter().copied().filter(|j| *j != i));
                    let k = o[ch.n(o.len())];
                    left -= usize::from(k != i);
                    k
                }
                None => live[ch.n(live.len())],
            };
            log.borrow_mut().push_str(&format!("{next}"));
            rec.transitions += 1;
            at[next] += 1;
            rec.state(fnv(base, &at));
            let done = c.run(next, CALL);
            cur = Some(next);
            if done {
                live.retain(|j| *j != next);
                cur = None;
            }
        }
    })
}

/// One thread is interrupted at every step by another rendering.
fn one_preemption(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let ps = all();
    let pick = |ch: &mut Ch, thorough, c| {
        let p = ps[ch.n(ps.len())];
        Way { p, c, writer: (thorough && ch.flag()).then_some(usize::MAX) }
    };
    let a = pick(ch, rec.thorough(), 0);
    let b = pick(ch, rec.thorough(), 1);
    if alone(a).steps == 0 && !matches!(PROGS[a.p].what, What::Debug) {
        crate::fatal("the implementation was built without steps");
    }
    let k = ch.n(alone(a).steps + 2);
    rec.transitions += 3;
    rec.state(fnv(fnv(FNV0, format!("{a:?}{b:?}").as_bytes()), &k.to_le_bytes()));
    threads(&[a, b], rec, &|| format!("interrupted after {k} steps by another"), k % 16 == 0, |c, _| {
        c.run(0, steps(k + 1));
        c.run(1, FINISH);
    })
}

/// One thread is interrupted at every step by a part of another one.
fn two_preemptions(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let ps: Vec<usize> = if rec.thorough() { all() } else { SHORT.to_vec() };
    let a = Way { p: ps[ch.n(ps.len())], c: 0, writer: None };
    let b = Way { p: ps[ch.n(ps.len())], c: 1, writer: None };
    let i = ch.n(alone(a).steps + 1);
    let j = ch.n(alone(b).steps + 1);
    rec.transitions += 4;
    rec.state(fnv(fnv(FNV0, format!("{a:?}{b:?}").as_bytes()), &[i.to_le_bytes(), j.to_le_bytes()].concat()));
    threads(&[a, b], rec, &|| format!("{i} steps, {j} of another, and then the rest of both"), false, |c, _| {
        c.run(0, steps(i + 1));
        c.run(1, steps(j + 1));
        c.run(0, FINISH);
    })
}

struct Inner {
    /// Which call of the outer rendering, and what it does there.
    at: usize,
    way: Way,
    next: Option<Box<Inner>>,
    panics: bool,
}

/// Renders, with other renderings inside its calls of user code.
fn with_inner(w: &Rc<World>, way: Way, inner: Option<Rc<Inner>>, found: &Rc<RefCell<Result<(), String>>>) -> Outcome {
    let saved = set_point(None);
    if let Some(inner) = inner {
        let (w, found) = (w.clone(), found.clone());
        let mut n = 0;
        set_point(Some(Box::new(move || {
            n += 1;
            if n - 1 != inner.at {
                return;
            }
            let next = inner.next.as_ref().map(|i| {
                Rc::new(Inner { at: i.at, way: i.way, next: None, panics: i.panics })
            });
            let throws = inner.next.as_ref().map_or(false, |i| i.panics);
            let got = with_inner(&w, inner.way, next, &found);
            let r = if throws && matches!(got.end, End::Panic(_)) {
                Ok(())
            } else {
                judge(inner.way, &got, &|| format!("inside call {} of another rendering", inner.at))
            };
            if r.is_err() && found.borrow().is_ok() {
                *found.borrow_mut() = r;
            }
            if inner.panics {
                panic!("user code");
            }
        })));
    }
    let got = perform(w, way);
    set_point(saved);
    got
}

/// A rendering inside each call of user code another one makes.
fn nested(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let ps = all();
    let a = Way::any(ch, &ps, 0);
    let b = Way::any(ch, &ps, 1);
    let at = ch.n(alone(a).calls + 1);
    let panics = ch.flag();
    rec.transitions += 2;
    rec.state(fnv(FNV0, format!("{a:?}{b:?}{at}{panics}").as_bytes()));
    inside(a, Inner { at, way: b, next: None, panics }, rec)
}

fn deep(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let ps: Vec<usize> = if rec.thorough() { all() } else { vec![0, 1, 3, 5, 7, 8] };
    let pick = |ch: &mut Ch, c| Way { p: ps[ch.n(ps.len())], c, writer: None };
    let (a, b, c) = (pick(ch, 0), pick(ch, 1), pick(ch, 0));
    let at = ch.n(alone(a).calls + 1);
    let to = ch.n(alone(b).calls + 1);
    let panics = ch.flag();
    rec.transitions += 3;
    rec.state(fnv(FNV0, format!("{a:?}{b:?}{c:?}{at}{to}{panics}").as_bytes()));
    let next = Some(Box::new(Inner { at: to, way: c, next: None, panics }));
    inside(a, Inner { at, way: b, next, panics: false }, rec)
}

fn inside(a: Way, inner: Inner, rec: &mut Rec) -> Result<(), String> {
    let w = Rc::new(World::new(&all()));
    let before = w.debug();
    let found = Rc::new(RefCell::new(Ok(())));
    let (at, panics, b) = (inner.at, inner.panics, inner.way);
    let calls = alone(a).calls;
    let got = with_inner(&w, a, Some(Rc::new(inner)), &found);
    rec.traces += 1;
    rec.nontrivial += 1;
    let what = || format!("with a rendering of program {} in its call {at}", b.p);
    Rc::try_unwrap(found).expect("finished").into_inner()?;
    if !(panics && at < calls) {
        judge(a, &got, &what)?;
    } else if !matches!(&got.end, End::Panic(p) if p == "user code") {
        return Err(format!("user code panicked, but the rendering gave {}", describe_outcome(&got)));
    }
    afterwards(&w, &before, &what)
}

/// Histories of renderings on one engine, where user code panics or a writer
/// fails at some call.
fn failures(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let w = World::new(&all());
    let before = w.debug();
    let mut log = String::new();
    let n = if rec.thorough() { 3 } else { 2 };
    let ps: Vec<usize> = if rec.thorough() { vec![0, 1, 2, 3, 5, 7, 11] } else { all() };
    for i in 0..ch.range(1, n) {
        let mut way = Way::any(ch, &ps, i % 2);
        // Where it fails, if it does.
        let k = ch.n(alone(way).calls + 1);
        let full = way.writer.is_some() && ch.flag();
        log.push_str(&format!(" program {} fails at {k}{}", way.p, if full { " writing" } else { "" }));
        rec.transitions += 1;
        rec.state(fnv(FNV0, log.as_bytes()));
        let plain = k == alone(way).calls;
        if full {
            way.writer = Some(k);
        } else if !plain {
            let mut n = 0;
            set_point(Some(Box::new(move || {
                n += 1;
                if n == k + 1 {
                    panic!("user code");
                }
            })));
        }
        let got = perform(&w, way);
        set_point(None);
        let what = || format!("in the history{log}");
        if plain {
            judge(way, &got, &what)?;
        } else if !full && !matches!(&got.end, End::Panic(p) if p == "user code") {
            return Err(format!("user code panicked, but a rendering gave {}", describe_outcome(&got)));
        }
        rec.traces += 1;
    }
    rec.nontrivial += 1;
    afterwards(&w, &before, &|| format!("after the history{log}"))
}

/// Many renderings, one after the other.
fn repeat(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let ps = all();
    let a = Way::any(ch, &ps, 0);
    let b = Way::any(ch, &ps, 1);
    let n = if rec.thorough() { 1100 } else { 140 };
    let w = World::new(&all());
    let before = w.debug();
    for i in 0..n {
        for way in [a, b] {
            judge(way, &perform(&w, way), &|| format!("rendering number {}", i + 1))?;
            rec.transitions += 1;
        }
    }
    rec.traces += 1;
    rec.nontrivial += 1;
    rec.state(fnv(FNV0, format!("{a:?}{b:?}").as_bytes()));
    afterwards(&w, &before, &|| format!("after {} renderings", 2 * n))
}

/// Contexts one after the other: what one rendering knew, the next does not.
fn context(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const VALS: &[fn() -> V] = &[
        || V::map([("v", V::s("one"))]),
        || V::map([("v", V::s("two")), ("m", V::map([("k", V::Int(1))]))]),
        || V::map([("v", V::Int(3)), ("l", V::list([V::s("a")]))]),
        || V::map([("l", V::list([V::s("b"), V::s("c")])), ("m", V::Map(BTreeMap::new()))]),
        || V::Map(BTreeMap::new()),
        || V::s("nothing"),
    ];
    const SRC: &[&str] = &["{{ v }}", "{{ v }}{{ m?.k }}", "{% for v in l %}{{ v }}{% include \"q\" %}{% endfor %}{{ v }}", "{% include \"q\" %}{% include \"q\" with m %}"];
    let s = SRC[ch.n(SRC.len())];
    let modes = [Mode::Serde, Mode::From, Mode::Fn];
    let mut e = upon::Engine::new();
    e.add_template("q", "[{{ v }}]").map_err(|e| format!("{e:#}"))?;
    let t = e.compile(s).map_err(|e| format!("{e:#}"))?;
    let n = if rec.thorough() { 4 } else { 3 };
    let mut log = format!("{s:?}");
    let mut vals: Vec<V> = vec![];
    let mut values: Vec<upon::Value> = vec![];
    let mut hist = vec![];
    for _ in 0..n {
        hist.push((ch.n(VALS.len()), modes[ch.n(3)]));
    }
    for (i, _) in &hist {
        vals.push(VALS[*i]());
        values.push(VALS[*i]().to_upon());
    }
    for (k, (i, mode)) in hist.iter().enumerate() {
        log.push_str(&format!(" {i}{mode:?}"));
        rec.transitions += 1;
        rec.state(fnv(FNV0, log.as_bytes()));
        let mut c = Case::new(s, vals[k].clone()).temp("q", "[{{ v }}]").mode(*mode);
        c.funcs = &[];
        let want = run_model(&c, rec, PLAIN);
        let get = |p: &[upon::ValueMember<'_>]| value_fn(&vals[k], &path_of(p)).map(|v| v.to_upon());
        let r = match mode {
            Mode::Fn => t.render_from_fn(&e, get),
            Mode::From => t.render_from(&e, &values[k]),
            _ => t.render(&e, &vals[k]),
        };
        let got = match r.to_string() {
            Ok(s) => Outcome { end: End::Ok, out: Some(s), trace: vec![] },
            Err(e) => Outcome { end: End::Err(parse_err(&e, false)), out: None, trace: vec![] },
        };
        compare(&want, &got, PLAIN).map_err(|e| format!("{e} in the history {log}\n  specified {}\n  here {}", describe_outcome(&want), describe_outcome(&got)))?;
    }
    rec.traces += 1;
    rec.nontrivial += 1;
    if values.iter().zip(&vals).any(|(a, b)| V::from_upon(a) != *b) {
        return Err(format!("a context was changed by {log}"));
    }
    Ok(())
}
