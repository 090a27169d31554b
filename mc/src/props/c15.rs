//! C15: the engine as a pair of maps.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::explore::{fnv, Ch, Rec, FNV0};
use crate::funcs::{install, DefFmt, Flt, Fmt, Fun};
use crate::props::gen::SIZES;
use crate::run::{compare, parse_err, run_model, Case, End, Outcome, Root, PLAIN};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        level: "model_checking",
        rule: "every history of operations within the bounds is applied to a real engine and to a pair of maps; after it every name is looked up, rendered and included, and everything returned is compared; a state is a content of the maps",
        scenarios: vec![
            Scenario { name: "histories", body: histories },
            Scenario { name: "functions", body: functions },
            Scenario { name: "transitions", body: transitions },
            Scenario { name: "tour", body: tour },
            Scenario { name: "names", body: names },
            Scenario { name: "handles", body: handles },
            Scenario { name: "settings", body: settings },
            Scenario { name: "many", body: many },
        ],
        apart: &[],
    }
}

type Name = &'static str;
type Src = &'static str;

/// What the engine should be.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Maps {
    t: BTreeMap<Name, Src>,
    f: BTreeMap<Name, u8>,
}

const A: Src = "A{{ v | f }}";
const B: Src = "B{% include \"b\" %}{{ v }}";
const C: Src = "C{{ v | g }}{% include \"a\" %}";
const D: Src = "D";
const BAD: &[Src] = &["{{ v ", "{% if v %}x", "x}}", "{{ \"\\q\" }}", "A{% endif %}"];
const FUNS: &[Fun] = &[Fun::F(Flt::Up), Fun::F(Flt::Own), Fun::P(Fmt::Show), Fun::P(Fmt::Esc), Fun::F(Flt::Fail), Fun::P(Fmt::Err)];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// Adds or replaces a template; the source is borrowed or owned.
    T(Name, Src, bool),
    F(Name, u8),
    DelT(Name),
    DelF(Name),
}

fn what(f: u8) -> upon::EngineFn {
    match FUNS[f as usize] {
        Fun::F(_) => upon::EngineFn::Filter,
        Fun::P(_) => upon::EngineFn::Formatter,
    }
}

impl Maps {
    fn apply(&mut self, op: Op) -> String {
        match op {
            Op::T(_, s, _) if BAD.contains(&s) => "syntax error".into(),
            Op::T(n, s, _) => {
                self.t.insert(n, s);
                "added".into()
            }
            Op::F(n, f) => format!("{:?}", self.f.insert(n, f).map(what)),
            Op::DelT(n) => self.t.remove(n).is_some().to_string(),
            Op::DelF(n) => format!("{:?}", self.f.remove(n).map(what)),
        }
    }
}

fn apply(e: &mut upon::Engine<'_>, op: Op) -> String {
    match op {
        Op::T(n, s, owned) => {
            let r = if owned {
                e.add_template(n.to_string(), s.to_string())
            } else {
                e.add_template(n, s)
            };
            match r {
                Ok(()) => "added".into(),
                Err(e) => match parse_err(&e, true).kind {
                    crate::model::interp::Kind::Syntax => "syntax error".into(),
                    k => format!("{k:?} error"),
                },
            }
        }
        Op::F(n, f) => format!("{:?}", install(e, n, FUNS[f as usize])),
        Op::DelT(n) => e.remove_template(n).to_string(),
        Op::DelF(n) => format!("{:?}", e.remove_function(n)),
    }
}

const VALUE: &str = "v<";
fn ctx() -> V {
    V::map([("v", V::s(VALUE))])
}

/// What is rendered to see the engine.
const PROBES: &[Src] = &["{% include \"a\" %}", "{% include \"b\" %}", "{{ v | f }}", "{{ v | g }}", "{{ v | f | g }}", "{% if v | g %}y{% endif %}"];
const LOOKUP: &[Name] = &["a", "b", "", "A", "a ", "f", "c"];

thread_local! {
    static SEEN: RefCell<HashMap<Maps, Vec<Outcome>>> = RefCell::new(HashMap::new());
}

/// What rendering every template and every probe should give.
fn expected(m: &Maps, rec: &mut Rec) -> Vec<Outcome> {
    if let Some(o) = SEEN.with(|s| s.borrow().get(m).cloned()) {
        return o;
    }
    let funcs: Vec<(&'static str, Fun)> = m.f.iter().map(|(n, f)| (*n, FUNS[*f as usize])).collect();
    let mut out = vec![];
    for p in m.t.keys().map(|n| Root::Named(n.to_string())).chain(PROBES.iter().map(|p| Root::Anon(p.to_string()))) {
        let mut c = Case::new("", ctx());
        c.temps = m.t.iter().map(|(n, s)| (n.to_string(), s.to_string())).collect();
        c.root = p;
        c.emax = Some(4);
        // Few contents of the maps: each is computed once.
        c.funcs = Box::leak(funcs.clone().into_boxed_slice());
        c.deff = DefFmt::Builtin;
        out.push(run_model(&c, rec, PLAIN));
    }
    SEEN.with(|s| s.borrow_mut().insert(m.clone(), out.clone()));
    out
}

fn outcome(r: Result<String, upon::Error>) -> Outcome {
    match r {
        Ok(s) => Outcome { end: End::Ok, out: Some(s), trace: vec![] },
        Err(e) => Outcome { end: End::Err(parse_err(&e, false)), out: None, trace: vec![] },
    }
}

/// Looks at everything.
fn observe(e: &upon::Engine<'_>, probes: &[upon::Template<'_>], m: &Maps, rec: &mut Rec) -> Result<(), String> {
    let value = ctx().to_upon();
    let want = expected(m, rec);
    let mut want = want.iter();
    for (n, s) in &m.t {
        let t = e.get_template(n).ok_or_else(|| format!("template {n:?} is missing"))?;
        if t.source() != *s {
            return Err(format!("template {n:?} has the source {:?}, not {s:?}", t.source()));
        }
        let got = outcome(t.render_from(&value).to_string());
        compare(want.next().unwrap(), &got, PLAIN).map_err(|w| format!("rendering template {n:?}: {w}: {got:?}"))?;
    }
    for n in LOOKUP {
        if e.get_template(n).is_some() != m.t.contains_key(n) {
            return Err(format!("looking up template {n:?} finds {:?}", e.get_template(n).is_some()));
        }
    }
    for (p, s) in probes.iter().zip(PROBES) {
        let want = want.next().unwrap();
        let got = outcome(p.render_from(e, &value).to_string());
        compare(want, &got, PLAIN).map_err(|w| format!("rendering {s:?}: {w}: {got:?} instead of {want:?}"))?;
        if p.source() != *s {
            return Err(format!("the source of {s:?} has become {:?}", p.source()));
        }
    }
    let missing = LOOKUP.iter().find(|n| !m.t.contains_key(*n)).unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| e.template(missing).source().to_string()));
    if let Ok(s) = r {
        return Err(format!("template({missing:?}) gives {s:?} instead of panicking"));
    }
    Ok(())
}

struct World {
    m: Maps,
    e: upon::Engine<'static>,
    probes: Vec<upon::Template<'static>>,
    log: Vec<String>,
}
impl World {
    fn new() -> World {
        let mut e = upon::Engine::new();
        e.set_max_include_depth(4);
        // Compiled before anything is there.
        let probes = PROBES.iter().map(|p| e.compile(*p).unwrap()).collect();
        World { m: Maps::default(), e, probes, log: vec![] }
    }
    fn step(&mut self, op: Op, rec: &mut Rec) -> Result<(), String> {
        let want = self.m.apply(op);
        let got = apply(&mut self.e, op);
        rec.transitions += 1;
        rec.state(fnv(FNV0, format!("{:?}", self.m).as_bytes()));
        self.log.push(format!("{op:?} -> {got}"));
        if want != got {
            return Err(format!("{}\nthe last should be {want}", self.history()));
        }
        Ok(())
    }
    fn history(&self) -> String {
        let from = self.log.len().saturating_sub(40);
        self.log[from..].join("\n")
    }
    fn observe(&self, rec: &mut Rec) -> Result<(), String> {
        rec.traces += 1;
        rec.nontrivial += 1;
        rec.outcome(fnv(FNV0, format!("{:?}", self.m).as_bytes()));
        rec.sample(|| format!("{} => {:?}", self.history(), self.m));
        observe(&self.e, &self.probes, &self.m, rec).map_err(|e| format!("{e}\nafter\n{}\nthe maps are {:?}", self.history(), self.m))
    }
}

/// All histories of up to five (six) operations on two names of templates and
/// two of functions.
fn histories(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const OPS: &[Op] = &[
        Op::T("a", A, false),
        Op::T("a", C, true),
        Op::T("b", D, true),
        Op::T("b", B, false),
        Op::T("a", BAD[0], true),
        Op::T("b", BAD[1], false),
        Op::F("f", 0),
        Op::F("f", 2),
        Op::F("g", 1),
        Op::DelT("a"),
        Op::DelT("b"),
        Op::DelF("f"),
        Op::DelF("g"),
        Op::DelF("a"),
        Op::DelT("f"),
    ];
    let mut w = World::new();
    let n = ch.range(0, if rec.thorough() { 6 } else { 5 });
    for _ in 0..n {
        w.step(OPS[ch.n(OPS.len())], rec)?;
    }
    w.observe(rec)
}

/// All histories of functions alone, with every kind displacing every other.
fn functions(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut w = World::new();
    let n = ch.range(0, if rec.thorough() { 6 } else { 5 });
    let ops: Vec<Op> = (0..FUNS.len() as u8).map(|k| Op::F("f", k)).chain([Op::F("g", 0), Op::F("g", 3), Op::DelF("f"), Op::DelF("g")]).collect();
    for _ in 0..n {
        w.step(*ch.pick(&ops), rec)?;
    }
    w.observe(rec)
}

fn all_ops() -> Vec<Op> {
    let mut ops = vec![];
    for n in ["a", "b", "c"] {
        for (i, s) in [A, B, C, D].into_iter().enumerate() {
            ops.push(Op::T(n, s, i % 2 == 0));
        }
        for s in &BAD[2..] {
            ops.push(Op::T(n, s, false));
        }
        ops.push(Op::DelT(n));
    }
    for n in ["f", "g"] {
        for k in 0..4 {
            ops.push(Op::F(n, k));
        }
        ops.push(Op::DelF(n));
    }
    ops
}

/// The shortest histories that reach every content of the maps.
fn graph() -> &'static Vec<(Maps, Vec<Op>)> {
    use std::sync::OnceLock;
    static G: OnceLock<Vec<(Maps, Vec<Op>)>> = OnceLock::new();
    G.get_or_init(|| {
        let ops = all_ops();
        let mut seen: HashMap<Maps, usize> = HashMap::new();
        let mut out: Vec<(Maps, Vec<Op>)> = vec![];
        let mut q = VecDeque::new();
        q.push_back((Maps::default(), vec![]));
        seen.insert(Maps::default(), 0);
        while let Some((m, h)) = q.pop_front() {
            for op in &ops {
                let mut n = m.clone();
                n.apply(*op);
                if !seen.contains_key(&n) {
                    seen.insert(n.clone(), 0);
                    let mut h = h.clone();
                    h.push(*op);
                    q.push_back((n, h));
                }
            }
            out.push((m, h));
        }
        out
    })
}

/// From every reachable content of the maps, every operation (and every two).
fn transitions(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let g = graph();
    let ops = all_ops();
    let mut w = World::new();
    for op in &g[ch.n(g.len())].1 {
        w.step(*op, rec)?;
    }
    w.step(*ch.pick(&ops), rec)?;
    if rec.thorough() {
        w.step(*ch.pick(&ops), rec)?;
    }
    w.observe(rec)
}

/// One engine that lives through every operation in every content.
fn tour(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let g = graph();
    let ops = all_ops();
    let part = ch.n(8);
    let mut w = World::new();
    for (_, h) in g.iter().skip(part).step_by(8) {
        for op in &ops {
            // Empty it in an order that depends on the content.
            for n in ["a", "b", "c"] {
                if w.m.t.contains_key(n) {
                    w.step(Op::DelT(n), rec)?;
                }
            }
            for n in ["f", "g"] {
                if w.m.f.contains_key(n) {
                    w.step(Op::DelF(n), rec)?;
                }
            }
            for op in h {
                w.step(*op, rec)?;
            }
            w.step(*op, rec)?;
            if w.log.len() > 5000 {
                w.log.drain(..4000);
            }
        }
        w.observe(rec)?;
    }
    Ok(())
}

const ODD: &[Name] = &[
    "", " ", "a", "a ", " a", "A", "aa", "ab", "b", "a.b", "a/b", "../a", "/a", "a\0", "a\0b", "a\n", "\t", "é", "e\u{301}", "É", "日本", "😀", "\u{feff}a", "if", "loop", "<anonymous>", "{{ a }}", "\"", "\\", "a\\", "0", "00", "\u{10ffff}",
    "name that is rather long, longer than anything that fits into a small buffer or a pointer or two or three, surely",
    "name that is rather long, longer than anything that fits into a small buffer or a pointer or two or three, surely!",
];

/// Names are equal only when they are the same text.
fn names(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let a = *ch.pick(ODD);
    let b = *ch.pick(ODD);
    let owned = ch.flag();
    let mut e = upon::Engine::new();
    rec.traces += 1;
    rec.nontrivial += 1;
    rec.state(fnv(fnv(FNV0, a.as_bytes()), b.as_bytes()));
    let ctx = format!("names {a:?} and {b:?}");
    let add = |e: &mut upon::Engine<'static>, n: Name, s: Src| if owned { e.add_template(n.to_string(), s) } else { e.add_template(n, s) };
    add(&mut e, a, "one").map_err(|e| format!("{ctx}: {e}"))?;
    let same = a == b;
    if e.get_template(b).is_some() != same {
        return Err(format!("{ctx}: after adding the first, the second is found: {}", !same));
    }
    let lit = |n: &str| n.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\t', "\\t");
    let inc = |e: &upon::Engine<'static>, n: &str| {
        let t = e.compile(format!("[{{% include \"{}\" %}}]", lit(n))).map_err(|e| e.to_string())?;
        t.render_from(e, &upon::Value::None).to_string().map_err(|e| e.to_string())
    };
    if inc(&e, b).is_ok() != same || inc(&e, a).as_deref() != Ok("[one]") {
        return Err(format!("{ctx}: including gives {:?} and {:?}", inc(&e, a), inc(&e, b)));
    }
    add(&mut e, b, "two").map_err(|e| format!("{ctx}: {e}"))?;
    let first = if same { "two" } else { "one" };
    let got = (e.template(a).source(), e.template(b).source());
    if got != (first, "two") || inc(&e, a) != Ok(format!("[{first}]")) || inc(&e, b).as_deref() != Ok("[two]") {
        return Err(format!("{ctx}: after adding both: {got:?}"));
    }
    if !e.remove_template(b) || e.remove_template(b) || e.get_template(b).is_some() || e.get_template(a).is_some() == same {
        return Err(format!("{ctx}: removing the second goes wrong"));
    }
    // Functions, which templates can only name by identifiers.
    if e.remove_function(a).is_some() {
        return Err(format!("{ctx}: there was no function"));
    }
    let r = (e.add_filter(a.to_string(), |s: String| s), e.add_formatter(b.to_string(), |_: &mut upon::fmt::Formatter<'_>, _: &upon::Value| Ok(())));
    let want = (None, same.then_some(upon::EngineFn::Filter));
    if r != want {
        return Err(format!("{ctx}: adding functions: {r:?}"));
    }
    let r = (e.remove_function(a), e.remove_function(b));
    let want = if same { (Some(upon::EngineFn::Formatter), None) } else { (Some(upon::EngineFn::Filter), Some(upon::EngineFn::Formatter)) };
    if r != want {
        return Err(format!("{ctx}: removing functions: {r:?}"));
    }
    Ok(())
}

/// Templates that were compiled, not registered, live on unchanged.
fn handles(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const OPS: &[Op] = &[
        Op::T("a", A, false),
        Op::T("a", D, true),
        Op::T("a", BAD[0], true),
        Op::DelT("a"),
        Op::F("f", 0),
        Op::F("f", 2),
        Op::DelF("f"),
    ];
    let mut w = World::new();
    let mut kept: Vec<(Src, upon::Template<'static>)> = vec![];
    let n = ch.range(1, if rec.thorough() { 6 } else { 5 });
    for _ in 0..n {
        match ch.n(OPS.len() + 2) {
            i if i < OPS.len() => w.step(OPS[i], rec)?,
            i => {
                let s = if i == OPS.len() { A } else { "{% include \"a\" %}{{ v | f }}" };
                let t = if i % 2 == 0 { w.e.compile(s) } else { w.e.compile(s.to_string()) };
                w.log.push(format!("compile {s:?}"));
                kept.push((s, t.map_err(|e| format!("{}\n{e}", w.history()))?));
            }
        }
    }
    w.observe(rec)?;
    let value = ctx().to_upon();
    // An engine with the opposite content.
    let mut other = World::new();
    for op in [Op::T("a", D, false), Op::F("f", 1)] {
        other.step(op, rec)?;
    }
    for (s, t) in &kept {
        for w in [&w, &other] {
            let mut c = Case::new(*s, ctx());
            c.temps = w.m.t.iter().map(|(n, s)| (n.to_string(), s.to_string())).collect();
            c.emax = Some(4);
            let funcs: Vec<_> = w.m.f.iter().map(|(n, f)| (*n, FUNS[*f as usize])).collect();
            c.funcs = match funcs.as_slice() {
                [] => &[],
                [(_, Fun::F(Flt::Up))] => &[("f", Fun::F(Flt::Up))],
                [(_, Fun::F(Flt::Own))] => &[("f", Fun::F(Flt::Own))],
                [(_, Fun::P(Fmt::Show))] => &[("f", Fun::P(Fmt::Show))],
                _ => unreachable!(),
            };
            let want = run_model(&c, rec, PLAIN);
            let got = outcome(t.render_from(&w.e, &value).to_string());
            if t.source() != *s {
                return Err(format!("{}\nthe source of {s:?} has become {:?}", w.history(), t.source()));
            }
            compare(&want, &got, PLAIN).map_err(|e| format!("{}\n{s:?} renders as {got:?} instead of {want:?}: {e}", w.history()))?;
        }
    }
    Ok(())
}

/// The last setting counts, and is independent of the maps.
fn settings(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut e = upon::Engine::new();
    let mut c = Case::new("", V::map([("v", V::s("a<")), ("n", V::None)]));
    c.funcs = &[("show", Fun::P(Fmt::Show))];
    c.temps = vec![];
    let mut log = vec![];
    for _ in 0..ch.range(0, if rec.thorough() { 5 } else { 4 }) {
        let op = ch.n(8);
        log.push(op);
        match op {
            0 | 1 | 2 => {
                let d = [2, 3, 64][op];
                e.set_max_include_depth(d);
                c.emax = Some(d);
            }
            3 => {
                DefFmt::Show.install(&mut e);
                c.deff = DefFmt::Show;
            }
            4 => {
                DefFmt::Esc.install(&mut e);
                c.deff = DefFmt::Esc;
            }
            5 => {
                e.set_default_formatter(&upon::fmt::default);
                c.deff = DefFmt::Builtin;
            }
            6 => {
                e.add_template("a", "x{% include \"b\" %}").unwrap();
                c.temps.retain(|t| t.0 != "a");
                c.temps.push(("a".into(), "x{% include \"b\" %}".into()));
            }
            _ => {
                e.remove_template("a");
                c.temps.retain(|t| t.0 != "a");
            }
        }
    }
    install(&mut e, "show", Fun::P(Fmt::Show));
    e.add_template("b", "y{% include \"c\" %}{{ v }}").unwrap();
    e.add_template("c", "z{{ n }}").unwrap();
    c.temps.push(("b".into(), "y{% include \"c\" %}{{ v }}".into()));
    c.temps.push(("c".into(), "z{{ n }}".into()));
    rec.traces += 1;
    let value = c.ctx.to_upon();
    for src in ["{% include \"a\" %}", "{% include \"b\" %}", "{{ v }}{{ v | show }}"] {
        c.root = Root::Anon(src.into());
        let want = run_model(&c, rec, PLAIN);
        let got = outcome(e.compile(src).unwrap().render_from(&e, &value).to_string());
        compare(&want, &got, PLAIN).map_err(|w| format!("operations {log:?}\n{}\n{w}: {got:?} instead of {want:?}", c.describe()))?;
    }
    Ok(())
}

/// Many entries at once.
fn many(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = *ch.pick(SIZES);
    let order = ch.n(3);
    let at = |i: usize| match order {
        0 => i,
        1 => n - 1 - i,
        _ => (i * 7919 + 13) % n.max(1),
    };
    let mut e = upon::Engine::new();
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    rec.traces += 1;
    rec.state(fnv(FNV0, &[order as u8, n as u8, (n >> 8) as u8]));
    for i in 0..n {
        let (k, v) = (format!("t{}", at(i)), format!("s{i}"));
        e.add_template(k.clone(), v.clone()).unwrap();
        m.insert(k, v);
        let had = e.add_filter(format!("f{}", at(i)), move |_: &upon::Value| i as i64);
        if had.is_some() {
            return Err(format!("adding function {i} of {n} displaced {had:?}"));
        }
    }
    let check = |e: &upon::Engine<'_>, m: &BTreeMap<String, String>, what: &str| {
        for i in 0..n {
            let k = format!("t{i}");
            let got = e.get_template(&k).map(|t| t.source().to_string());
            if got.as_ref() != m.get(&k) {
                return Err(format!("{n} templates in order {order}, {what}: {k} is {got:?} instead of {:?}", m.get(&k)));
            }
        }
        Ok(())
    };
    check(&e, &m, "all added")?;
    for i in (0..n).filter(|i| i % 3 == 0) {
        let k = format!("t{}", at(i));
        if !e.remove_template(&k) || m.remove(&k).is_none() {
            return Err(format!("{n} templates: removing {k} found nothing"));
        }
    }
    check(&e, &m, "a third removed")?;
    for i in (0..n).filter(|i| i % 2 == 0) {
        let k = format!("t{}", at(i));
        e.add_template(k.clone(), format!("again{i}")).unwrap();
        m.insert(k, format!("again{i}"));
    }
    check(&e, &m, "half replaced")?;
    for i in 0..n {
        let src = format!("{{{{ 1 | f{i} }}}}");
        let want = (0..n).position(|j| at(j) == i).unwrap();
        let got = e.compile(src).unwrap().render_from(&e, &upon::Value::None).to_string().map_err(|e| e.to_string());
        if got != Ok(want.to_string()) {
            return Err(format!("{n} functions: f{i} gives {got:?} instead of {want}"));
        }
    }
    Ok(())
}
