//! One execution: the same case through the implementation and the model.

use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use crate::explore::{fnv, Rec, FNV0};
use crate::funcs::{event, install, trace_start, trace_take, DefFmt, Fun};
use crate::model::interp::{self, value_fn, Kind, MErr, Tmpl, World};
use crate::model::lex::{lex, Finder, BUILT};
use crate::model::parse::{parse, Key};
use crate::model::{Sp, Syn};
use crate::val::{Backwards, V};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    Serde,
    /// Serializes maps in descending order.
    SerdeRev,
    From,
    Fn,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Root {
    Named(String),
    Anon(String),
}

#[derive(Clone, Debug)]
pub struct Case {
    pub syn: Syn,
    pub funcs: &'static [(&'static str, Fun)],
    pub deff: DefFmt,
    pub temps: Vec<(String, String)>,
    pub root: Root,
    pub ctx: V,
    pub mode: Mode,
    pub writer: bool,
    /// Included templates come from a user function over `store`.
    pub store: Option<Vec<(String, String)>>,
    /// That function gives them one after another, whatever the name.
    pub turns: bool,
    pub emax: Option<usize>,
    pub rmax: Option<usize>,
}

impl Case {
    pub fn new(src: impl Into<String>, ctx: V) -> Case {
        Case {
            syn: Syn::default(),
            funcs: crate::funcs::STD,
            deff: DefFmt::Builtin,
            temps: vec![],
            root: Root::Anon(src.into()),
            ctx,
            mode: Mode::From,
            writer: false,
            store: None,
            turns: false,
            emax: None,
            rmax: None,
        }
    }
    pub fn temp(mut self, name: impl Into<String>, src: impl Into<String>) -> Case {
        self.temps.push((name.into(), src.into()));
        self
    }
    pub fn named(mut self, name: &str) -> Case {
        if let Root::Anon(src) = self.root {
            self.temps.push((name.into(), src));
            self.root = Root::Named(name.into());
        }
        self
    }
    pub fn mode(mut self, mode: Mode) -> Case {
        self.mode = mode;
        self
    }
    pub fn writer(mut self, w: bool) -> Case {
        self.writer = w;
        self
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        if self.syn != Syn::default() {
            s.push_str(&format!("syntax {:?}\n", self.syn));
        }
        if self.deff != DefFmt::Builtin {
            s.push_str(&format!("default formatter {:?}\n", self.deff));
        }
        for (n, t) in &self.temps {
            s.push_str(&format!("template {n:?}: {}\n", clip(t)));
        }
        if let Some(st) = &self.store {
            for (n, t) in st {
                s.push_str(&format!("template_fn {n:?}: {}\n", clip(t)));
            }
        }
        if self.turns {
            s.push_str("template_fn answers with them in turn\n");
        }
        match &self.root {
            Root::Named(n) => s.push_str(&format!("render template {n:?}")),
            Root::Anon(t) => s.push_str(&format!("render source {}", clip(t))),
        }
        s.push_str(&format!(
            "\nwith {:?} {}{}",
            self.mode,
            clip(&crate::funcs::show(&self.ctx)),
            if self.writer { " to a writer" } else { "" }
        ));
        if self.emax.is_some() || self.rmax.is_some() {
            s.push_str(&format!(
                "\nmax include depth: engine {:?}, renderer {:?}",
                self.emax, self.rmax
            ));
        }
        s
    }
    fn seed(&self) -> u64 {
        let mut h = fnv(FNV0, format!("{:?}", self.root).as_bytes());
        for (n, t) in self.temps.iter().chain(self.store.iter().flatten()) {
            h = fnv(fnv(h, n.as_bytes()), t.as_bytes());
        }
        h
    }
}

pub fn clip(s: &str) -> String {
    let t = format!("{s:?}");
    if t.len() <= 1200 {
        return t;
    }
    let mut a = 700;
    while !t.is_char_boundary(a) {
        a -= 1;
    }
    let mut b = t.len() - 300;
    while !t.is_char_boundary(b) {
        b += 1;
    }
    format!("{}…({} bytes)…{}", &t[..a], s.len(), &t[b..])
}

#[derive(Clone, Debug, PartialEq)]
pub struct Loc {
    pub name: String,
    pub ln: usize,
    pub col: usize,
    pub width: usize,
    pub text: String,
}

#[derive(Clone, Debug)]
pub struct ErrInfo {
    /// The template whose compilation failed, or `None` for rendering.
    pub compile: bool,
    pub kind: Kind,
    pub reason: Option<String>,
    pub loc: Option<Loc>,
}

#[derive(Clone, Debug)]
pub enum End {
    Ok,
    Err(ErrInfo),
    Panic(String),
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub end: End,
    /// What was written; on failure only known for writers.
    pub out: Option<String>,
    pub trace: Vec<String>,
}

/// What is compared, besides how it ended and the output when it succeeded.
#[derive(Clone, Copy, Debug, Default)]
pub struct Mask {
    pub loc: bool,
    pub reason: bool,
    pub partial: bool,
    pub trace: bool,
    /// Only success or failure matters, not the kind of failure.
    pub any_err: bool,
}

/// Success with this output, or failure of this kind.
pub const PLAIN: Mask = Mask {
    loc: false,
    reason: false,
    partial: false,
    trace: false,
    any_err: false,
};

pub fn parse_err(e: &upon::Error, compile: bool) -> ErrInfo {
    let plain = e.to_string();
    let pretty = format!("{e:#}");
    let (head, reason) = match plain.split_once(": ") {
        Some((h, r)) => (h, Some(r.to_string())),
        None => (plain.as_str(), None),
    };
    let kind = match head {
        "invalid syntax" => Kind::Syntax,
        "render error" => Kind::Render,
        "filter error" => Kind::Filter,
        "format error" => Kind::Format,
        "serialize error" => Kind::Serialize,
        "io error" => Kind::Io,
        _ => panic!("unknown kind of error: {plain:?}"),
    };
    ErrInfo {
        compile,
        kind,
        reason,
        loc: parse_loc(&pretty),
    }
}

/// Reads back the documented display of an error: where, the line, and the
/// underline.
fn parse_loc(p: &str) -> Option<Loc> {
    let mut it = p.split('\n');
    it.next()?;
    if it.next()? != "" {
        return None;
    }
    let (_, at) = it.next()?.split_once("--> ")?;
    let (rest, col) = at.rsplit_once(':')?;
    let (name, ln) = rest.rsplit_once(':')?;
    it.next()?;
    let line = it.next()?;
    let (num, text) = line.split_once(" | ")?;
    if num.trim() != ln {
        return None;
    }
    let (_, under) = it.next()?.split_once(" | ")?;
    let ucol = under.len() - under.trim_start_matches(' ').len();
    let col: usize = col.parse().ok()?;
    // The underline starts in the column that is reported.
    if ucol + 1 != col {
        return None;
    }
    Some(Loc {
        name: name.to_string(),
        ln: ln.parse().ok()?,
        col,
        width: under.matches('^').count(),
        text: text.to_string(),
    })
}

/// Columns a text takes, for the characters the enumerations use.
pub fn width(s: &str) -> usize {
    if !BUILT.unicode {
        return s.chars().count();
    }
    s.chars()
        .map(|c| match c {
            '\u{301}' | '\u{200b}' | '\u{feff}' => 0,
            c if c.is_control() => 0,
            '日' | '本' | '語' | '✨' | '😀' | '\u{3000}' | '\u{ff5b}' => 2,
            c if c.is_ascii() => 1,
            c if "éßñΩжЖпривітλ·€“”→\u{a0}\u{2003}½√☃٣".contains(c) => 1,
            c => unicode_width::UnicodeWidthChar::width(c).unwrap_or(0),
        })
        .sum()
}

pub fn loc_of(name: Option<&str>, src: &str, sp: Sp) -> Loc {
    let before = &src[..sp.m];
    let bol = before.rfind('\n').map_or(0, |i| i + 1);
    let line = src[bol..].split('\n').next().unwrap();
    Loc {
        name: name.unwrap_or("<anonymous>").to_string(),
        ln: 1 + before.matches('\n').count(),
        col: 1 + width(&src[bol..sp.m].replace('\t', " ")),
        width: width(&src[sp.m..sp.n]).max(1),
        text: line.to_string(),
    }
}

fn end_of(e: MErr, compile: bool, locate: bool) -> End {
    let loc = match (&e.at, &e.reason) {
        (Some((src, sp)), Some(_)) if locate => Some(loc_of(e.name.as_deref(), src, *sp)),
        _ => None,
    };
    End::Err(ErrInfo {
        compile,
        kind: e.kind,
        reason: e.reason,
        loc,
    })
}

pub fn compile_model(syn: &Syn, name: Option<&str>, src: &str) -> Result<Tmpl, MErr> {
    let finder = Finder::new(syn);
    compile_model_with(&finder, name, src)
}

pub fn compile_model_with(finder: &Finder, name: Option<&str>, src: &str) -> Result<Tmpl, MErr> {
    let rc: Rc<str> = Rc::from(src);
    let toks = lex(finder, src, BUILT);
    match parse(src, &toks) {
        Ok(body) => Ok(Tmpl {
            name: name.map(String::from),
            src: rc,
            body,
        }),
        Err(e) => Err(MErr {
            kind: Kind::Syntax,
            name: name.map(String::from),
            at: Some((rc, e.sp)),
            reason: Some("*".into()),
        }),
    }
}

pub fn run_model(c: &Case, rec: &mut Rec, mask: Mask) -> Outcome {
    trace_start(mask.trace);
    let finder = Finder::new(&c.syn);
    let fail = |e: MErr| Outcome {
        end: end_of(e, true, mask.loc),
        out: None,
        trace: vec![],
    };
    let mut templates: BTreeMap<String, Tmpl> = BTreeMap::new();
    rec.transitions += 1;
    for (n, src) in &c.temps {
        match compile_model_with(&finder, Some(n), src) {
            Ok(t) => {
                templates.insert(n.clone(), t);
            }
            Err(e) => return fail(e),
        }
    }
    let mut store: BTreeMap<String, Tmpl> = BTreeMap::new();
    if let Some(s) = &c.store {
        for (n, src) in s {
            match compile_model_with(&finder, None, src) {
                Ok(mut t) => {
                    t.name = Some(n.clone());
                    store.insert(n.clone(), t);
                }
                Err(e) => return fail(e),
            }
        }
    }
    let anon;
    let root = match &c.root {
        Root::Anon(src) => match compile_model_with(&finder, None, src) {
            Ok(t) => {
                anon = t;
                &anon
            }
            Err(e) => return fail(e),
        },
        Root::Named(n) => &templates[n],
    };
    let funcs: BTreeMap<String, Fun> = c.funcs.iter().filter(|f| has(f.1)).map(|(n, f)| (n.to_string(), *f)).collect();
    let w = World {
        funcs: &funcs,
        deff: c.deff,
        templates: if c.store.is_some() { &store } else { &templates },
        tfn: c.store.is_some(),
        turns: c.turns,
        max: c.rmax.or(c.emax).unwrap_or(64).max(1),
        seed: c.seed(),
    };
    let (r, out) = interp::render(&w, root, &c.ctx, c.mode == Mode::Fn, rec);
    let trace = trace_take();
    match r {
        Ok(()) => Outcome {
            end: End::Ok,
            out: Some(out),
            trace,
        },
        Err(e) => Outcome {
            end: end_of(e, false, mask.loc),
            out: c.writer.then_some(out),
            trace,
        },
    }
}

pub fn path_of(p: &[upon::ValueMember<'_>]) -> Vec<(bool, Key)> {
    p.iter()
        .map(|m| {
            (
                m.op == upon::ValueAccessOp::Optional,
                match m.access {
                    upon::ValueAccess::Index(i) => Key::Idx(i),
                    upon::ValueAccess::Key(k) => Key::Name(k.to_string()),
                },
            )
        })
        .collect()
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default()
}

pub fn run_impl(c: &Case, trace: bool) -> Outcome {
    trace_start(trace);
    let r = catch_unwind(AssertUnwindSafe(|| impl_inner(c)));
    let trace = trace_take();
    match r {
        Ok((end, out)) => Outcome { end, out, trace },
        Err(e) => Outcome {
            end: End::Panic(panic_text(e)),
            out: None,
            trace,
        },
    }
}

pub fn engine<'e>(c: &'e Case) -> upon::Engine<'e> {
    let mut e = upon::Engine::with_syntax(c.syn.to_upon());
    for (n, f) in c.funcs.iter().filter(|f| has(f.1)) {
        install(&mut e, n, *f);
    }
    c.deff.install(&mut e);
    if let Some(d) = c.emax {
        e.set_max_include_depth(d);
    }
    e
}

/// Without the feature there are no filters.
fn has(f: Fun) -> bool {
    BUILT.filters || matches!(f, Fun::P(_))
}

/// Sets everything up, and passes the renderer on.
pub fn with_renderer<R>(c: &Case, use_it: impl FnOnce(upon::Renderer<'_>) -> R) -> Result<R, upon::Error> {
    let mut engine = engine(c);
    for (n, s) in &c.temps {
        engine.add_template(n.as_str(), s.as_str())?;
    }
    let mut store: BTreeMap<&str, upon::Template<'_>> = BTreeMap::new();
    for (n, s) in c.store.iter().flatten() {
        store.insert(n, engine.compile(s.as_str())?);
    }
    let anon;
    let value;
    let named;
    let get = |p: &[upon::ValueMember<'_>]| value_fn(&c.ctx, &path_of(p)).map(|v| v.to_upon());
    let mut r = match &c.root {
        Root::Anon(s) => {
            anon = engine.compile(s.as_str())?;
            match c.mode {
                #[cfg(feature = "serialize")]
                Mode::Serde => anon.render(&engine, &c.ctx),
                #[cfg(feature = "serialize")]
                Mode::SerdeRev => anon.render(&engine, Backwards(&c.ctx)),
                #[cfg(not(feature = "serialize"))]
                Mode::Serde | Mode::SerdeRev | Mode::From => {
                    value = c.ctx.to_upon();
                    anon.render_from(&engine, &value)
                }
                #[cfg(feature = "serialize")]
                Mode::From => {
                    value = c.ctx.to_upon();
                    anon.render_from(&engine, &value)
                }
                Mode::Fn => anon.render_from_fn(&engine, get),
            }
        }
        Root::Named(n) => {
            named = engine.template(n);
            match c.mode {
                #[cfg(feature = "serialize")]
                Mode::Serde => named.render(&c.ctx),
                #[cfg(feature = "serialize")]
                Mode::SerdeRev => named.render(Backwards(&c.ctx)),
                #[cfg(not(feature = "serialize"))]
                Mode::Serde | Mode::SerdeRev | Mode::From => {
                    value = c.ctx.to_upon();
                    named.render_from(&value)
                }
                #[cfg(feature = "serialize")]
                Mode::From => {
                    value = c.ctx.to_upon();
                    named.render_from(&value)
                }
                Mode::Fn => named.render_from_fn(get),
            }
        }
    };
    if c.store.is_some() {
        let store = &store;
        let mut asked = 0;
        r = r.with_template_fn(move |n| {
            event(|| format!("tpl {n}"));
            if c.turns {
                asked += 1;
                return store.values().nth((asked - 1) % store.len()).ok_or_else(String::new);
            }
            store.get(n).ok_or_else(|| format!("no {n}"))
        });
    }
    if let Some(d) = c.rmax {
        r = r.with_max_include_depth(d);
    }
    Ok(use_it(r))
}

fn impl_inner(c: &Case) -> (End, Option<String>) {
    let r = with_renderer(c, |r| {
        if c.writer {
            let mut buf: Vec<u8> = vec![];
            let res = r.to_writer(&mut buf);
            let out = String::from_utf8_lossy(&buf).into_owned();
            match res {
                Ok(()) => (End::Ok, Some(out)),
                Err(e) => (End::Err(parse_err(&e, false)), Some(out)),
            }
        } else {
            match r.to_string() {
                Ok(s) => (End::Ok, Some(s)),
                Err(e) => (End::Err(parse_err(&e, false)), None),
            }
        }
    });
    r.unwrap_or_else(|e| (End::Err(parse_err(&e, true)), None))
}

pub fn compare(model: &Outcome, imp: &Outcome, mask: Mask) -> Result<(), String> {
    match (&model.end, &imp.end) {
        (_, End::Panic(p)) => return Err(format!("the implementation panicked: {p}")),
        (End::Ok, End::Ok) => {
            if model.out != imp.out {
                return Err("the output differs".into());
            }
        }
        (End::Err(a), End::Err(b)) => {
            if a.compile != b.compile {
                return Err("it failed at another stage".into());
            }
            if a.kind != b.kind && !mask.any_err {
                return Err("the kind of error differs".into());
            }
            if mask.loc && a.loc != b.loc {
                return Err("the location of the error differs".into());
            }
            if mask.reason {
                match (&a.reason, &b.reason) {
                    (Some(w), Some(_)) if w == "*" => {}
                    (x, y) if x == y => {}
                    _ => return Err("the message differs".into()),
                }
            }
            if mask.partial && a.kind != Kind::Syntax && model.out != imp.out {
                return Err("what had been written before the error differs".into());
            }
        }
        _ => return Err("one succeeds, the other fails".into()),
    }
    if mask.trace && model.trace != imp.trace {
        return Err("the calls to user functions differ".into());
    }
    Ok(())
}

pub fn describe_outcome(o: &Outcome) -> String {
    let mut s = match &o.end {
        End::Ok => format!("Ok {}", clip(o.out.as_deref().unwrap_or(""))),
        End::Err(e) => format!(
            "Err {} {:?} reason {:?} at {:?}{}",
            if e.compile { "compiling" } else { "rendering" },
            e.kind,
            e.reason,
            e.loc,
            match &o.out {
                Some(p) => format!(" after writing {}", clip(p)),
                None => String::new(),
            }
        ),
        End::Panic(p) => format!("PANIC {p}"),
    };
    if !o.trace.is_empty() {
        s.push_str(&format!("\n    calls {}", clip(&o.trace.join("; "))));
    }
    s
}

pub fn outcome_hash(o: &Outcome) -> u64 {
    match &o.end {
        End::Ok => fnv(FNV0, o.out.as_deref().unwrap_or("").as_bytes()),
        End::Err(e) => fnv(FNV0, format!("!{:?}{:?}", e.kind, e.loc).as_bytes()),
        End::Panic(_) => 1,
    }
}

/// Runs a case both ways and compares.
pub fn check(c: &Case, mask: Mask, rec: &mut Rec) -> Result<(), String> {
    check_with(c, mask, rec).map(|_| ())
}

pub fn check_with(c: &Case, mask: Mask, rec: &mut Rec) -> Result<Outcome, String> {
    let m = run_model(c, rec, mask);
    let i = run_impl(c, mask.trace);
    rec.traces += 1;
    if !matches!(&m.end, End::Err(e) if e.compile) {
        rec.nontrivial += 1;
    }
    rec.outcome(outcome_hash(&m));
    rec.sample(|| format!("{}\n => {}", c.describe(), describe_outcome(&i)));
    compare(&m, &i, mask).map_err(|why| {
        format!(
            "{why}\n{}\n  specified:      {}\n  implementation: {}",
            c.describe(),
            describe_outcome(&m),
            describe_outcome(&i)
        )
    })?;
    Ok(i)
}
