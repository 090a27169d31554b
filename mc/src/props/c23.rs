//! C23: templates and their sources.

use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::explore::{fnv, Ch, Rec, FNV0};
use crate::funcs::{install, Flt, Fmt, Fun};
use crate::props::gen::SIZES;
use crate::run::{clip, compare, panic_text, parse_err, run_model, Case, End, Mask, Outcome, Root, PLAIN};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        level: "model_checking",
        rule: "every history of compiling, registering, moving, replacing, dropping and rendering templates within the bounds is carried out; after each step every live template is asked for its source, printed and rendered, against a list of the sources; a state is what is live",
        scenarios: vec![
            Scenario { name: "histories", body: histories },
            Scenario { name: "engines", body: engines },
            Scenario { name: "sources", body: sources },
            Scenario { name: "alike", body: alike },
            Scenario { name: "names", body: names },
            Scenario { name: "orders", body: orders },
            Scenario { name: "references", body: references },
            Scenario { name: "debug", body: debug },
            Scenario { name: "printed", body: printed },
            Scenario { name: "sizes", body: sizes },
        ],
        apart: &[],
    }
}

const M: Mask = Mask { loc: true, ..PLAIN };

const FUNS: &[(&str, Fun)] = &[("up", Fun::F(Flt::Up)), ("show", Fun::P(Fmt::Show))];

/// Sources that look alike: the same length, the same places of tags, a part
/// of each other.
const SRC: &[&str] = &[
    "a{{ v }}b",
    "c{{ w }}d",
    "日{{ v }}",
    "",
    "x",
    "a{{ v }}bc{% if v %}é{% endif %}",
    "{% for x in l %}{{ x }}{% endfor %}",
    "{% include \"p\" %}!{{ v | up }}",
    "{{ nope }}",
    "{# c #} {{- \"s\\n\" -}} ",
    "{% include \"q\" with m %}",
    "{% with v as p %}{{ p.q | show }}{% endwith %}",
];

fn ctx() -> V {
    V::map([
        ("v", V::s("V")),
        ("w", V::Int(-2)),
        ("l", V::list([V::Int(1), V::Int(2)])),
        ("m", V::map([("v", V::s("inner"))])),
    ])
}

fn engine() -> upon::Engine<'static> {
    let mut e = upon::Engine::new();
    for (n, f) in FUNS {
        install(&mut e, n, *f);
    }
    e.set_max_include_depth(3);
    e
}

fn outcome(r: Result<String, upon::Error>) -> Outcome {
    match r {
        Ok(s) => Outcome { end: End::Ok, out: Some(s), trace: vec![] },
        Err(e) => Outcome { end: End::Err(parse_err(&e, false)), out: None, trace: vec![] },
    }
}

/// What is alive.
#[derive(Default)]
struct World {
    e: Option<upon::Engine<'static>>,
    names: BTreeMap<&'static str, String>,
    slots: Vec<Option<(String, Box<upon::Template<'static>>)>>,
    log: Vec<String>,
}

impl World {
    fn new(slots: usize) -> World {
        World {
            e: Some(engine()),
            slots: (0..slots).map(|_| None).collect(),
            ..World::default()
        }
    }
    fn e(&mut self) -> &mut upon::Engine<'static> {
        self.e.as_mut().unwrap()
    }
    fn compile(&mut self, slot: usize, src: &'static str, owned: bool) -> Result<(), String> {
        self.log.push(format!("slot {slot} = compile {}{}", clip(src), if owned { " owned" } else { "" }));
        let e = self.e();
        let t = if owned { e.compile(src.to_string()) } else { e.compile(src) };
        let t = t.map_err(|e| format!("{}\n{e:#}", self.history()))?;
        self.slots[slot] = Some((src.into(), Box::new(t)));
        Ok(())
    }
    fn add(&mut self, name: &'static str, src: &'static str, owned: bool) -> Result<(), String> {
        self.log.push(format!("add {name:?} {}{}", clip(src), if owned { " owned" } else { "" }));
        let e = self.e();
        let r = if owned { e.add_template(name.to_string(), src.to_string()) } else { e.add_template(name, src) };
        r.map_err(|e| format!("{}\n{e:#}", self.history()))?;
        self.names.insert(name, src.into());
        Ok(())
    }
    fn history(&self) -> String {
        self.log.join("\n  ")
    }
    fn observe(&self, rec: &mut Rec, render: bool) -> Result<(), String> {
        self.look(rec, render).map_err(|e| format!("{e}\nafter\n  {}", self.history()))
    }
    fn look(&self, rec: &mut Rec, render: bool) -> Result<(), String> {
        let e = self.e.as_ref().unwrap();
        let value = ctx().to_upon();
        rec.transitions += 1;
        let live: Vec<_> = self.slots.iter().flatten().map(|s| &s.0).collect();
        rec.state(fnv(FNV0, format!("{live:?}{:?}", self.names).as_bytes()));
        let mut c = Case::new("", ctx());
        c.funcs = FUNS;
        c.emax = Some(3);
        c.temps = self.names.iter().map(|(n, s)| (n.to_string(), s.clone())).collect();
        for (src, t) in self.slots.iter().flatten() {
            if t.source() != src {
                return Err(format!("the source of {} is {}", clip(src), clip(t.source())));
            }
            if format!("{t:?}").is_empty() || format!("{t:#?}").is_empty() {
                return Err("a template prints as nothing".into());
            }
            if render {
                c.root = Root::Anon(src.clone());
                let want = run_model(&c, rec, M);
                for _ in 0..2 {
                    let got = outcome(t.render_from(e, &value).to_string());
                    compare(&want, &got, M).map_err(|e| format!("{} renders as {got:?} instead of {want:?}: {e}", clip(src)))?;
                }
            }
        }
        for (n, src) in &self.names {
            let t = e.get_template(n).ok_or(format!("{n:?} is missing"))?;
            if t.source() != src {
                return Err(format!("the source of {n:?} is {} instead of {}", clip(t.source()), clip(src)));
            }
            if format!("{t:?}").is_empty() {
                return Err("a reference prints as nothing".into());
            }
            if render {
                c.root = Root::Named(n.to_string());
                let want = run_model(&c, rec, M);
                let got = outcome(t.render_from(&value).to_string());
                compare(&want, &got, M).map_err(|e| format!("{n:?} renders as {got:?} instead of {want:?}: {e}"))?;
            }
        }
        let d = format!("{e:?}{e:#?}");
        if !d.contains("Engine") {
            return Err(format!("the engine prints as {d}"));
        }
        Ok(())
    }
}

fn quiet(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|e| Err(format!("panicked: {}", panic_text(e))))
}

/// Everything that can happen to two templates and two names.
fn histories(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    rec.traces += 1;
    rec.nontrivial += 1;
    let n = ch.range(1, if rec.thorough() { 6 } else { 5 });
    let mut ops: Vec<usize> = vec![];
    for _ in 0..n {
        ops.push(ch.n(13));
    }
    quiet(|| {
        let mut w = World::new(2);
        for (i, op) in ops.iter().enumerate() {
            match op {
                0 => w.compile(0, SRC[0], false)?,
                1 => w.compile(0, SRC[7], true)?,
                2 => w.compile(1, SRC[2], true)?,
                3 => w.compile(1, SRC[10], false)?,
                4 => w.add("p", SRC[1], true)?,
                5 => w.add("p", SRC[5], false)?,
                6 => w.add("q", SRC[7], true)?,
                7 => {
                    w.log.push("remove \"p\"".into());
                    w.e().remove_template("p");
                    w.names.remove("p");
                }
                8 => {
                    w.log.push("drop slot 0".into());
                    w.slots[0] = None;
                }
                9 => {
                    w.log.push("swap the slots".into());
                    w.slots.swap(0, 1);
                }
                10 => {
                    w.log.push("add and compile something broken".into());
                    let e = w.e();
                    if e.add_template("p", "{{ v }} {% if").is_ok() || e.compile(String::from("{{ w")).is_ok() {
                        return Err("it compiles".into());
                    }
                }
                11 => {
                    w.log.push("another engine".into());
                    w.e = Some(engine());
                    w.names.clear();
                }
                _ => {
                    w.log.push("move the engine".into());
                    let e = Box::new(w.e.take());
                    w.e = *e;
                }
            }
            // The history up to here is another one.
            if i + 1 == ops.len() {
                w.observe(rec, true)?;
            }
        }
        rec.outcome(fnv(FNV0, format!("{:?}", w.names).as_bytes()));
        rec.sample(|| w.history());
        Ok(())
    })
}

/// A template outlives the engine, with its own syntax, and renders with any.
fn engines(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const SYN: &[(&str, &str)] = &[("{{", "}}"), ("<<", ">>"), ("$", "%"), ("{", "}"), ("日", "本")];
    let (a, b) = SYN[ch.n(SYN.len())];
    let (c, d) = SYN[ch.n(SYN.len())];
    let owned = ch.flag();
    let dropped = ch.flag();
    rec.traces += 1;
    rec.transitions += 1;
    rec.nontrivial += 1;
    rec.state(fnv(FNV0, format!("{a}{c}{owned}{dropped}").as_bytes()));
    let src = format!("<é-{a} v {b}-{a} v | f {b}");
    let want = "<é-X-X.";
    quiet(|| {
        let syn = upon::Syntax::builder().expr(a, b).build();
        let mut one = upon::Engine::with_syntax(syn);
        one.add_filter("f", |s: String| s + "?");
        let t = if owned { one.compile(src.clone()) } else { one.compile(src.as_str()) };
        let t = match t {
            Ok(t) => t,
            Err(e) => return Err(format!("{src:?}: {e:#}")),
        };
        if dropped {
            drop(one);
        }
        let mut two = upon::Engine::with_syntax(upon::Syntax::builder().expr(c, d).build());
        two.add_filter("f", |s: String| s + ".");
        let got = t.render_from(&two, &upon::Value::from([("v", "X")])).to_string().map_err(|e| format!("{src:?}: {e:#}"))?;
        if t.source() != src {
            return Err(format!("the source of {src:?} is {:?}", t.source()));
        }
        if got != want {
            return Err(format!("{src:?} renders as {got:?} instead of {want:?}"));
        }
        Ok(())
    })
}

/// Texts of all kinds are kept to the byte.
fn sources(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const PART: &[&str] = &[
        "", " ", "\n", "\r\n", "\r", "\t", "\u{feff}", "\u{0}", "é", "e\u{301}", "日本", "😀", "{{ v }}", "{{- v -}}", "{# c #}", "{#- -#}",
        "{{ \"a\\n\" }}", "{% if v %}", "{% endif %}", "{{ 0x_1F }}", "  {%- include \"p\" -%}  ", "{{ v | up }}", "\\", "\"",
    ];
    let n = ch.range(0, if rec.thorough() { 4 } else { 3 });
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(PART[ch.n(PART.len())]);
    }
    rec.traces += 1;
    rec.transitions += 1;
    rec.state(fnv(FNV0, s.as_bytes()));
    let what = || clip(&s);
    quiet(|| {
        let mut e = engine();
        let ok = e.compile(s.as_str()).is_ok();
        let added = e.add_template("t", s.as_str()).is_ok();
        let owned = e.add_template(String::from("o"), s.clone()).is_ok();
        if added != ok || owned != ok {
            return Err(format!("{} compiles {ok}, is added borrowed {added} and owned {owned}", what()));
        }
        if !ok {
            return Ok(());
        }
        rec.nontrivial += 1;
        let a = e.compile(s.as_str()).unwrap();
        let b = e.compile(s.clone()).unwrap();
        let c = e.compile(std::borrow::Cow::Borrowed(s.as_str())).unwrap();
        let all = [a.source(), b.source(), c.source(), e.template("t").source(), e.template("o").source()];
        match all.iter().find(|x| **x != s) {
            Some(x) => Err(format!("the source of {} is {}", what(), clip(x))),
            None => Ok(()),
        }
    })
}

/// Sources that are nearly the same, one after the other under one name and
/// side by side, by themselves.
fn alike(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const BASE: &[&str] = &["a{{ v }}b", "", "{{ v }}", "x", "{% if v %}1{% endif %}"];
    const EDIT: &[&str] = &["", "\u{0}", " ", "\n", "\r\n", "\t", "\u{feff}", "x", "{##}", "{# c #}", "{{ v }}", "\u{a0}", "\u{200b}", "\u{0}\u{0}", "{{- \"\" -}}", "é", "e\u{301}", "X"];
    let b = *ch.pick(BASE);
    let n = if rec.thorough() { 4 } else { 3 };
    let mut all = vec![];
    for i in 0..n {
        let e = EDIT[ch.n(EDIT.len())];
        // The last one is edited at the front as well.
        all.push(if i + 1 == n && ch.flag() { format!("{e}{b}") } else { format!("{b}{e}") });
    }
    rec.traces += 1;
    rec.nontrivial += 1;
    rec.transitions += n as u64;
    rec.state(fnv(FNV0, format!("{all:?}").as_bytes()));
    quiet(|| {
        let mut e = engine();
        let mut free = vec![];
        for (i, s) in all.iter().enumerate() {
            e.add_template("t", s.clone()).map_err(|e| format!("{s:?}: {e:#}"))?;
            e.add_template(format!("t{i}"), s.clone()).map_err(|e| format!("{s:?}: {e:#}"))?;
            free.push(e.compile(s.clone()).map_err(|e| format!("{s:?}: {e:#}"))?);
            let value = ctx().to_upon();
            let last = e.template("t");
            let got = (last.source().to_string(), last.render_from(&value).to_string().ok());
            for (j, s) in all[..=i].iter().enumerate() {
                let t = e.get_template(&format!("t{j}")).ok_or("a template is missing")?;
                let want = (s.to_string(), free[j].render_from(&e, &value).to_string().ok());
                if free[j].source() != s || t.source() != s || t.render_from(&value).to_string().ok() != want.1 || j == i && got != want {
                    return Err(format!("after {:?}, the sources of {s:?} are {:?}, {:?} and, of the last, {:?}", &all[..=i], free[j].source(), t.source(), got.0));
                }
            }
        }
        Ok(())
    })
}

/// A template found by name is rendered under that name.
fn names(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const NAMES: &[&str] = &["", "a", "A", "a ", " a", "a.html", "/a", "日", "a\u{301}", "á", "aa", "loop"];
    let x = NAMES[ch.n(NAMES.len())];
    let y = NAMES[ch.n(NAMES.len())];
    let owned = ch.flag();
    let how = ch.n(3);
    rec.traces += 1;
    rec.transitions += 1;
    rec.nontrivial += 1;
    rec.state(fnv(FNV0, format!("{x}|{y}{owned}").as_bytes()));
    quiet(|| {
        let mut e = engine();
        for (n, i) in [(x, 1), (y, 2)] {
            let src = format!("{i}\n{{{{ missing }}}}");
            if owned {
                e.add_template(n.to_string(), src).unwrap();
            } else {
                e.add_template(n, src).unwrap();
            }
        }
        let value = ctx().to_upon();
        // A name that is only like these is not there.
        for n in NAMES.iter().filter(|n| **n != x && **n != y) {
            if let Some(t) = e.get_template(n) {
                return Err(format!("{n:?} is found among {x:?} and {y:?}: {t:?}"));
            }
            let inc = e.compile(format!("{{% include \"{n}\" %}}")).map_err(|e| e.to_string())?;
            if let Ok(s) = inc.render_from(&e, &value).to_string() {
                return Err(format!("{n:?} is included from among {x:?} and {y:?}: {s:?}"));
            }
        }
        for (n, i) in [(x, if x == y { 2 } else { 1 }), (y, 2)] {
            // The text asked with does not live on.
            let asked = n.to_string();
            let t = match how {
                0 => e.template(&asked),
                1 => e.get_template(&asked).ok_or(format!("{n:?} is missing"))?,
                _ => {
                    let t = e.template(&asked);
                    let u = t;
                    let _ = t;
                    u
                }
            };
            drop(asked);
            if t.source() != format!("{i}\n{{{{ missing }}}}") {
                return Err(format!("{n:?} has the source {:?}", t.source()));
            }
            let mut w = vec![];
            let err = match t.render_from(&value).to_writer(&mut w) {
                Ok(()) => return Err(format!("{n:?} renders")),
                Err(e) => parse_err(&e, false),
            };
            if w != format!("{i}\n").as_bytes() {
                return Err(format!("{n:?} writes {w:?}"));
            }
            match err.loc {
                Some(l) if l.name == n && l.ln == 2 => {}
                l => return Err(format!("the error of {n:?} is at {l:?}")),
            }
            if !format!("{t:?}").contains(&format!("{n:?}")) {
                return Err(format!("the reference to {n:?} prints as {t:?}"));
            }
        }
        Ok(())
    })
}

/// Templates compiled in one order, rendered in another, dropped in a third.
fn orders(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = if rec.thorough() { 5 } else { 4 };
    let perm = |ch: &mut Ch| {
        let mut left: Vec<usize> = (0..n).collect();
        (0..n).map(|_| left.remove(ch.n(left.len()))).collect::<Vec<_>>()
    };
    let from = ch.n(3) * 4;
    let compiled = perm(ch);
    let dropped = perm(ch);
    rec.traces += 1;
    rec.nontrivial += 1;
    quiet(|| {
        let mut w = World::new(n);
        w.add("p", SRC[2], false)?;
        w.add("q", SRC[0], true)?;
        for (i, s) in compiled.iter().enumerate() {
            w.compile(*s, SRC[(from + s) % SRC.len()], i % 2 == 0)?;
        }
        for (i, s) in dropped.iter().enumerate() {
            w.observe(rec, i < 2)?;
            w.log.push(format!("drop slot {s}"));
            w.slots[*s] = None;
        }
        w.observe(rec, false)
    })
}

/// References can be kept side by side and used again and again.
fn references(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const OK: &[usize] = &[0, 1, 2, 3, 5, 6, 9, 11];
    let p = SRC[OK[ch.n(OK.len())]];
    let q = SRC[OK[ch.n(OK.len())]];
    let mut uses = vec![];
    for _ in 0..ch.range(1, 4) {
        uses.push(ch.n(5));
    }
    rec.traces += 1;
    rec.nontrivial += 1;
    rec.transitions += uses.len() as u64;
    rec.state(fnv(FNV0, format!("{p}{q}{uses:?}").as_bytes()));
    let want = |name: &str, rec: &mut Rec| {
        let mut c = Case::new("", ctx());
        c.funcs = FUNS;
        c.emax = Some(3);
        c.temps = vec![("p".into(), p.into()), ("q".into(), q.into())];
        c.root = Root::Named(name.into());
        run_model(&c, rec, M)
    };
    let (wp, wq) = (want("p", rec), want("q", rec));
    quiet(|| {
        let mut e = engine();
        e.add_template("p", p).unwrap();
        e.add_template("q", q.to_string()).unwrap();
        let value = ctx().to_upon();
        let (rp, rq) = (e.template("p"), e.get_template("q").unwrap());
        let free = e.compile(q).unwrap();
        // Created now, used at the end.
        let late = rp.render_from(&value);
        for u in &uses {
            let (w, r) = match u {
                0 => (&wp, rp.render_from(&value).to_string()),
                1 => (&wq, rq.render_from(&value).to_string()),
                2 => (&wp, { rp }.render(ctx()).to_string()),
                3 => (&wq, { rq }.render_from_fn(|p| crate::model::interp::value_fn(&ctx(), &crate::run::path_of(p)).map(|v| v.to_upon())).to_string()),
                _ => {
                    let r = free.render_from(&e, &value).to_string();
                    match (&wq.end, &r) {
                        (End::Ok, Ok(s)) if Some(s) == wq.out.as_ref() => continue,
                        (End::Err(_), Err(_)) => continue,
                        _ => return Err(format!("{q:?} on its own renders as {r:?} instead of {wq:?}")),
                    }
                }
            };
            let got = outcome(r);
            compare(w, &got, M).map_err(|e| format!("after {uses:?} of {p:?} and {q:?}: {e}: {got:?} instead of {w:?}"))?;
            if rp.source() != p || rq.source() != q || free.source() != q {
                return Err(format!("the sources of {p:?} and {q:?} are {:?} and {:?}", rp.source(), rq.source()));
            }
        }
        let got = outcome(late.to_string());
        compare(&wp, &got, M).map_err(|e| format!("late, {p:?}: {e}: {got:?} instead of {wp:?}"))
    })
}

/// Printing, in every state.
fn debug(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let t = ch.n(4);
    let f = ch.n(4);
    let bad = ch.flag();
    let syn = ch.flag();
    rec.traces += 1;
    rec.transitions += 1;
    rec.nontrivial += 1;
    rec.state(fnv(FNV0, &[t as u8, f as u8, bad as u8, syn as u8]));
    quiet(|| {
        let mut e = if syn { upon::Engine::with_syntax(upon::Syntax::builder().expr("<", ">").build()) } else { upon::Engine::default() };
        for i in 0..t {
            let _ = e.add_template(format!("t{i}"), SRC[[0, 5, 6, 9][i]]);
        }
        for i in 0..f {
            install(&mut e, &format!("f{i}"), [Fun::F(Flt::Id), Fun::P(Fmt::Show), Fun::F(Flt::Fail)][i % 3]);
        }
        if bad {
            let _ = e.add_template("t0", "{% if");
            e.remove_template("t1");
            e.remove_function("f1");
        }
        let mut all = vec![format!("{e:?}"), format!("{e:#?}")];
        for i in 0..t {
            if let Some(t) = e.get_template(&format!("t{i}")) {
                all.push(format!("{t:?}"));
                all.push(format!("{t:#?}"));
            }
        }
        let c = e.compile("x").unwrap();
        all.extend([format!("{c:?}"), format!("{c:#?}"), format!("{:?}", upon::Syntax::builder().build())]);
        match all.iter().find(|s| s.is_empty()) {
            Some(_) => Err(format!("nothing is printed: {all:?}")),
            None => Ok(()),
        }
    })
}

/// Whatever text there is in an engine, it can be printed.
fn printed(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const CH: &[char] = &['x', 'é', '日', '😀', '\u{301}', '\n', '"', '\\', '\0'];
    let n = ch.n(if rec.thorough() { 300 } else { 70 });
    let tail = *ch.pick(&[0usize, 1, 9, 40]);
    let c = CH[ch.n(CH.len())];
    let fill = CH[ch.n(4)];
    let place = ch.n(6);
    let text: String = (0..n).map(|_| fill).chain([c]).chain((0..tail).map(|_| 'z')).collect();
    rec.traces += 1;
    rec.transitions += 1;
    rec.nontrivial += 1;
    rec.state(fnv(FNV0, format!("{place}{text}").as_bytes()));
    let marks = (format!("<{text}"), format!("{text}>"), format!("#{text}"));
    quiet(|| {
        let mut e = match place {
            0 => upon::Engine::with_syntax(upon::Syntax::builder().expr(&marks.0, &marks.1).comment(&marks.2, &text).build()),
            _ => upon::Engine::new(),
        };
        let mut name = "t".to_string();
        let mut src = "a".to_string();
        match place {
            1 => name = text.clone(),
            2 => src = text.clone(),
            3 => drop(install(&mut e, &text, Fun::F(Flt::Id))),
            4 => src = format!("{{% if x %}}{text}{{% endif %}}{{{{ {text:?} }}}}"),
            5 => src = format!("{{% include {text:?} %}}"),
            _ => {}
        }
        let mut all = vec![format!("{e:?}"), format!("{e:#?}")];
        let added = match e.add_template(name.clone(), src.clone()) {
            Ok(()) => true,
            Err(err) => {
                all.extend([format!("{err}"), format!("{err:?}"), format!("{err:#}"), format!("{err:#?}")]);
                false
            }
        };
        all.extend([format!("{e:?}"), format!("{e:#?}")]);
        if added {
            let t = e.template(&name);
            all.extend([format!("{t:?}"), format!("{t:#?}")]);
            let c = e.compile(src.as_str()).map_err(|e| format!("{src:?} compiles only once: {e:#}"))?;
            all.extend([format!("{c:?}"), format!("{c:#?}")]);
            let value = upon::Value::from([(text.as_str(), text.as_str())]);
            all.extend([format!("{value:?}"), format!("{value:#?}")]);
            if let Err(err) = t.render_from(&value).to_string() {
                all.extend([format!("{err}"), format!("{err:?}"), format!("{err:#}"), format!("{err:#?}")]);
            }
            if t.source() != src || c.source() != src {
                return Err(format!("the source of {src:?} is {:?} or {:?}", t.source(), c.source()));
            }
        }
        match all.iter().find(|s| s.is_empty()) {
            Some(_) => Err(format!("nothing is printed: {all:?}")),
            None => Ok(()),
        }
    })
}

/// Many templates at once, and long sources.
fn sizes(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = *ch.pick(SIZES);
    let what = ch.n(3);
    rec.traces += 1;
    rec.nontrivial += 1;
    rec.transitions += n as u64;
    rec.state(fnv(FNV0, format!("{n}{what}").as_bytes()));
    quiet(|| {
        let mut e = engine();
        let value = ctx().to_upon();
        if what == 2 {
            for unit in ["é{{ v }}", "日", "{{ \"\\\"\" }}{# x #}"] {
                let src = unit.repeat(n);
                e.add_template("long", src.clone()).unwrap();
                let t = e.compile(src.as_str()).unwrap();
                let want = ["éV", "日", "\""][["é{{ v }}", "日", "{{ \"\\\"\" }}{# x #}"].iter().position(|u| *u == unit).unwrap()].repeat(n);
                let got = [t.render_from(&e, &value).to_string(), e.template("long").render_from(&value).to_string()];
                if t.source() != src || e.template("long").source() != src || got.iter().any(|g| g.as_ref().ok() != Some(&want)) {
                    return Err(format!("{n} times {unit:?}: the source or the rendering differs"));
                }
            }
            return Ok(());
        }
        let mut kept = vec![];
        for i in 0..n {
            let src = format!("{i}:{{{{ v }}}}{}", "é".repeat(i % 5));
            if what == 0 {
                e.add_template(format!("t{i}"), src.clone()).unwrap();
            }
            kept.push((src.clone(), e.compile(src).unwrap()));
        }
        for (i, (src, t)) in kept.iter().enumerate().rev() {
            let want = src.replace("{{ v }}", "V");
            let got = t.render_from(&e, &value).to_string();
            if t.source() != src || got.as_ref().ok() != Some(&want) {
                return Err(format!("template {i} of {n}: the source is {:?}, it renders as {got:?} instead of {want:?}", t.source()));
            }
            if what == 0 {
                let t = e.template(&format!("t{i}"));
                let got = t.render_from(&value).to_string();
                if t.source() != src || got.as_ref().ok() != Some(&want) {
                    return Err(format!("registered template {i} of {n}: the source is {:?}, it renders as {got:?} instead of {want:?}", t.source()));
                }
            }
        }
        Ok(())
    })
}
