//! C18: all the ways to render.

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::explore::{fnv, Ch, Rec, FNV0};
use crate::funcs::{install, show, DefFmt, Fmt, Fun};
use crate::props::gen::{Kind as K, Skel, SIZES};
use crate::run::{check_with, panic_text, path_of, Case, End, Mask, Mode, Outcome, Root, PLAIN};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        level: "model_checking",
        rule: "every template and context within the bounds is rendered in every way, each compared with the reference machine, including the calls of value functions with their paths, and with each other",
        scenarios: vec![
            Scenario { name: "ways", body: ways },
            Scenario { name: "skeletons", body: skeletons },
            Scenario { name: "paths", body: paths },
            Scenario { name: "long paths", body: long_paths },
            Scenario { name: "bound", body: bound },
            Scenario { name: "contexts", body: contexts },
            Scenario { name: "answers", body: answers },
            Scenario { name: "sizes", body: sizes },
        ],
        apart: &[],
    }
}

const M: Mask = Mask { loc: true, trace: true, ..PLAIN };
const MODES: &[Mode] = &[Mode::From, Mode::Serde, Mode::SerdeRev, Mode::Fn];

fn gist(o: &Outcome) -> String {
    match &o.end {
        End::Ok => format!("{:?}", o.out),
        End::Err(e) => format!("{:?}", e.kind),
        End::Panic(p) => format!("panic {p}"),
    }
}

/// In every way; the result has to be the same.
fn every_way(c: &Case, rec: &mut Rec) -> Result<(), String> {
    let mut seen: Option<(String, String)> = None;
    for named in [false, true] {
        for writer in [false, true] {
            for mode in MODES {
                let mut d = c.clone().mode(*mode).writer(writer);
                if named {
                    d = d.named("the root");
                    if let Some(s) = &mut d.store {
                        // The function of the user does not know the root.
                        s.retain(|t| t.0 != "the root");
                    }
                }
                let o = check_with(&d, M, rec)?;
                let g = gist(&o);
                let what = format!("{mode:?} {} {}", if named { "registered" } else { "compiled" }, if writer { "writer" } else { "string" });
                match &seen {
                    Some((w, s)) if *s != g => {
                        return Err(format!("{what} gives {g}, but {w} gives {s}\n{}", d.describe()));
                    }
                    Some(_) => {}
                    None => seen = Some((what, g)),
                }
            }
        }
    }
    Ok(())
}

const TEMPLATES: &[&str] = &[
    "",
    "plain {\u{65e5}} text\r\n",
    "{{ i }}{{ s }}{{ f }}{{ b }}{{ n }}",
    "{{ m.k }}-{{ m.inn.l.1 }}-{{ l.0 }}",
    "{{ m?.nope }}{{ m.nope?.x | show }}",
    "{{ m?.inn?.l?.9 | show }}",
    "{{ nope }}",
    "{{ m.nope }}",
    "{{ i.x }}",
    "a{{ l }}",
    "a{{ m | show }}",
    "{{ l | show }}{{ n | show }}",
    "{% for x in l %}{{ loop.index }}{{ x }},{% endfor %}",
    "{% for x in m %}{% endfor %}",
    "{% for k, v in m %}{{ k }}{{ v | show }}{{ loop.last }};{% endfor %}",
    "{% for x in e %}x{% endfor %}{% for x in l %}{% for y in l %}{{ x }}{{ y }}{% endfor %}{% endfor %}",
    "{% for m in l %}{{ m }}{% endfor %}{{ m.k }}",
    "{% for x in s %}{% endfor %}",
    "{% if b %}t{% else %}f{% endif %}{% if n %}t{% else if i %}i{% endif %}",
    "{% if not m %}t{% else if l.0 %}i{% else %}e{% endif %}",
    "{% with m.inn as s %}{{ s.l | show }}{% endwith %}{{ s }}",
    "{% with l as x %}{% for x in x %}{{ x }}{% endfor %}{{ x | show }}{% endwith %}",
    "{{ s | up }}{{ i | add: 2 }}{{ s | cat: s }}{{ m.k | id | show }}",
    "{{ i | add: m.k }}{{ m.inn | keys | show }}{{ l | rev | show }}",
    "{{ i | fail }}",
    "x{{ i | ferr }}",
    "{{ s | nope }}",
    "{{ s | add: 1 }}",
    "{{ s | esc }}{{ m.inn.l | twice }}",
    "{% include \"a\" %}{% include \"b\" with m %}",
    "{% for x in l %}{% include \"c\" %}{% endfor %}{% include \"c\" with m %}",
    "{% include \"b\" with s %}",
    "{% include \"d\" with m.inn %}",
    "{% include \"nope\" %}",
    "{% include \"rec\" %}",
    "{% with 3 as m %}{% include \"a\" %}{% endwith %}",
    "{{ i }}{# c #}{%- if b -%} {{- s }} {%- endif %}  {{ f -}} ",
];

fn ctx() -> V {
    V::map([
        ("i", V::Int(7)),
        ("s", V::s("h<é")),
        ("f", V::Float(1.5)),
        ("b", V::Bool(true)),
        ("n", V::None),
        ("l", V::list([V::Int(1), V::s("two"), V::None])),
        ("e", V::list([])),
        ("m", V::map([("k", V::Int(2)), ("inn", V::map([("l", V::list([V::Int(4), V::Int(5)]))])), ("z", V::s(""))])),
    ])
}

fn base(src: &str) -> Case {
    Case::new(src, ctx())
        .temp("a", "A{{ i }}{{ m | show }}")
        .temp("b", "B{{ k | show }}{{ inn.l.0 }}")
        .temp("c", "C{{ x | show }}")
        .temp("d", "D{% for x in l %}{{ x }}{% endfor %}{{ l.2?.y }}")
        .temp("rec", "r{% include \"rec\" %}")
}

fn ways(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let t = TEMPLATES[ch.n(TEMPLATES.len())];
    let u = if rec.thorough() || ch.flag() { TEMPLATES[ch.n(TEMPLATES.len())] } else { "" };
    let mut c = base(&format!("{t}|{u}"));
    match ch.n(4) {
        0 => {}
        1 => c.deff = DefFmt::Show,
        2 => c.store = Some(std::mem::take(&mut c.temps)),
        _ => {
            c.rmax = Some(2);
            c.emax = Some(5);
        }
    }
    every_way(&c, rec)
}

fn skeletons(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const KINDS: &[K] = &[K::IfElse, K::For, K::ForMap, K::With, K::EmitX, K::Include, K::IncludeWith];
    let mut g = Skel::new(if rec.thorough() { 3 } else { 2 }, KINDS);
    let src = g.body(ch);
    let c = Case::new(src, Skel::ctx()).temp("inc", Skel::INC);
    every_way(&c, rec)
}

/// Paths of every shape reach the value function whole.
fn paths(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const KEYS: &[&str] = &["a", "b", "0", "1", "loop", "first"];
    let mut p = ["a", "b", "loop", "zz"][ch.n(4)].to_string();
    for _ in 0..ch.range(0, if rec.thorough() { 4 } else { 3 }) {
        p.push_str(["." , "?."][ch.n(2)]);
        p.push_str(KEYS[ch.n(KEYS.len())]);
    }
    let src = match ch.n(8) {
        0 => format!("{{{{ {p} | show }}}}"),
        1 => format!("{{% if {p} %}}t{{% else %}}f{{% endif %}}"),
        2 => format!("{{% for x in {p} %}}{{{{ x | show }}}}{{% endfor %}}"),
        3 => format!("{{% with {p} as x %}}{{{{ x | show }}}}{{{{ x.a | show }}}}{{% endwith %}}"),
        4 => format!("{{{{ 1 | pair: {p} | show }}}}"),
        5 => format!("{{% include \"i\" with {p} %}}"),
        6 => format!("{{{{ {p} }}}}"),
        _ => format!("{{% include \"j\" %}}{{{{ {p} | show }}}}"),
    };
    let ctx = V::map([
        ("a", V::map([("a", V::list([V::Int(1), V::map([("b", V::s("x")), ("loop", V::None)])])), ("first", V::Bool(true)), ("loop", V::Int(3))])),
        ("b", V::list([V::list([V::Int(0), V::Float(0.5)]), V::map([("a", V::map([("b", V::list([]))]))])])),
        ("loop", V::map([("first", V::s("mine")), ("a", V::list([V::Int(9)]))])),
    ]);
    let c = Case::new(src, ctx).temp("i", "{{ a | show }}{{ loop | show }}").temp("j", "{{ b.0.1 }}");
    every_way(&c, rec)
}

/// Paths of many members, there or not after some of them.
fn long_paths(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let hi = if rec.thorough() { 300 } else { 130 };
    let sizes: Vec<usize> = SIZES.iter().copied().filter(|n| (3..=hi).contains(n)).collect();
    let n = *ch.pick(&sizes);
    // Keys and indexes in turn, plain and optional.
    let step = ["k", "k0", "0", "kkk0"][ch.n(4)];
    let op = ch.n(4);
    // How much of it is there.
    let there = [n, n - 1, n / 2, 0][ch.n(4)];
    let at = |i: usize| step.as_bytes()[i % step.len()] as char;
    let mut p = String::from("a");
    for i in 0..n {
        p.push_str(match op {
            0 => ".",
            1 => "?.",
            2 if i + 1 == n => "?.",
            3 if i > n / 2 => "?.",
            _ => ".",
        });
        p.push(at(i));
    }
    let mut v = V::s("end");
    for i in (0..there).rev() {
        v = if at(i) == 'k' { V::map([("k", v)]) } else { V::list([v]) };
    }
    let src = match ch.n(4) {
        0 => format!("{{{{ {p} | show }}}}"),
        1 => format!("{{% for x in l %}}{{% if {p} %}}t{{% else %}}f{{% endif %}}{{% endfor %}}"),
        2 => format!("{{% with {p} as x %}}{{{{ x | show }}}}{{% endwith %}}"),
        _ => format!("{{{{ 1 | pair: {p} | show }}}}"),
    };
    let c = Case::new(src, V::map([("a", v), ("l", V::list([V::Int(1), V::Int(2)]))]));
    every_way(&c, rec)
}

/// A value function is not asked for what is bound.
fn bound(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const BIND: &[(&str, &str)] = &[
        ("", ""),
        ("{% with m as a %}", "{% endwith %}"),
        ("{% with a.k as b %}", "{% endwith %}"),
        ("{% with a as a %}", "{% endwith %}"),
        ("{% for a in l %}", "{% endfor %}"),
        ("{% for b, a in m %}", "{% endfor %}"),
        ("{% for b in a.l %}", "{% endfor %}"),
        ("{% for loop in l %}", "{% endfor %}"),
    ];
    const USE: &[&str] = &[
        "{{ a | show }}",
        "{{ b | show }}",
        "{{ a.k | show }}",
        "{{ a?.nope | show }}",
        "{{ b.k?.x | show }}",
        "{{ loop.index | show }}",
        "{{ loop | show }}",
        "{% include \"u\" %}",
        "{% include \"u\" with m %}",
        "{% include \"u\" with l %}",
        "{% for x in a %}{{ x | show }}{{ b | show }}{% endfor %}",
        "{{ 1 | pair: a | show }}",
        "{{ a | pair: b.k | show }}",
    ];
    let mut s = String::new();
    let u1 = USE[ch.n(USE.len())];
    let u2 = USE[ch.n(USE.len())];
    let mut end = String::new();
    for _ in 0..ch.range(1, if rec.thorough() { 3 } else { 2 }) {
        let (a, b) = BIND[ch.n(BIND.len())];
        s.push_str(a);
        end = format!("{b}{end}");
    }
    s = format!("{s}{u1};{u2}{end}{u1}");
    let inner = V::map([("k", V::Int(1)), ("l", V::list([V::Int(2)]))]);
    let ctx = V::map([
        ("a", inner.clone()),
        ("b", V::map([("k", V::map([("y", V::None)]))])),
        ("l", V::list([V::Int(5), inner.clone()])),
        ("m", V::map([("k", inner), ("b", V::s("mb"))])),
        ("loop", V::map([("index", V::s("mine"))])),
    ]);
    let mut c = Case::new(s, ctx).temp("u", "<{{ a | show }}{{ b | show }}>");
    if ch.flag() {
        c.store = Some(std::mem::take(&mut c.temps));
    }
    every_way(&c, rec)
}

/// Contexts that are not maps.
fn contexts(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let vs = [
        V::None,
        V::Bool(true),
        V::Int(1),
        V::Float(0.5),
        V::s("i"),
        V::s(""),
        V::list([]),
        V::list([V::Int(1), V::map([("i", V::Int(1))])]),
        V::map::<_, &str>([]),
        V::map([("", V::Int(1))]),
        V::map([("i", V::None)]),
        V::map([("l", V::list([V::Int(1)])), ("index", V::Int(2))]),
    ];
    let v = ch.pick(&vs).clone();
    const T: &[&str] = &[
        "",
        "text",
        "{{ 1 }}{{ \"s\" | up }}",
        "{{ i }}",
        "{{ i | show }}",
        "{{ i?.x | show }}",
        "{{ loop.index }}",
        "{% if true %}t{% endif %}",
        "{% if i %}t{% endif %}",
        "{% for x in l %}{{ x }}{% endfor %}",
        "{% for x in 2 | range %}{{ x }}{{ loop.index }}{% endfor %}",
        "{% for x in 2 | range %}{{ x }}{{ l | show }}{% endfor %}",
        "{% with 5 as i %}{{ i }}{% endwith %}",
        "{% with 5 as j %}{{ i }}{% endwith %}",
        "{% include \"a\" %}",
        "{% include \"a\" with 3 %}",
        "{% include \"a\" with \"x\" | mk %}",
        "{% include \"b\" with 3 %}",
        "{% include \"b\" with i %}",
        "{% with 5 as i %}{% include \"b\" %}{% include \"b\" with \"\" %}{% endwith %}",
    ];
    let t = T[ch.n(T.len())];
    let u = T[ch.n(T.len())];
    let c = Case::new(format!("{t}|{u}"), v).temp("a", "A{% with 1 as q %}{{ q }}{% endwith %}").temp("b", "B{{ i }}");
    every_way(&c, rec)
}

/// Whatever the function answers is used, as often as it is asked.
fn answers(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let domain = [
        Ok(V::None),
        Ok(V::Int(5)),
        Ok(V::s("s")),
        Ok(V::list([V::Int(1), V::Int(2)])),
        Ok(V::map([("k", V::Int(3))])),
        Err("no such thing"),
    ];
    let n = if rec.thorough() { 4 } else { 3 };
    let script: Vec<&Result<V, &str>> = (0..n).map(|_| &domain[ch.n(domain.len())]).collect();
    let which = ch.n(6);
    let named = ch.flag();
    let writer = ch.flag();
    rec.traces += 1;
    rec.transitions += n as u64;
    rec.state(fnv(FNV0, format!("{script:?}{which}").as_bytes()));
    let src = [
        "{{ a | show }}{{ a | show }}{{ b.c | show }}",
        "{% for x in a %}[{{ b | show }}]{% endfor %}{{ c | show }}",
        "{% if a %}{{ b | show }}{% else %}{{ c | show }}{% endif %}",
        "{% with a as x %}{{ x | show }}{{ x | show }}{% endwith %}{{ x | show }}",
        "{% include \"i\" with a %}{{ k | show }}",
        "{% include \"i\" %}{{ k | show }}",
    ][which];
    // What has to happen, by hand.
    let mut asked: Vec<&str> = vec![];
    let mut out = String::new();
    let mut ended: Result<(), (&str, &str)> = Ok(());
    {
        let mut i = 0;
        let mut ask = |p: &'static str| {
            asked.push(p);
            i += 1;
            match script.get(i - 1) {
                Some(Ok(v)) => Ok(v.clone()),
                Some(Err(m)) => Err(("render error", *m)),
                None => Err(("render error", "no more answers")),
            }
        };
        let mut go = || -> Result<(), (&'static str, &str)> {
            match which {
                0 => {
                    for p in ["a", "a", "b.c"] {
                        let v = ask(p)?;
                        out.push_str(&show(&v));
                    }
                }
                1 => {
                    match ask("a")? {
                        V::List(l) => {
                            for _ in l {
                                let v = ask("b")?;
                                out.push_str(&format!("[{}]", show(&v)));
                            }
                        }
                        _ => return Err(("render error", "*")),
                    }
                    let v = ask("c")?;
                    out.push_str(&show(&v));
                }
                2 => {
                    let v = if ask("a")?.truthy() { ask("b")? } else { ask("c")? };
                    out.push_str(&show(&v));
                }
                3 => {
                    let v = ask("a")?;
                    out.push_str(&show(&v));
                    out.push_str(&show(&v));
                    let v = ask("x")?;
                    out.push_str(&show(&v));
                }
                4 => {
                    // The function is out of sight inside.
                    match ask("a")? {
                        V::Map(m) if m.contains_key("k") => out.push_str(&show(&m["k"])),
                        _ => return Err(("render error", "*")),
                    }
                    let v = ask("k")?;
                    out.push_str(&show(&v));
                }
                _ => {
                    for _ in 0..2 {
                        let v = ask("k")?;
                        out.push_str(&show(&v));
                    }
                }
            }
            Ok(())
        };
        ended = go().map_err(|e| e).and(ended);
    }
    rec.nontrivial += u64::from(ended.is_ok());
    rec.outcome(fnv(FNV0, format!("{ended:?}{out}").as_bytes()));
    let got: RefCell<Vec<String>> = RefCell::new(vec![]);
    let get = |p: &[upon::ValueMember<'_>]| {
        let i = got.borrow().len();
        got.borrow_mut().push(crate::model::interp::path_text(&path_of(p)));
        match script.get(i) {
            Some(Ok(v)) => Ok(v.to_upon()),
            Some(Err(m)) => Err(m.to_string()),
            None => Err("no more answers".to_string()),
        }
    };
    let mut e = upon::Engine::new();
    install(&mut e, "show", Fun::P(Fmt::Show));
    e.add_template("i", "{{ k | show }}").unwrap();
    e.add_template("root", src).unwrap();
    let t = e.compile(src).unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let r = if named { e.template("root").render_from_fn(get) } else { t.render_from_fn(&e, get) };
        if writer {
            let mut w = vec![];
            r.to_writer(&mut w).map(|()| String::from_utf8(w).unwrap())
        } else {
            r.to_string()
        }
    }))
    .map_err(|e| format!("panicked: {}", panic_text(e)));
    let fail = |why: &str, r: &dyn std::fmt::Debug| {
        Err(format!(
            "{why}\n  template {src:?}, answers {script:?}\n  specified {ended:?} {out:?} asking {asked:?}\n  got {r:?} asking {:?}",
            got.borrow()
        ))
    };
    let r = match r {
        Ok(r) => r,
        Err(p) => return fail("rendering panicked", &p),
    };
    match (&ended, &r) {
        (Ok(()), Ok(s)) if *s == out => {}
        (Err((head, m)), Err(e)) if *m == "*" && e.to_string().starts_with(head) => {}
        (Err((head, m)), Err(e)) if e.to_string() == format!("{head}: {m}") => {}
        _ => return fail("the result differs", &r),
    }
    if *got.borrow() != asked {
        return fail("the questions differ", &r);
    }
    Ok(())
}

fn sizes(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = *ch.pick(SIZES);
    let l = V::List((0..n).map(|i| V::Int(i as i64)).collect());
    let m = V::map((0..n).map(|i| (format!("k{i}"), V::s("é"))));
    let src = match ch.n(4) {
        0 => "{% for x in l %}{{ x }},{% endfor %}".to_string(),
        1 => "{% for k, v in m %}{{ k }}{{ v }},{% endfor %}".to_string(),
        2 => format!("{{{{ l.{} | show }}}}{{{{ m?.k{} | show }}}}", n / 2, n),
        _ => "é".repeat(n) + "{{ l | show }}",
    };
    let c = Case::new(src, V::map([("l", l), ("m", m)]));
    let mut c = c;
    if let Root::Anon(_) = c.root {
        c.deff = DefFmt::Builtin;
    }
    every_way(&c, rec)
}
