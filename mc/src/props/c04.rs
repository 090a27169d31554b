//! C04: includes.

use super::gen::{truth_domain, Kind, Skel, SIZES};
use crate::explore::{Ch, Rec};
use crate::run::{check, Case, Mask, Mode, PLAIN};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        level: "model_checking",
        rule: "every graph of templates of the scenario's grammar within the bounds is rendered by the implementation and by the reference machine, comparing also what was written before an error and the calls of the template function; a trace counts when all templates compile",
        scenarios: vec![
            Scenario { name: "graphs", body: graphs },
            Scenario { name: "skeletons", body: skeletons },
            Scenario { name: "names", body: names },
            Scenario { name: "similar", body: similar },
            Scenario { name: "with-values", body: with_values },
            Scenario { name: "template-fn", body: template_fn },
            Scenario { name: "answers", body: answers },
            Scenario { name: "unreached", body: unreached },
            Scenario { name: "many", body: many },
            Scenario { name: "isolation", body: isolation },
        ],
        apart: &[],
    }
}

const ALL: Mask = Mask {
    partial: true,
    trace: true,
    reason: true,
    ..PLAIN
};

struct G {
    budget: usize,
    loops: usize,
    mark: char,
}
impl G {
    fn body(&mut self, ch: &mut Ch, targets: &[&str]) -> String {
        let mut s = String::new();
        s.push(self.mark);
        while self.budget > 0 && ch.flag() {
            self.budget -= 1;
            let k = ch.n(7);
            let t = match k {
                0 => format!("{{% include \"{}\" %}}", ch.pick(targets)),
                1 => format!("{{% include \"{}\" with m %}}", ch.pick(targets)),
                2 => format!("{{% include \"{}\" with x | mk %}}", ch.pick(targets)),
                3 => "{{ x }}".into(),
                4 => {
                    let b = self.body(ch, targets);
                    format!("{{% with 1 as x %}}{b}{{% endwith %}}")
                }
                5 => {
                    self.loops += 1;
                    let b = self.body(ch, targets);
                    self.loops -= 1;
                    format!("{{% for x in l %}}{b}{{% endfor %}}")
                }
                _ => "{{ loop.index }}".into(),
            };
            s.push_str(&t);
            s.push(self.mark);
        }
        s
    }
}

/// Three templates including one another (the limit keeps cycles short).
fn graphs(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let (r, a, b) = if rec.thorough() { (3, 2, 2) } else { (2, 2, 1) };
    let mut body = |budget, mark, targets: &[&str]| {
        let mut g = G {
            budget,
            loops: 0,
            mark,
        };
        g.body(ch, targets)
    };
    let root = body(r, 'r', &["a", "b"]);
    if !root.contains("include") {
        return Ok(());
    }
    let ta = body(a, 'a', &["b"]);
    let tb = body(b, 'b', &["a"]);
    let ctx = V::map([
        ("x", V::s("X")),
        ("l", V::list([V::Int(5), V::Int(6)])),
        (
            "m",
            V::map([("x", V::s("mx")), ("l", V::list([])), ("m", V::map([("x", V::s("mmx"))]))]),
        ),
    ]);
    let mut c = Case::new(root, ctx).writer(true);
    c.rmax = Some(4);
    check(&c.temp("a", ta).temp("b", tb), ALL, rec)
}

fn skeletons(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const KINDS: &[Kind] = &[
        Kind::Include,
        Kind::IncludeWith,
        Kind::For,
        Kind::If,
        Kind::IfElse,
        Kind::With,
        Kind::EmitX,
        Kind::EmitLoop,
    ];
    let mut g = Skel::new(if rec.thorough() { 5 } else { 4 }, KINDS);
    let src = g.body(ch);
    check(&Case::new(src, Skel::ctx()).temp("inc", Skel::INC), PLAIN, rec)
}

/// Names are matched exactly.
fn names(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const NAMES: &[(&str, &str)] = &[
        ("", ""),
        ("a", "a"),
        ("A", "A"),
        ("a ", "a "),
        (" a", " a"),
        ("ab", "ab"),
        ("a/b.html", "a/b.html"),
        ("../a", "../a"),
        ("é", "é"),
        ("e\u{301}", "e\u{301}"),
        ("a\\b", "a\\\\b"),
        ("a\"b", "a\\\"b"),
        ("a\nb", "a\\nb"),
        ("a.html", "a.html"),
        ("a-very-long-template-name-that-goes-on-and-on-and-on/and/on/and/on/and/on.html.jinja", "a-very-long-template-name-that-goes-on-and-on-and-on/and/on/and/on/and/on.html.jinja"),
    ];
    let want = ch.n(NAMES.len());
    let drop_it = ch.flag();
    let by_fn = ch.flag();
    let nested = ch.flag();
    let temps: Vec<(String, String)> = NAMES
        .iter()
        .enumerate()
        .filter(|(i, _)| !(drop_it && *i == want))
        .map(|(i, n)| (n.0.to_string(), format!("[{i}]")))
        .collect();
    let w = *ch.pick(&["", " with m", " with 5"]);
    let inc = format!("{{% include \"{}\"{w} %}}", NAMES[want].1);
    let mut c = Case::new(if nested { "<{% include \"outer\" %}>".to_string() } else { format!("<{inc}>") }, V::map([("m", V::map([("q", V::Int(1))]))]))
        .writer(true);
    let mut temps = temps;
    if nested {
        temps.push(("outer".into(), format!("({inc})")));
    }
    if by_fn {
        c.store = Some(temps);
    } else {
        c.temps = temps;
    }
    check(&c, ALL, rec)
}

/// Two names of which only one exists.
fn similar(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    // Every way to write a name a little differently.
    let base = *ch.pick(&["a", "ab", "a/b", "a.b", "A", "\u{e9}", "1"]);
    let affix = |ch: &mut Ch| *ch.pick(&["", " ", "./", "/", "../", ".", "a", "-", "_", "0", ".html", ".txt", ".upon", "\u{0}", "\u{a0}", "\u{feff}", "\u{301}", "%20", "*", "?", "#", ":", "|", ",", "'", "$", "~", "{", "}", "\t"]);
    let (pre, post) = (affix(ch), affix(ch));
    let other = match ch.n(8) {
        0 => format!("{pre}{base}{post}"),
        1 => base.to_uppercase() + pre + post,
        2 => base.to_lowercase() + pre + post,
        3 => format!("{base}/{pre}/{post}"),
        4 => format!("{pre}{base}{post}/../{base}"),
        5 => base.repeat(2) + pre + post,
        6 => format!("{pre}\\{base}{post}"),
        _ => format!("{pre}\"{base}\"{post}"),
    };
    if other == base {
        return Ok(());
    }
    let (have, want) = if ch.flag() { (base.to_string(), other) } else { (other, base.to_string()) };
    let spelled = want.replace('\\', "\\\\").replace('"', "\\\"");
    let mut c = Case::new(format!("<{{% include \"{spelled}\" %}}>"), V::None).writer(true);
    let temps = vec![(have, "have".to_string())];
    if ch.flag() {
        c.store = Some(temps);
    } else {
        c.temps = temps;
    }
    check(&c, ALL, rec)
}

/// What an included template sees of the value it is included with.
fn with_values(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut dom = truth_domain();
    dom.push(V::map([("x", V::s("in")), ("loop", V::map([("index", V::s("L"))]))]));
    dom.push(V::map([("x", V::None), ("w", V::s("ww"))]));
    dom.push(V::map([("y", V::s("in"))]));
    let v = ch.pick(&dom).clone();
    let e = *ch.pick(&["v", "v | id", "m.v", "l.0", "w", "y"]);
    let probe = *ch.pick(&["nothing", "{{ x | show }}", "{{ w | show }}", "{{ y | show }}", "{{ loop.index | show }}", "{{ v | show }}", "{{ k | show }}", "{% for q in x %}{% endfor %}", "{% include \"u\" %}", "{% include \"u\" with x %}"]);
    let pre = *ch.pick(&[
        ("", ""),
        ("{% for x in l %}", "{{ loop.index }}{{ x | show }}{% endfor %}"),
        ("{% with v as w %}", "{{ w | show }}{% endwith %}"),
        ("{% for k, y in m %}", "{{ k | show }}{{ loop.last }}{% endfor %}"),
    ]);
    let src = format!("<{}{{% include \"t\" with {e} %}}|{}{{{{ v | show }}}}>", pre.0, pre.1);
    let ctx = V::map([
        ("v", v.clone()),
        ("m", V::map([("v", v.clone())])),
        ("l", V::list([v])),
        ("x", V::s("outer")),
        ("w", V::map([("x", V::s("deep"))])),
        ("y", V::Int(1)),
    ]);
    let mode = *ch.pick(&[Mode::From, Mode::Serde, Mode::Fn]);
    let c = Case::new(src, ctx)
        .mode(mode)
        .temp("t", format!("[{probe}]"))
        .temp("u", "({{ x | show }})")
        .writer(true);
    check(&c, ALL, rec)
}

/// A template function replaces the lookup in the engine.
fn template_fn(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let bodies = ["A", "{% include \"b\" %}", "{% include \"b\" with m %}{% include \"b\" %}", "{{ x }}", "{% include \"c\" %}"];
    let in_engine = ch.n(3);
    let a = *ch.pick(&bodies);
    let has_b = ch.flag();
    let root = *ch.pick(&[
        "<{% include \"a\" %}>",
        "<{% include \"a\" with m %}{% include \"a\" %}>",
        "<{% for i in l %}{% include \"a\" %}{% endfor %}>",
        "<{% if f %}{% include \"zz\" %}{% else %}{% include \"a\" %}{% endif %}>",
        "<{% include \"b\" %}{% include \"a\" %}{% include \"zz\" %}>",
        "<{% with 4 as x %}{% include \"a\" %}{% endwith %}{% include \"a\" %}>",
    ]);
    let use_fn = ch.flag();
    let mut store = vec![("a".to_string(), format!("a({a})"))];
    if has_b {
        store.push(("b".into(), "b{{ x }}".into()));
    }
    let mut c = Case::new(
        root,
        V::map([
            ("x", V::s("X")),
            ("m", V::map([("x", V::s("mx")), ("m", V::map([("x", V::s("mmx"))]))])),
            ("l", V::list([V::Int(0), V::Int(1), V::Int(2)])),
            ("f", V::Bool(false)),
        ]),
    )
    .writer(ch.flag());
    c.temps = match in_engine {
        0 => vec![],
        1 => vec![("a".into(), "engine a".into()), ("b".into(), "engine b".into())],
        _ => vec![("zz".into(), "engine zz".into()), ("b".into(), "engine b{{ x }}".into()), ("c".into(), "engine c".into())],
    };
    if use_fn {
        c.store = Some(store);
    }
    if ch.flag() {
        c = c.named("root");
    }
    check(&c, ALL, rec)
}

/// A template function that answers with another template every time.
fn answers(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const BODIES: &[&str] = &[
        "t",
        "{% include \"a\" %}",
        "{% include \"a\" with m %}{{ x }}",
        "{% include \"root\" %}{{ x }}",
        "{% include \"b\" %}{% include \"a\" %}",
        "{% for x in 2 | range %}{% include \"a\" %}{% endfor %}",
        "{% with 4 as x %}{% include \"a\" %}{% endwith %}{{ x }}",
    ];
    let root = *ch.pick(&BODIES[1..]);
    let n = ch.range(1, if rec.thorough() { 4 } else { 3 });
    let store = (0..n).map(|i| (format!("n{i}"), format!("{i}({})", ch.pick(BODIES)))).collect();
    let m = V::map([("x", V::s("mmx")), ("m", V::None)]);
    let ctx = V::map([("x", V::s("X")), ("m", V::map([("x", V::s("mx")), ("m", m)]))]);
    let mut c = Case::new(format!("<{root}>"), ctx).writer(true);
    c.store = Some(store);
    c.turns = true;
    c.rmax = Some(5);
    match ch.n(3) {
        0 => {}
        1 => c = c.named("root"),
        // What the engine has under these names does not matter.
        _ => c = c.named("a").temp("b", "engine b").temp("root", "engine root"),
    }
    check(&c, ALL, rec)
}

/// Unknown names only matter when reached.
fn unreached(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let inc = *ch.pick(&["{% include \"no\" %}", "{% include \"no\" with m %}", "{% include \"no\" with u %}", "{% include \"yes\" %}", "{% include \"yes\" with u %}"]);
    let w = *ch.pick(&[
        ("{% if t %}", "{% endif %}"),
        ("{% if f %}", "{% endif %}"),
        ("{% if not t %}", "{% else %}e{% endif %}"),
        ("{% if t %}e{% else %}", "{% endif %}"),
        ("{% if t %}e{% else if t %}", "{% endif %}"),
        ("{% for x in e %}", "{% endfor %}"),
        ("{% for x in l %}{% if loop.last %}", "{% endif %}{% endfor %}"),
        ("{% with 1 as u %}", "{% endwith %}"),
        ("", ""),
        ("{{ u }}", ""),
        ("{# ", " #}"),
    ]);
    let src = format!("<{}{inc}{}>", w.0, w.1);
    let mut c = Case::new(
        src,
        V::map([
            ("t", V::Bool(true)),
            ("f", V::Bool(false)),
            ("l", V::list([V::Int(0), V::Int(1)])),
            ("e", V::list([])),
            ("m", V::map([("p", V::Int(1))])),
        ]),
    )
    .writer(true)
    .temp("yes", "yes");
    if ch.flag() {
        c.store = Some(vec![("yes".into(), "fn yes".into())]);
    }
    check(&c, ALL, rec)
}

/// Many includes one after another.
fn many(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut sizes = SIZES.to_vec();
    if rec.thorough() {
        sizes.extend([2048, 4097, 65537]);
    }
    let n = *ch.pick(&sizes);
    let looped = ch.flag();
    let with = *ch.pick(&["", " with m", " with m | id"]);
    let inc = format!("{{% include \"t\"{with} %}}");
    let src = if looped {
        format!("<{{% for i in n | range %}}{inc}{{{{ i }}}}{{{{ loop.index }}}}{{% endfor %}}{{{{ x }}}}>")
    } else {
        format!("<{}{{{{ x }}}}>", inc.repeat(n))
    };
    let mut c = Case::new(
        src,
        V::map([
            ("n", V::Int(n as i64)),
            ("x", V::s("X")),
            ("m", V::map([("x", V::s("mx"))])),
        ]),
    )
    .temp("t", "({{ x }}{% include \"u\" %})")
    .temp("u", "{% with 3 as x %}{{ x }}{% endwith %}");
    if ch.flag() {
        c.rmax = Some(3);
    }
    check(&c, PLAIN, rec)
}

/// Chains of includes, with and without a value, probing every name ever
/// bound on the way.
fn isolation(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = if rec.thorough() { 5 } else { 4 };
    let mut c = Case::new("", V::None).writer(true);
    let probe = *ch.pick(&["x", "v", "y", "loop.index", "q"]);
    let mut root = String::new();
    for i in 0..n {
        let (pre, post) = *ch.pick(&[
            ("", ""),
            ("{% with 10 as x %}", "{% endwith %}"),
            ("{% for y in 1 | range %}", "{% endfor %}"),
            ("{% with 20 as q %}", "{% endwith %}"),
        ]);
        let with = *ch.pick(&["", " with x | mk", " with m"]);
        let last = i + 1 == n;
        let inner = if last {
            format!("{pre}{{{{ {probe} | show }}}}{post}")
        } else {
            format!("{pre}{{% include \"t{}\"{with} %}}{post}", i + 1)
        };
        if i == 0 {
            root = inner;
        } else {
            c = c.temp(format!("t{i}"), inner);
        }
    }
    let m = V::map([("x", V::s("mx")), ("m", V::map([("q", V::s("mmq")), ("x", V::s("mmx")), ("m", V::map([("x", V::s("mmmx"))]))]))]);
    c.root = crate::run::Root::Anon(root);
    c.ctx = V::map([("x", V::s("X")), ("m", m), ("q", V::s("Q")), ("v", V::s("V"))]);
    c.mode = *ch.pick(&[Mode::From, Mode::Fn]);
    check(&c, ALL, rec)
}
