//! C22: what is evaluated, when, and how often.

use crate::explore::{fnv, Ch, Rec, FNV0};
use crate::funcs::{trace_start, trace_take, DefFmt};
use crate::props::gen::SIZES;
use crate::run::{check, with_renderer, Case, Mask, Mode, PLAIN};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        level: "model_checking",
        rule: "every template within the bounds is rendered with recording user functions by the implementation and by the reference machine; the sequences of calls with their arguments are compared, and the output; a trace counts when the template compiles",
        scenarios: vec![
            Scenario { name: "pipelines", body: pipelines },
            Scenario { name: "arguments", body: arguments },
            Scenario { name: "many arguments", body: many_arguments },
            Scenario { name: "skeletons", body: skeletons },
            Scenario { name: "conditions", body: conditions },
            Scenario { name: "failures", body: failures },
            Scenario { name: "includes", body: includes },
            Scenario { name: "creation", body: creation },
            Scenario { name: "again", body: again },
            Scenario { name: "sizes", body: sizes },
        ],
        apart: &[],
    }
}

const M: Mask = Mask {
    trace: true,
    partial: true,
    ..PLAIN
};

fn ctx() -> V {
    V::map([
        ("t", V::Bool(true)),
        ("f", V::Bool(false)),
        ("n", V::None),
        ("l", V::list([V::Int(10), V::Int(20)])),
        ("e", V::list([])),
        ("m", V::map([("p", V::Int(1)), ("q", V::Int(0))])),
        ("i", V::Int(3)),
        ("s", V::s("s")),
    ])
}

fn run(src: String, ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut c = Case::new(src, ctx()).temp("inc", "<{{ 900 | sel: 1 }}{{ x | sel: 2 }}>").temp("two", "({{ 901 }}{% include \"inc\" %})");
    c.deff = DefFmt::Show;
    c.emax = Some(4);
    c = c.writer(true);
    if ch.flag() {
        c = c.mode(Mode::Fn);
        c.store = Some(std::mem::take(&mut c.temps));
    }
    check(&c, M, rec)
}

/// Wherever an expression can stand.
fn place(ch: &mut Ch, e: &str) -> String {
    match ch.n(7) {
        0 => format!("{{{{ {e} }}}}"),
        1 => format!("{{% if {e} %}}y{{% else %}}n{{% endif %}}"),
        2 => format!("{{% if not {e} %}}y{{% endif %}}"),
        3 => format!("{{% for x in {e} %}}{{{{ x }}}}{{% endfor %}}"),
        4 => format!("{{% with {e} as x %}}{{{{ x }}}}{{{{ x }}}}{{% endwith %}}"),
        5 => format!("{{% include \"inc\" with {e} %}}"),
        _ => format!("{{% for k, x in {e} %}}{{{{ k }}}}{{{{ x }}}}{{% endfor %}}"),
    }
}

fn pipelines(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const BASE: &[&str] = &["1", "i", "l", "m", "\"s\"", "nope", "n"];
    const STEP: &[&str] = &["id", "rid", "sel: 5", "sel: i", "fail", "mk", "pair: s", "pair: nope", "show", "twice", "ferr", "sel: \"x\"", "nope"];
    let mut e = BASE[ch.n(BASE.len())].to_string();
    for _ in 0..ch.range(0, 3) {
        e.push_str(" | ");
        e.push_str(STEP[ch.n(STEP.len())]);
    }
    let s = place(ch, &e);
    run(format!("{{{{ 0 }}}}{s}{{{{ 2 }}}}"), ch, rec)
}

/// Arguments are looked up from left to right, after the piped value.
fn arguments(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const A: &[&str] = &["i", "m.p", "l.1", "7", "\"z\"", "nope", "m?.nope"];
    const F: &[(&str, usize)] = &[("pair", 1), ("trip", 2), ("id", 0), ("add", 1), ("sel", 1), ("trip", 1), ("pair", 2), ("fail", 1), ("nope", 2)];
    let mut e = A[ch.n(A.len())].to_string();
    for i in 0..ch.range(1, 2) {
        let (f, n) = F[ch.n(F.len())];
        e.push_str(" | ");
        e.push_str(f);
        for j in 0..n {
            e.push_str(if j == 0 { ": " } else { ", " });
            // All of them once, fewer the second time.
            e.push_str(if i == 0 { A[ch.n(A.len())] } else { ["i", "nope"][ch.n(2)] });
        }
    }
    let s = if rec.thorough() { place(ch, &e) } else { format!("{{{{ {e} | show }}}}") };
    run(s, ch, rec)
}

/// As many arguments as there can be, of several types, any of which can fail.
fn many_arguments(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const A: &[&str] = &["i", "s", "nope", "7", "\"z\"", "l.9"];
    let f = ch.n(2);
    let n = [3, 4][f] + ch.n(3) - 1;
    let mut e = format!("{} | {}", ["l.0", "m?.z"][ch.n(2)], ["quad", "quint"][f]);
    for j in 0..n {
        e.push_str(if j == 0 { ": " } else { ", " });
        e.push_str(A[ch.n(A.len())]);
    }
    let s = if rec.thorough() { place(ch, &e) } else { format!("{{{{ {e} }}}}{{{{ 1 }}}}") };
    run(s, ch, rec)
}

struct G {
    conds: &'static [&'static str],
    budget: usize,
    mark: usize,
}
impl G {
    fn next(&mut self) -> usize {
        self.mark += 1;
        self.mark
    }
    fn cond(&mut self, ch: &mut Ch) -> String {
        let m = self.next();
        let c = self.conds[ch.n(self.conds.len())];
        format!("{c} | sel: {m}")
    }
    fn body(&mut self, ch: &mut Ch) -> String {
        let m = self.next();
        let mut s = format!("{{{{ {m} }}}}");
        while self.budget > 0 && ch.flag() {
            self.budget -= 1;
            let t = self.stmt(ch);
            s.push_str(&t);
            let m = self.next();
            s.push_str(&format!("{{{{ {m} }}}}"));
        }
        s
    }
    fn stmt(&mut self, ch: &mut Ch) -> String {
        match ch.n(11) {
            k @ 0..=3 => {
                let c = self.cond(ch);
                let mut s = format!("{{% if {c} %}}{}", self.body(ch));
                if k & 1 == 1 {
                    let c = self.cond(ch);
                    s.push_str(&format!("{{% else if {c} %}}{}", self.body(ch)));
                }
                if k & 2 == 2 {
                    s.push_str(&format!("{{% else %}}{}", self.body(ch)));
                }
                s + "{% endif %}"
            }
            k @ 4..=6 => {
                let m = self.next();
                let v = [("x", "l"), ("x", "e"), ("k, x", "m")][k - 4];
                let b = self.body(ch);
                format!("{{% for {} in {} | sel: {m} %}}{b}{{% endfor %}}", v.0, v.1)
            }
            7 => {
                let m = self.next();
                let b = self.body(ch);
                format!("{{% with t | sel: {m} as x %}}{b}{{{{ x | sel: {m} }}}}{{% endwith %}}")
            }
            8 => {
                let m = self.next();
                format!("{{% include \"inc\" with m | sel: {m} %}}")
            }
            9 => "{% include \"two\" %}".into(),
            _ => {
                let m = self.next();
                format!("{{{{ n | sel: {m} | show }}}}")
            }
        }
    }
}

fn skeletons(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut g = G {
        conds: if rec.thorough() { &["t", "f", "not t", "not f"] } else { &["t", "not t"] },
        budget: 3,
        mark: 0,
    };
    let s = g.body(ch);
    run(s, ch, rec)
}

/// Chains of conditions.
fn conditions(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = ch.range(1, if rec.thorough() { 8 } else { 6 });
    let mut s = String::new();
    for i in 0..n {
        let c = ["t", "f", "not f", "not n", "nope"][ch.n(5)];
        s.push_str(&format!("{{% {}if {c} | sel: {i} %}}{{{{ {} }}}}", if i == 0 { "" } else { "else " }, 100 + i));
    }
    if ch.flag() {
        s.push_str("{% else %}{{ 200 }}");
    }
    s.push_str("{% endif %}{{ 201 }}");
    run(s, ch, rec)
}

/// Everything stops at the first error.
fn failures(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const S: &[&str] = &[
        "{{ 1 | sel: 2 }}",
        "{{ 3 | fail }}",
        "{{ nope | sel: 4 }}",
        "{{ 5 | ferr }}",
        "{{ 6 | show }}",
        "{% if t | sel: 7 %}{{ 8 | fail }}{{ 9 }}{% else %}{{ 10 }}{% endif %}",
        "{% if 11 | fail %}{{ 12 }}{% else %}{{ 13 }}{% endif %}",
        "{% for x in l | sel: 14 %}{{ x | sel: 15 }}{% if loop.last %}{{ x | fail }}{% endif %}{% endfor %}",
        "{% for x in 16 | sel: 17 %}{{ 18 }}{% endfor %}",
        "{% for x in e | sel: 19 %}{{ 20 | fail }}{% endfor %}",
        "{% with 21 | fail as x %}{{ 22 }}{% endwith %}",
        "{% with 23 | sel: 24 as x %}{{ x | fail }}{% endwith %}{{ 25 }}",
        "{% include \"inc\" %}",
        "{% include \"inc\" with m | sel: 26 %}",
        "{% include \"nope\" with m | sel: 27 %}",
        "{% include \"two\" with 28 | fail %}",
        "{# {{ 29 | fail }} #}",
        "{% if f %}{{ 30 | nope }}{{ nope }}{% include \"nope\" %}{% endif %}",
        "{% with 31 as x %}{% include \"inc\" %}{% endwith %}",
        "{{ 32 | sel: 33 | fail | sel: 34 }}",
        "{{ 35 | sel: nope }}",
        "{{ 36 | sel: \"x\" }}",
    ];
    let mut s = String::new();
    for _ in 0..ch.range(1, if rec.thorough() { 4 } else { 3 }) {
        s.push_str(S[ch.n(S.len())]);
    }
    run(s, ch, rec)
}

/// Values for includes and template functions are asked for once each time.
fn includes(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const T: &[&str] = &[
        "{{ 1 }}",
        "{% include \"b\" %}",
        "{% include \"b\" with m | sel: 2 %}",
        "{% for x in l | sel: 3 %}{% include \"b\" %}{% endfor %}",
        "{% for x in l %}{% include \"b\" with x | mk | sel: 4 %}{% endfor %}",
        "{% if t | sel: 5 %}{% include \"b\" %}{% else %}{% include \"c\" %}{% endif %}",
        "{% with i | sel: 6 as x %}{% include \"b\" %}{{ x | sel: 7 }}{% endwith %}",
        "{% include \"c\" %}{% include \"c\" with x | sel: 8 %}",
        "{% include \"nope\" %}",
    ];
    let pick = |ch: &mut Ch, deeper: &str| {
        let n = if rec.thorough() { 2 } else { 1 };
        (0..ch.range(1, n)).map(|_| T[ch.n(T.len())].replace("\"b\"", deeper)).collect::<String>()
    };
    let root = pick(ch, "\"b\"");
    let b = pick(ch, "\"c\"");
    let c = pick(ch, "\"d\"");
    let mut k = Case::new(format!("{root}{{{{ 99 }}}}"), ctx()).temp("b", format!("[{b}]")).temp("c", format!("({c})")).temp("d", "{{ x | sel: 9 }}");
    k.deff = DefFmt::Show;
    k.emax = Some(*ch.pick(&[2, 3, 9]));
    k = k.writer(true);
    if ch.flag() {
        k = k.mode(Mode::Fn);
    }
    if ch.flag() {
        k.store = Some(std::mem::take(&mut k.temps));
    }
    check(&k, M, rec)
}

/// Nothing is called before something is rendered.
fn creation(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const T: &[&str] = &[
        "{{ 1 }}",
        "{{ 1 | sel: 2 }}",
        "{{ \"s\" | show }}",
        "{{ i | sel: m.p | fail }}",
        "{% if t | sel: 1 %}{% endif %}",
        "{% for x in l | sel: 1 %}{{ x }}{% endfor %}",
        "{% with 1 | sel: 1 as x %}{% endwith %}",
        "{% include \"inc\" %}",
        "{% include \"inc\" with m | sel: 1 %}",
    ];
    let t = T[ch.n(T.len())];
    let mode = *ch.pick(&[Mode::From, Mode::Serde, Mode::Fn]);
    let mut c = Case::new(t, ctx()).temp("inc", "{{ 1 | sel: 2 }}").mode(mode);
    c.deff = DefFmt::Show;
    if ch.flag() {
        c = c.named("root");
    }
    if ch.flag() {
        c.store = Some(c.temps.clone());
        c.rmax = Some(3);
    }
    rec.traces += 1;
    rec.transitions += 1;
    rec.state(fnv(FNV0, format!("{t}{mode:?}{:?}{:?}", c.root, c.rmax).as_bytes()));
    trace_start(true);
    let r = with_renderer(&c, |r| drop(r));
    let calls = trace_take();
    if let Err(e) = r {
        return Err(format!("{}\n{e:#}", c.describe()));
    }
    if !calls.is_empty() {
        return Err(format!("{}\ncompiling and creating a renderer called {calls:?}", c.describe()));
    }
    Ok(())
}

/// What is reached again is evaluated again, whatever it is made of.
fn again(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const E: &[&str] = &[
        "1 | id", "\"s\" | up", "true | id | rid", "0 | mk", "-1.5 | id", "2 | add: 1", "1 | sel: 2", "i | id", "i | add: 1", "m.p | id", "m?.z | id", "l | id", "l | count", "x | id", "x | add: 1", "n | id", "3 | range", "m | id", "\"\" | sel: \"x\"",
        "loop.index | id", "loop | id", "7", "nope?.z | id",
    ];
    const W: &[(&str, &str)] = &[
        ("{% for x in l %}", "{% endfor %}"),
        ("{% for k, x in m %}", "{% endfor %}"),
        ("{% for x in 2 | range %}", "{% endfor %}"),
        ("{% for x in l %}{% if loop.first %}", "{% endif %}{% endfor %}"),
        ("{% for x in l %}{% with x as i %}", "{% endwith %}{% endfor %}"),
        ("{% for x in l %}{% if not loop.first %}", "{% endif %}{% endfor %}"),
        ("{% include \"t\" %}{% with 5 as x %}", "{% endwith %}{% include \"t\" %}"),
        ("{% include \"t\" with m %}{% include \"t\" %}{% if t %}", "{% endif %}"),
        ("{% with 0 as x %}", "{% endwith %}"),
    ];
    let e = E[ch.n(E.len())];
    let inner = place(ch, e);
    let mut s = inner.clone();
    for _ in 0..ch.range(1, if rec.thorough() { 3 } else { 2 }) {
        let (a, b) = W[ch.n(W.len())];
        s = format!("{a}{s}{b}");
    }
    // A second place with the same text.
    if ch.flag() {
        s.push_str(&inner);
    }
    let mut c = Case::new(s, ctx()).temp("inc", "<{{ 900 | sel: 1 }}{{ p | sel: 2 }}>").temp("t", format!("({inner})"));
    c.deff = DefFmt::Show;
    c = c.writer(true);
    if ch.flag() {
        c = c.mode(Mode::Fn);
        c.store = Some(std::mem::take(&mut c.temps));
    }
    check(&c, M, rec)
}

fn sizes(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = *ch.pick(SIZES);
    let s = match ch.n(8) {
        0 => format!("{{% for x in {n} | range | sel: 1 %}}{{{{ x | sel: 2 }}}}{{% endfor %}}"),
        1 => (0..n).map(|i| format!("{{{{ {i} }}}}")).collect(),
        2 => format!("{{{{ 1{} }}}}", (0..n.min(200)).map(|i| format!(" | sel: {i}")).collect::<String>()),
        3 => {
            let n = n.clamp(1, 200);
            let arms: String = (0..n).map(|i| format!("{{% {}if f | sel: {i} %}}a", if i == 0 { "" } else { "else " })).collect();
            format!("{arms}{{% else %}}{{{{ 5 }}}}{{% endif %}}")
        }
        4 => {
            let n = n.min(200);
            let o: String = (0..n).map(|i| format!("{{% with x{} | sel: {i} as x{} %}}", ["", "0"][(i > 0) as usize], 0)).collect();
            format!("{{% with 1 as x %}}{o}{{{{ x0 }}}}{}{{% endwith %}}", "{% endwith %}".repeat(n))
        }
        5 => format!("{{% for x in {n} | range %}}{{% if x | sel: 1 %}}{{{{ x }}}}{{% else %}}{{{{ n | sel: x }}}}{{% endif %}}{{% endfor %}}"),
        6 => format!("{{% for x in {} | range %}}{{% include \"inc\" %}}{{% endfor %}}", n.min(300)),
        _ => format!("{{{{ 1 | id }}}}{}{{{{ 2 | id }}}}{{{{ 3 | fail }}}}{}", "raw ".repeat(n), "{{ 4 | id }}".repeat(n)),
    };
    run(s, ch, rec)
}
