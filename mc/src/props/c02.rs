//! C02: loops.

use super::gen::{truth_domain, Kind, Skel, BIG, SIZES};
use crate::explore::{Ch, Rec};
use crate::run::{check, Case, Mode, PLAIN};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        level: "model_checking",
        rule: "every template with loops of the scenario's grammar, over every collection of its domain, is rendered by the implementation and by the reference machine; a trace counts when the template compiles",
        scenarios: vec![
            Scenario { name: "lengths", body: lengths },
            Scenario { name: "elements", body: elements },
            Scenario { name: "key-order", body: key_order },
            Scenario { name: "skeletons", body: skeletons },
            Scenario { name: "bindings", body: bindings },
            Scenario { name: "not-iterable", body: not_iterable },
            Scenario { name: "deep", body: deep },
            Scenario { name: "uneven", body: uneven },
        ],
        apart: &[],
    }
}

const SOURCES: &[(&str, &str, &str)] = &[
    ("", "c", ""),
    ("", "c | id", ""),
    ("", "m.c", ""),
    ("", "m?.c", ""),
    ("", "ll.0", ""),
    ("{% with c as w %}", "w", "{% endwith %}"),
    ("{% with c | rid as w %}", "w", "{% endwith %}"),
    ("{% for y in ll %}", "y", "{% endfor %}"),
    ("{% for y in ll | id %}", "y", "{% endfor %}"),
    ("{% for k, y in m %}", "y", "{% endfor %}"),
    ("{% for k, y in m | id %}", "y", "{% endfor %}"),
    ("{% for k, y in m %}{% for z in ll %}", "z", "{% endfor %}{% endfor %}"),
];

fn ctx_of(c: V) -> V {
    V::map([
        ("c", c.clone()),
        ("m", V::map([("c", c.clone())])),
        ("ll", V::list([c])),
    ])
}

fn lengths(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut sizes: Vec<usize> = SIZES.to_vec();
    if rec.thorough() {
        sizes.extend(BIG);
    } else {
        sizes.extend([2048, 4096, 4097, 10000, 65536, 65537]);
    }
    let n = *ch.pick(&sizes);
    let src = ch.n(SOURCES.len());
    let is_map = ch.flag();
    if n > 1025 && src > 1 {
        return Ok(());
    }
    let (pre, e, post) = SOURCES[src];
    let body = *ch.pick(&[
        "{{ x }},",
        "{{ loop.index }},",
        "{% if loop.first %}[{% endif %}.{% if loop.last %}]{% endif %}",
        "{% if not loop.last %}{{ x }}, {% endif %}",
    ]);
    let c = if is_map {
        V::map((0..n).map(|i| (format!("k{i}"), V::Int(i as i64 * 3))))
    } else {
        V::list((0..n).map(|i| V::Int(i as i64 * 3)))
    };
    let vars = if is_map { "k, x" } else { "x" };
    let t = format!("({pre}{{% for {vars} in {e} %}}{body}{{% endfor %}}{post})");
    check(&Case::new(t, ctx_of(c)), PLAIN, rec)
}

/// Every value as an element: it arrives as it is.
fn elements(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let dom = truth_domain();
    let (pre, e, post) = *ch.pick(SOURCES);
    let is_map = ch.flag();
    let a = ch.pick(&dom).clone();
    let b = ch.pick(&dom).clone();
    let mode = *ch.pick(&[Mode::From, Mode::SerdeRev, Mode::Fn]);
    let (c, vars, body) = if is_map {
        (V::map([("p", a), ("q", b)]), "k, x", "{{ k | show }}{{ x | show }};")
    } else {
        (V::list([a, b]), "x", "{{ x | show }};")
    };
    let t = format!("{pre}{{% for {vars} in {e} %}}{body}{{% endfor %}}{post}");
    check(&Case::new(t, ctx_of(c)).mode(mode), PLAIN, rec)
}

/// Every set of keys, whatever order they are supplied in.
fn key_order(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const KEYS: &[&str] = &["a", "B", "aa", "é", "", "10", "9", "_", "Z", " ", "a\u{0}", "日", "ab", "A", "index"];
    let lim = if rec.thorough() { KEYS.len() } else { 12 };
    let mut c = vec![];
    for (i, k) in KEYS[..lim].iter().enumerate() {
        if ch.flag() {
            c.push((*k, V::Int(i as i64)));
        }
    }
    let mode = *ch.pick(&[Mode::From, Mode::SerdeRev]);
    let e = *ch.pick(&["c", "c | id"]);
    let t = format!(
        "{{% for k, x in {e} %}}{{{{ k }}}}={{{{ x }}}}/{{{{ loop.index }}}}{{% if loop.last %}}.{{% endif %}};{{% endfor %}}"
    );
    check(&Case::new(t, ctx_of(V::map(c))).mode(mode), PLAIN, rec)
}

fn skeletons(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const KINDS: &[Kind] = &[
        Kind::For,
        Kind::ForMap,
        Kind::EmitX,
        Kind::EmitLoop,
        Kind::EmitEnds,
        Kind::If,
        Kind::IfElse,
        Kind::With,
        Kind::Include,
    ];
    let mut g = Skel::new(if rec.thorough() { 5 } else { 4 }, KINDS);
    let src = g.body(ch);
    check(&Case::new(src, Skel::ctx()).temp("inc", Skel::INC), PLAIN, rec)
}

/// Loop variables named like each other, like the collection, or `loop`.
fn bindings(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let names = ["a", "b", "loop"];
    let mut src = String::new();
    let mut ends = String::new();
    let depth = ch.range(1, if rec.thorough() { 3 } else { 2 });
    for _ in 0..depth {
        let e = *ch.pick(&["a", "b", "b | id", "c", "c | id", "c.p", "loop.index | range"]);
        if ch.flag() {
            let k = *ch.pick(&names);
            let v = *ch.pick(&names);
            src.push_str(&format!("{{% for {k}, {v} in {e} %}}"));
        } else {
            let v = *ch.pick(&names);
            src.push_str(&format!("{{% for {v} in {e} %}}"));
        }
        let probe = *ch.pick(&["{{ a | show }};", "{{ b | show }};", "{{ loop | show }};", "{{ loop.index | show }};", ""]);
        src.push_str(probe);
        ends = format!("{{% endfor %}}{probe}{ends}");
    }
    src.push_str(&ends);
    let ctx = V::map([
        ("a", V::list([V::Int(1), V::Int(2)])),
        ("b", V::list([V::list([V::Int(3)]), V::list([V::Int(4), V::Int(5)])])),
        (
            "c",
            V::map([("p", V::map([("q", V::Int(6))])), ("r", V::map([("s", V::Int(7)), ("t", V::Int(8))]))]),
        ),
    ]);
    check(&Case::new(src, ctx), PLAIN, rec)
}

fn not_iterable(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let dom = truth_domain();
    let (pre, e, post) = *ch.pick(SOURCES);
    let v = ch.pick(&dom).clone();
    let vars = *ch.pick(&["x", "k, x", "x, x"]);
    let body = *ch.pick(&["{{ x | show }}", "never", ""]);
    let t = format!("{pre}{{% for {vars} in {e} %}}{body}{{% endfor %}}{post}");
    check(&Case::new(t, ctx_of(v)), PLAIN, rec)
}

/// Loops nested deeply, each with its own position.
fn deep(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let wide = ch.flag();
    let n = if wide { ch.range(1, 8) } else { *ch.pick(&[1, 2, 3, 4, 8, 16, 32, 33, 64, 65, 100, 128, 129, 200]) };
    let kind = ch.n(4);
    let e = ["c", "c | id", "2 | range", "m"][kind];
    let e1 = ["s", "s | id", "1 | range", "m1"][kind];
    let vars = |i: usize| if kind == 3 { format!("k{i}, x{i}") } else { format!("x{i}") };
    let mut t = String::new();
    for i in 0..n {
        t.push_str(&format!(
            "{{% for {} in {} %}}{{% if loop.first %}}<{{% endif %}}",
            vars(i),
            if wide { e } else { e1 }
        ));
    }
    for i in 0..n {
        t.push_str(&format!("{{{{ x{i} }}}}"));
    }
    for i in (0..n).rev() {
        t.push_str(&format!(
            "{{{{ loop.index }}}}{{{{ x{i} }}}}{{% if loop.last %}}>{{% endif %}}{{% endfor %}}"
        ));
    }
    let ctx = V::map([
        ("c", V::list([V::s("a"), V::s("b")])),
        ("s", V::list([V::s("z")])),
        ("m", V::map([("p", V::Int(1)), ("q", V::Int(2))])),
        ("m1", V::map([("p", V::Int(1))])),
    ]);
    check(&Case::new(t, ctx), PLAIN, rec)
}

/// Inner collections that differ between the elements of the outer one.
fn uneven(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = ch.range(0, if rec.thorough() { 4 } else { 3 });
    let inner = V::list((0..n).map(|i| {
        let k = ch.n(4);
        V::list((0..k).map(|j| V::Int((i * 10 + j) as i64)))
    }));
    let (o, i) = *ch.pick(&[("c", "y"), ("c | id", "y"), ("c", "y | rev"), ("c | id", "y | id")]);
    let mid = *ch.pick(&["", "{{ loop.index }}", "{{ loop.last }}", "{{ loop.first }}", "{% for q in c %}{{ loop.index }}{% endfor %}"]);
    let t = format!(
        "{{% for y in {o} %}}{mid}[{{% for x in {i} %}}{{{{ x }}}}:{{{{ loop.index }}}}{{{{ loop.last }}}},{{% endfor %}}]{mid}{{{{ loop.last }}}};{{% endfor %}}"
    );
    check(&Case::new(t, ctx_of(inner)), PLAIN, rec)
}
