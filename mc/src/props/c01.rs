//! C01: which branch of a conditional is rendered.

use super::gen::{truth_domain, Kind, Skel, SIZES};
use crate::explore::{Ch, Rec};
use crate::run::{check, Case, Mask, Mode};
use crate::val::V;
use crate::{Prop, Scenario};

const M: Mask = Mask {
    loc: false,
    reason: false,
    partial: false,
    trace: false,
    any_err: true,
};

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        level: "model_checking",
        rule: "every conditional of the scenario's grammar within its bounds is rendered by the implementation and by the reference machine; a trace counts when the template compiles",
        scenarios: vec![
            Scenario { name: "truth", body: truth },
            Scenario { name: "collections", body: collections },
            Scenario { name: "chains", body: chains },
            Scenario { name: "skeletons", body: skeletons },
            Scenario { name: "ladder", body: ladder },
            Scenario { name: "nesting", body: nesting },
            Scenario { name: "conditions", body: conditions },
        ],
        apart: &[],
    }
}

/// Every value of the domain, reaching the condition in every way.
fn truth(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let dom = truth_domain();
    let v = ch.pick(&dom).clone();
    let form = *ch.pick(&[
        ("{% if ", " %}Y{% endif %}"),
        ("{% if ", " %}Y{% else %}N{% endif %}"),
        ("{% if not ", " %}Y{% endif %}"),
        ("{% if not ", " %}Y{% else %}N{% endif %}"),
        ("{% if f %}A{% else if ", " %}Y{% else %}N{% endif %}"),
        ("{% if f %}A{% else if not ", " %}Y{% else %}N{% endif %}"),
        ("{% if not f | id %}{% if ", " %}Y{% else if t %}Z{% endif %}{% endif %}"),
    ]);
    let (pre, expr, post) = *ch.pick(&[
        ("", "v", ""),
        ("", "m.v", ""),
        ("", "m?.v", ""),
        ("", "l.0", ""),
        ("", "v | id", ""),
        ("", "v | rid | id", ""),
        ("{% with v as w %}", "w", "{% endwith %}"),
        ("{% with v | id as w %}", "w", "{% endwith %}"),
        ("{% for x in l %}", "x", "{% endfor %}"),
        ("{% for x in l | id %}", "x", "{% endfor %}"),
        ("{% for k, x in m %}", "x", "{% endfor %}"),
        ("{% for k, x in m | id %}", "x", "{% endfor %}"),
        ("{% for k, x in m %}", "m.v", "{% endfor %}"),
    ]);
    let mode = *ch.pick(&[Mode::From, Mode::Serde, Mode::Fn]);
    let src = format!("<{pre}{}{expr}{}{post}>", form.0, form.1);
    let ctx = V::map([
        ("v", v.clone()),
        ("m", V::map([("v", v.clone())])),
        ("l", V::list([v])),
        ("t", V::Bool(true)),
        ("f", V::Bool(false)),
    ]);
    check(&Case::new(src, ctx).mode(mode), M, rec)
}

/// Collections of every small shape: only their length counts.
fn collections(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    fn shape(ch: &mut Ch, depth: usize, wide: usize) -> V {
        let leaves = [
            V::None,
            V::Bool(false),
            V::Int(0),
            V::Float(0.0),
            V::s(""),
            V::Bool(true),
            V::Int(1),
            V::s("x"),
        ];
        let k = ch.n(leaves.len() + if depth == 0 { 2 } else { 2 + 2 * wide });
        if k < leaves.len() {
            return leaves[k].clone();
        }
        let k = k - leaves.len();
        let n = k / 2;
        let parts: Vec<V> = (0..n).map(|_| shape(ch, depth - 1, 1)).collect();
        if k % 2 == 0 {
            V::list(parts)
        } else {
            V::map(parts.into_iter().zip(["", "k"]).map(|(v, k)| (k, v)))
        }
    }
    let v = shape(ch, if rec.thorough() { 4 } else { 3 }, 2);
    let expr = *ch.pick(&["v", "m.v", "v | id"]);
    let mode = *ch.pick(&[Mode::From, Mode::Serde, Mode::Fn]);
    let src = format!(
        "{{% if {expr} %}}Y{{% else %}}N{{% endif %}}{{% if not {expr} %}}Y{{% else %}}N{{% endif %}}{{% if f %}}{{% else if {expr} %}}Z{{% endif %}}"
    );
    let ctx = V::map([("v", v.clone()), ("m", V::map([("v", v)])), ("f", V::Bool(false))]);
    check(&Case::new(src, ctx).mode(mode), M, rec)
}

/// All chains of up to four arms under all truth values.
fn chains(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = ch.range(1, if rec.thorough() { 5 } else { 4 });
    let els = ch.flag();
    let mut src = String::from("<");
    let mut ctx = vec![];
    for i in 0..n {
        src.push_str(if i == 0 { "{% if " } else { "{% else if " });
        if ch.flag() {
            src.push_str("not ");
        }
        src.push_str(&format!("c{i} %}}"));
        ctx.push((format!("c{i}"), V::Bool(ch.flag())));
        let b = ["", "x", "{{ c0 }}"][ch.n(3)];
        src.push_str(b);
        if b == "x" {
            src.push_str(&i.to_string());
        }
    }
    if els {
        src.push_str("{% else %}");
        src.push_str(["", "E"][ch.n(2)]);
    }
    src.push_str("{% endif %}>");
    check(&Case::new(src, V::map(ctx)), M, rec)
}

fn skeletons(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const KINDS: &[Kind] = &[
        Kind::If,
        Kind::IfElse,
        Kind::IfElif,
        Kind::IfElifElse,
        Kind::For,
        Kind::With,
    ];
    let mut g = Skel::new(if rec.thorough() { 4 } else { 3 }, KINDS);
    let src = g.body(ch);
    check(&Case::new(src, Skel::ctx()), M, rec)
}

/// Long chains, with the first true condition anywhere.
fn ladder(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let lim = if rec.thorough() { 1025 } else { 300 };
    let sizes: Vec<usize> = SIZES.iter().copied().filter(|n| *n >= 1 && *n <= lim).collect();
    let n = *ch.pick(&sizes);
    let els = ch.flag();
    let dense = n <= 16;
    let at: Vec<usize> = if dense {
        (0..=n).collect()
    } else {
        [0, 1, n / 2, n - 2, n - 1, n].into()
    };
    let hit = *ch.pick(&at);
    // Either only one condition is true, or all from there on.
    let all = ch.flag();
    let mut src = String::new();
    for i in 0..n {
        src.push_str(if i == 0 { "{% if " } else { "{% else if " });
        let t = i == hit || (all && i > hit);
        src.push_str(if t { "t" } else { "f" });
        src.push_str(&format!(" %}}{i}."));
    }
    if els {
        src.push_str("{% else %}else");
    }
    src.push_str("{% endif %}!");
    check(&Case::new(src, Skel::ctx()), M, rec)
}

/// Deep nesting of conditionals, true down to a level.
fn nesting(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let lim = if rec.thorough() { 600 } else { 200 };
    let sizes: Vec<usize> = SIZES.iter().copied().filter(|n| *n <= lim).collect();
    let n = *ch.pick(&sizes);
    let kind = ch.n(3);
    let at: Vec<usize> = if n <= 12 {
        (0..=n).collect()
    } else {
        vec![0, 1, n / 2, n - 1, n]
    };
    let stop = *ch.pick(&at);
    let mut src = String::new();
    for i in 0..n {
        let c = if i == stop { "f" } else { "t" };
        src.push_str(&match kind {
            0 => format!("{{% if {c} %}}({i}"),
            1 => format!("{{% if {c} %}}({i}"),
            _ => format!("{{% if not {c} %}}no{i}{{% else %}}({i}"),
        });
    }
    for i in (0..n).rev() {
        src.push_str(&match kind {
            1 => format!("){{% else if t %}}alt{i}{{% else %}}never{{% endif %}}"),
            _ => format!("){{% endif %}}"),
        });
    }
    check(&Case::new(src, Skel::ctx()), M, rec)
}

/// Conditions that are expressions, and spellings of the tags.
fn conditions(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let conds = [
        "true", "false", "0", "1", "-1", "0.0", "-0.0", "0.5", "\"\"", "\"x\"", "\"false\"", "0x0", "0x1", "0b0",
        "\"0\"", "t", "f", "s", "nothing?.x", "d?.gone", "d.n", "d.n?.x", "l", "e", "l.0", "l.1", "l?.9", "d", "em",
        "t | neg", "f | neg", "t | neg | neg", "l | count", "e | count", "s | len", "\"\" | len", "s | up",
        "0 | add: 0", "1 | add: -1", "l | truthy | neg", "e | truthy", "missing", "t | nope", "s | neg",
        "t | none", "s | fail", "f | mk", "s | show",
    ];
    let c = ch.pick(&conds);
    let not = ["", "not "][ch.n(2)];
    let style = ch.n(4);
    let (o, e) = [("{% ", " %}"), ("{%", "%}"), ("{%- ", " -%}"), ("{%\t", "  %}")][style];
    let sep = if style == 1 && not.is_empty() { " " } else { " " };
    let shape = ch.n(4);
    let src = match shape {
        0 => format!("a {o}if{sep}{not}{c}{e} Y {o}endif{e} z"),
        1 => format!("a {o}if{sep}{not}{c}{e} Y {o}else{e} N {o}endif{e} z"),
        2 => format!("a {o}if f{e} W {o}else if{sep}{not}{c}{e} Y {o}else{e} N {o}endif{e} z"),
        _ => format!("a {o}if t{e} W {o}else if{sep}{not}{c}{e} Y {o}else{e} N {o}endif{e} z"),
    };
    let ctx = V::map([
        ("t", V::Bool(true)),
        ("f", V::Bool(false)),
        ("s", V::s("str")),
        ("l", V::list([V::Int(0), V::Int(7)])),
        ("e", V::list([])),
        ("d", V::map([("n", V::None)])),
        ("em", V::map::<_, &str>([])),
        ("nothing", V::map::<_, &str>([])),
    ]);
    let mode = *ch.pick(&[Mode::From, Mode::Serde]);
    check(&Case::new(src, ctx).mode(mode), M, rec)
}
