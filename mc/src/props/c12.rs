//! C12: filters.

use crate::explore::{Ch, Rec};
use crate::funcs::{Flt, Fmt, Fun, Ty, RETS};
use crate::props::gen::{truth_domain, SIZES};
use crate::run::{check, Case, Mask, PLAIN};
use crate::sigs::{MIXES, SIGS};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        level: "model_checking",
        rule: "every signature, source and value of piped value and arguments, and every pipeline within the bounds is rendered by the implementation and by the reference machine; all calls with their arguments are compared; a trace counts when all templates compile",
        scenarios: vec![
            Scenario { name: "signatures", body: signatures },
            Scenario { name: "wrong", body: wrong },
            Scenario { name: "types", body: types },
            Scenario { name: "returns", body: returns },
            Scenario { name: "pipelines", body: pipelines },
            Scenario { name: "unchanged", body: unchanged },
            Scenario { name: "names", body: names },
            Scenario { name: "sizes", body: sizes },
            Scenario { name: "large", body: large },
        ],
        apart: &[],
    }
}

const M: Mask = Mask {
    reason: true,
    partial: true,
    trace: true,
    ..PLAIN
};

/// One function table per signature.
fn table(i: usize) -> &'static [(&'static str, Fun)] {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<[(&'static str, Fun); 4]>> = OnceLock::new();
    &T.get_or_init(|| {
        (0..SIGS.len())
            .map(|i| [("f", Fun::F(Flt::Sig(i))), ("id", Fun::F(Flt::Id)), ("show", Fun::P(Fmt::Show)), ("rid", Fun::F(Flt::Rid))])
            .collect()
    })[i]
}

/// A value that fits, different in every position.
fn fitting(t: Ty, i: usize) -> V {
    match t {
        Ty::Unit => V::None,
        Ty::Bool => V::Bool(i % 2 == 0),
        Ty::I64 | Ty::Int(..) => V::Int(10 + i as i64),
        Ty::F64 | Ty::F32 => V::Float(0.5 + i as f64),
        Ty::String | Ty::Str => V::Str(format!("s{i}")),
        Ty::List | Ty::ListRef => V::list([V::Int(i as i64), V::s("li")]),
        Ty::Map | Ty::MapRef => V::map([("k", V::Int(i as i64)), ("a", V::None)]),
        Ty::Value | Ty::ValueRef => match i % 3 {
            0 => V::Str(format!("v{i}")),
            1 => V::list([V::Int(i as i64)]),
            _ => V::Int(100 + i as i64),
        },
    }
}

fn literal(v: &V) -> Option<String> {
    Some(match v {
        V::Bool(b) => b.to_string(),
        V::Int(i) => i.to_string(),
        V::Float(f) if f.is_finite() => format!("{f:?}"),
        V::Str(s) if !s.contains(['"', '\\', '\n', '\u{0}']) => format!("\"{s}\""),
        _ => return None,
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum From {
    Lit,
    Ctx,
    Path,
    With,
    Item,
    /// An item of a list that is a temporary.
    TempItem,
    TempWith,
    Key,
}
const ARG_FROM: &[From] = &[From::Lit, From::Ctx, From::TempItem];

/// Builds the text around an expression in which value `i` comes from there.
struct Builder {
    ctx: Vec<(String, V)>,
    pre: String,
    post: String,
}
impl Builder {
    fn new() -> Builder {
        Builder {
            ctx: vec![],
            pre: String::new(),
            post: String::new(),
        }
    }
    /// The text that denotes the value, unless it cannot come from there.
    fn value(&mut self, v: &V, i: usize, from: From) -> Option<String> {
        let wrap = |b: &mut Builder, pre: String, post: &str| {
            b.pre.push_str(&pre);
            b.post = format!("{post}{}", b.post);
        };
        match from {
            From::Lit => return literal(v),
            From::Ctx => {
                self.ctx.push((format!("c{i}"), v.clone()));
                Some(format!("c{i}"))
            }
            From::Path => {
                self.ctx.push((format!("p{i}"), V::map([("a", V::list([V::None, v.clone()]))])));
                Some(format!("p{i}.a?.1"))
            }
            From::With => {
                self.ctx.push((format!("c{i}"), v.clone()));
                wrap(self, format!("{{% with c{i} as w{i} %}}"), "{% endwith %}");
                Some(format!("w{i}"))
            }
            From::TempWith => {
                self.ctx.push((format!("c{i}"), v.clone()));
                wrap(self, format!("{{% with c{i} | id as w{i} %}}"), "{% endwith %}");
                Some(format!("w{i}"))
            }
            From::Item => {
                self.ctx.push((format!("l{i}"), V::list([v.clone()])));
                wrap(self, format!("{{% for x{i} in l{i} %}}"), "{% endfor %}");
                Some(format!("x{i}"))
            }
            From::TempItem => {
                self.ctx.push((format!("l{i}"), V::list([v.clone()])));
                wrap(self, format!("{{% for x{i} in l{i} | rid %}}"), "{% endfor %}");
                Some(format!("x{i}"))
            }
            From::Key => match v {
                V::Str(s) => {
                    self.ctx.push((format!("m{i}"), V::map([(s.clone(), V::Int(0))])));
                    wrap(self, format!("{{% for x{i}, y{i} in m{i} %}}"), "{% endfor %}");
                    Some(format!("x{i}"))
                }
                _ => None,
            },
        }
    }
    fn case(self, e: String, funcs: &'static [(&'static str, Fun)]) -> Case {
        let mut c = Case::new(format!("{}{e}{}", self.pre, self.post), V::map(self.ctx));
        c.funcs = funcs;
        c.writer = true;
        c
    }
}

fn signatures(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let i = ch.n(MIXES);
    let sig = SIGS[i].0;
    let piped = *ch.pick(&[From::Lit, From::Ctx, From::TempItem, From::Item, From::TempWith]);
    let mut b = Builder::new();
    let first = fitting(sig[0], 0);
    let mut s = match b.value(&first, 0, piped) {
        Some(s) => s,
        None => return Ok(()),
    };
    if ch.flag() {
        s.push_str(" | id");
    }
    s.push_str(" | f");
    for (k, t) in sig[1..].iter().enumerate() {
        let v = fitting(*t, k + 1);
        let from = *ch.pick(ARG_FROM);
        let a = match b.value(&v, k + 1, from) {
            Some(a) => a,
            None => return Ok(()),
        };
        s.push_str(if k == 0 { ": " } else { ", " });
        s.push_str(&a);
    }
    check(&b.case(format!("a{{{{ {s} | show }}}}b"), table(i)), M, rec)
}

/// One thing wrong: the number of arguments, or the type of one.
fn wrong(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let i = ch.n(SIGS.len());
    let sig = SIGS[i].0;
    let mut n = sig.len();
    let vs = [
        V::None,
        V::Bool(true),
        V::Int(300),
        V::Int(-1),
        V::Float(1.0),
        V::s("1"),
        V::list([V::s("x")]),
        V::map([("k", V::s("x"))]),
    ];
    let mut bad = None;
    match ch.n(5) {
        0 => n = 1,
        1 => n += 1,
        2 if n > 1 => n -= 1,
        3 => n = 7,
        _ => bad = Some((ch.n(n), ch.pick(&vs).clone(), *ch.pick(&[From::Ctx, From::TempItem]))),
    }
    let mut b = Builder::new();
    let mut s = String::new();
    for k in 0..n {
        let (v, from) = match &bad {
            Some((j, v, f)) if *j == k => (v.clone(), *f),
            _ => (fitting(sig.get(k).copied().unwrap_or(Ty::Value), k), From::Ctx),
        };
        s.push_str(["", " | f: ", ", "][k.min(2)]);
        s.push_str(&b.value(&v, k, from).unwrap());
    }
    if n == 1 {
        s.push_str(" | f");
    }
    check(&b.case(format!("a{{{{ {s} | show }}}}b"), table(i)), M, rec)
}

fn domain() -> Vec<V> {
    let mut vs = truth_domain();
    for p in [7u32, 8, 15, 16, 31, 32, 53, 62] {
        for d in [-2i64, -1, 0, 1] {
            vs.push(V::Int((1i64 << p) + d));
            vs.push(V::Int(-(1i64 << p) + d));
        }
    }
    for f in [0.1, 1e300, f64::from(f32::MAX), 16777217.0, 1e-50, -1.5, f64::MAX] {
        vs.push(V::Float(f));
    }
    vs.extend([V::Int(i64::MIN + 1), V::Int(i64::MAX - 1), V::s("é日"), V::s("true"), V::s("1.5")]);
    vs.push(V::list([V::map([("a", V::list([V::Float(0.1)]))]), V::None]));
    vs.push(V::map([("z", V::map([("y", V::s("x"))])), ("a", V::list([]))]));
    vs
}

/// Every value for every parameter type in every position.
fn types(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let i = ch.n(SIGS.len());
    if i >= 5 && i < MIXES && !rec.thorough() {
        // Those are the subject of the other scenarios.
        return Ok(());
    }
    let sig = SIGS[i].0;
    let k = ch.n(sig.len());
    let v = ch.pick(&domain()).clone();
    let froms: &[From] = if k == 0 {
        &[From::Lit, From::Ctx, From::Path, From::TempItem, From::TempWith, From::With, From::Item, From::Key]
    } else {
        &[From::Lit, From::Ctx, From::Path, From::TempItem, From::With, From::Key]
    };
    let from = *ch.pick(froms);
    let mut b = Builder::new();
    let mut s = String::new();
    for j in 0..sig.len() {
        s.push_str(["", " | f: ", ", "][j.min(2)]);
        let t = if j == k {
            b.value(&v, j, from)
        } else {
            b.value(&fitting(sig[j], j), j, From::Ctx)
        };
        match t {
            Some(t) => s.push_str(&t),
            None => return Ok(()),
        }
    }
    if sig.len() == 1 {
        s.push_str(" | f");
    }
    check(&b.case(format!("a{{{{ {s} | show }}}}b"), table(i)), M, rec)
}

fn returns(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<[(&'static str, Fun); 6]>> = OnceLock::new();
    let t = T.get_or_init(|| {
        (0..RETS.len())
            .map(|i| {
                [
                    ("f", Fun::F(Flt::Ret(i))),
                    ("id", Fun::F(Flt::Id)),
                    ("rid", Fun::F(Flt::Rid)),
                    ("show", Fun::P(Fmt::Show)),
                    ("pair", Fun::F(Flt::Pair)),
                    ("truthy", Fun::F(Flt::Truthy)),
                ]
            })
            .collect()
    });
    let i = ch.n(RETS.len());
    let src = *ch.pick(&[
        "a{{ 1 | f | show }}b",
        "a{{ 1 | f }}b",
        "a{{ 1 | f | id | show }}b",
        "a{{ 1 | f | rid | f | show }}b",
        "a{{ 1 | f | pair: 2 | show }}b",
        "a{% if 1 | f %}T{% else %}F{% endif %}b",
        "a{% if not 1 | f %}T{% else %}F{% endif %}b",
        "a{% for x in 1 | f %}{{ x | show }}{% endfor %}b",
        "a{% for x, y in 1 | f %}{{ x }}{{ y | show }}{% endfor %}b",
        "a{% with 1 | f as x %}{{ x | show }}{{ x | f | show }}{{ x | show }}{% endwith %}b",
        "a{% include \"t\" with 1 | f %}b",
        "a{{ 1 | f | truthy }}{{ 2 | f | truthy | f | show }}b",
    ]);
    let mut c = Case::new(src, V::None).temp("t", "{{ a | show }}").writer(true);
    c.funcs = &t[i];
    check(&c, M, rec)
}

fn pipelines(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const F: &[&str] = &[
        "id", "rid", "up", "own", "cat: \"q\"", "cat: s", "pre: s", "pre: \"q\"", "len", "add: 2", "add: i", "pair: s", "pair: t", "mk", "none", "fail", "rev", "keys", "range",
        "show", "nosuch", "neg", "truthy",
    ];
    const POS: &[&str] = &[
        "a{{ E | show }}b{{ s }}{{ l | show }}",
        "a{{ E }}b{{ s }}",
        "a{% if E %}T{% else %}F{% endif %}b{{ s }}",
        "a{% for x in E %}{{ x | show }}{% endfor %}b{{ l | show }}",
        "a{% with E as x %}{{ x | id | show }}{{ x | show }}{% endwith %}b",
        "a{% include \"t\" with E %}b",
    ];
    let max = if rec.thorough() { 4 } else { 3 };
    let n = ch.range(1, max);
    let mut e = String::from(*ch.pick(&["s", "l", "m", "i", "\"lit\"", "7", "t"]));
    for _ in 0..n {
        e.push_str(" | ");
        e.push_str(F[ch.n(F.len())]);
    }
    let pos = if n == max { POS[0] } else { *ch.pick(POS) };
    let ctx = V::map([
        ("s", V::s("str")),
        ("i", V::Int(3)),
        ("t", V::Bool(true)),
        ("l", V::list([V::s("x"), V::Int(1)])),
        ("m", V::map([("k", V::s("v")), ("j", V::Int(1))])),
    ]);
    check(&Case::new(pos.replace('E', &e), ctx).temp("t", "{{ v | show }}").writer(true), M, rec)
}

/// What a filter takes by value is a copy.
fn unchanged(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const WHERE: &[(&str, &str, &str)] = &[
        ("", "v", ""),
        ("", "m.a", ""),
        ("", "l.0", ""),
        ("{% with v as x %}", "x", "{% endwith %}"),
        ("{% with v | id as x %}", "x", "{% endwith %}"),
        ("{% with m | id as x %}", "x.a", "{% endwith %}"),
        ("{% for x in l %}", "x", "{% endfor %}"),
        ("{% for x in l | id %}", "x", "{% endfor %}"),
        ("{% for k, x in m %}", "x", "{% endfor %}"),
        ("{% for k, x in m | id %}", "x", "{% endfor %}"),
        ("{% for k, y in m %}", "k", "{% endfor %}"),
        ("{% for k, y in m | id %}", "k", "{% endfor %}"),
        ("{% for x in ll | id %}", "x.0", "{% endfor %}"),
        ("{% for y in l %}", "loop", "{% endfor %}"),
    ];
    const USE: &[&str] = &[
        "{{ X | id | show }}", "{{ X | own }}", "{{ X | mk | show }}", "{{ X | pair: X | show }}", "{{ X | none }}", "{{ 1 | pair: X | show }}", "{{ \"p\" | cat: X }}",
        "{% with X | id as q %}{{ q | own }}{{ q | show }}{% endwith %}", "{% for q in X | id %}{{ q | id | show }}{% endfor %}", "{% if X | id %}y{% endif %}",
        "{% include \"t\" with X | id %}", "{% include \"t\" with X %}", "{{ X | trip: X, X | show }}",
    ];
    let v = ch
        .pick(&[V::s("str"), V::list([V::s("e"), V::Int(2)]), V::map([("a", V::s("e")), ("b", V::None)]), V::Int(5)])
        .clone();
    let &(pre, x, post) = ch.pick(WHERE);
    let u = USE[ch.n(USE.len())];
    let w = USE[ch.n(USE.len())];
    let src = format!("{pre}{u}|{{{{ X | show }}}}|{w}|{{{{ X | show }}}};{post}{{{{ v | show }}}}{{{{ l | show }}}}{{{{ m | show }}}}");
    let ctx = V::map([
        ("l", V::list([v.clone(), V::s("2nd")])),
        ("ll", V::list([V::list([v.clone()])])),
        ("m", V::map([("a", v.clone()), ("b", V::s("2nd"))])),
        ("v", v),
    ]);
    let c = Case::new(src.replace('X', x), ctx).temp("t", "[{{ a | own }}{{ a | show }}]").writer(true);
    check(&c, M, rec)
}

/// Which function a name is.
fn names(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const N: &[&str] = &["f", "g", "F", "é", "_", "f1", "loop", "v", "show", "ff"];
    let funcs: &'static [(&'static str, Fun)] = &[
        ("f", Fun::F(Flt::Up)),
        ("g", Fun::F(Flt::Own)),
        ("é", Fun::F(Flt::Len)),
        ("_", Fun::F(Flt::Id)),
        ("loop", Fun::F(Flt::Own)),
        ("v", Fun::F(Flt::Fail)),
        ("show", Fun::P(Fmt::Show)),
        ("ff", Fun::P(Fmt::Err)),
    ];
    let n = *ch.pick(N);
    let m = *ch.pick(N);
    let pos = *ch.pick(&["a{{ v | N | M }}b", "a{{ v | N }}{{ f | M }}b", "a{% if v | N %}T{% endif %}{{ v | M | show }}b", "{% if e %}{{ v | N }}{% endif %}{% for x in l %}{{ x | N | M }}{% endfor %}", "{% with v | N as f %}{{ f | M }}{% endwith %}", "a{{ v | N: v }}{{ v | M }}"]);
    let ctx = V::map([("v", V::s("s")), ("f", V::s("var")), ("e", V::s("")), ("l", V::list([V::s("x")]))]);
    let mut c = Case::new(pos.replace('N', n).replace('M', m), ctx).writer(true);
    c.funcs = funcs;
    check(&c, M, rec)
}

fn sizes(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = *ch.pick(SIZES);
    let (src, v) = match ch.n(7) {
        0 => (format!("{{{{ v{} | show }}}}{{{{ v }}}}", " | own".repeat(n)), V::s("x")),
        1 => (format!("{{{{ v{} | show }}}}", " | add: 1".repeat(n)), V::Int(0)),
        2 => (format!("{{{{ v{} | show }}}}", " | cat: v".repeat(n.min(600))), V::s("ab")),
        3 => (format!("{{{{ v | rev | id | rid | show }}}}{{{{ v | count }}}}"), V::list((0..n).map(|i| V::Int(i as i64)))),
        4 => (format!("{{{{ v | keys | show }}}}"), V::map((0..n).map(|i| (format!("k{i}"), V::Int(i as i64))))),
        5 => (format!("{{{{ v | len }}}}{{{{ v | own | up | len }}}}"), V::Str("é".repeat(n))),
        _ => (format!("{{% for i in {n} | range %}}{{{{ i | add: i | add: v }}}} {{% endfor %}}"), V::Int(1)),
    };
    check(&Case::new(src, V::map([("v", v)])).writer(true), M, rec)
}

/// Large values at every position of every kind of parameter.
fn large(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let i = ch.n(SIGS.len());
    if i >= 5 && i < MIXES {
        return Ok(());
    }
    let sig = SIGS[i].0;
    let k = ch.n(sig.len());
    let n = *ch.pick(&[200usize, 300, 1025, 4097, 66000]);
    let kind = ch.n(4);
    if kind >= 2 && n > 5000 && !rec.thorough() {
        return Ok(());
    }
    let v = match kind {
        0 => V::Str("0123456789".chars().cycle().take(n).collect()),
        1 => V::Str("\u{e9}\u{1f600}x".chars().cycle().take(n).collect()),
        2 => V::list((0..n).map(|i| V::Int(i as i64))),
        _ => V::map((0..n).map(|i| (format!("k{i}"), V::Int(i as i64)))),
    };
    if !sig[k].accepts(&v, true, false) {
        return Ok(());
    }
    let from = *ch.pick(&[From::Ctx, From::Path, From::TempItem, From::With, From::TempWith, From::Key]);
    let mut b = Builder::new();
    let mut s = String::new();
    for j in 0..sig.len() {
        s.push_str(["", " | f: ", ", "][j.min(2)]);
        let t = if j == k { b.value(&v, j, from) } else { b.value(&fitting(sig[j], j), j, From::Ctx) };
        match t {
            Some(t) => s.push_str(&t),
            None => return Ok(()),
        }
    }
    if sig.len() == 1 {
        s.push_str(" | f");
    }
    check(&b.case(format!("a{{{{ {s} | show }}}}b"), table(i)), M, rec)
}
