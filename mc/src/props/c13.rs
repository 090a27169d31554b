//! C13: formatters.

use std::sync::OnceLock;

use crate::explore::{Ch, Rec};
use crate::funcs::{DefFmt, Flt, Fmt, Fun};
use crate::props::gen::{truth_domain, Kind, Skel, BIG, SIZES};
use crate::run::{check, Case, Mask, Mode, PLAIN};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        level: "model_checking",
        rule: "every emitted value, pipeline, formatter behaviour and default formatter within the bounds is rendered by the implementation and by the reference machine, comparing the bytes written (also before a failure), the calls of formatters and the messages; a trace counts when all templates compile",
        scenarios: vec![
            Scenario { name: "numbers", body: numbers },
            Scenario { name: "values", body: values },
            Scenario { name: "scripts", body: scripts },
            Scenario { name: "pipelines", body: pipelines },
            Scenario { name: "misplaced", body: misplaced },
            Scenario { name: "documents", body: documents },
            Scenario { name: "names", body: names },
            Scenario { name: "sizes", body: sizes },
        ],
        apart: &[],
    }
}

const M: Mask = Mask {
    reason: true,
    partial: true,
    trace: true,
    ..PLAIN
};
const DEFS: &[DefFmt] = &[DefFmt::Builtin, DefFmt::Show, DefFmt::ErrOnNone, DefFmt::Esc, DefFmt::Err, DefFmt::Err0];

/// Where an expression is emitted: the value is `v`.
const FROM: &[(&str, &str, &str)] = &[
    ("", "v", ""),
    ("", "m.a", ""),
    ("", "l.0", ""),
    ("", "m?.a", ""),
    ("{% with v as x %}", "x", "{% endwith %}"),
    ("{% with v | id as x %}", "x", "{% endwith %}"),
    ("{% for x in l %}", "x", "{% endfor %}"),
    ("{% for x in l | id %}", "x", "{% endfor %}"),
    ("{% for k, x in m %}", "x", "{% endfor %}"),
    ("{% if true %}", "v", "{% endif %}"),
    ("", "v | id", ""),
    ("", "v | rid", ""),
    ("", "nul | ret: v", ""),
];
const T: &[(&str, Fun)] = &[
    ("id", Fun::F(Flt::Id)),
    ("rid", Fun::F(Flt::Rid)),
    ("ret", Fun::F(Flt::Pair)),
    ("show", Fun::P(Fmt::Show)),
    ("esc", Fun::P(Fmt::Esc)),
    ("ferr", Fun::P(Fmt::Err)),
    ("ferr0", Fun::P(Fmt::Err0)),
    ("twice", Fun::P(Fmt::Twice)),
    ("def", Fun::P(Fmt::Script(8 + 4))),
];
fn ctx(v: &V) -> V {
    V::map([
        ("v", v.clone()),
        ("l", V::list([v.clone()])),
        ("m", V::map([("a", v.clone())])),
        ("nul", V::None),
    ])
}

/// All powers of two and ten and what lies next to them.
fn numbers(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let v = match ch.n(4) {
        0 => {
            let e = ch.n(64);
            let d = ch.n(5) as i64 - 2;
            let x = (1i64 << e.min(62)).wrapping_mul(if e == 63 { 2 } else { 1 }).wrapping_add(d);
            V::Int(if ch.flag() { x.wrapping_neg() } else { x })
        }
        1 => {
            let e = ch.n(19) as u32;
            let d = ch.n(5) as i64 - 2;
            let x = 10i64.pow(e).wrapping_mul(ch.range(1, 9) as i64).wrapping_add(d);
            V::Int(if ch.flag() { x.wrapping_neg() } else { x })
        }
        2 => {
            // Every exponent with a few fractions.
            let e = ch.n(2048) as u64;
            let m = *ch.pick(&[0u64, 1, 1 << 51, (1 << 52) - 1, 0x5555_5555_5555_5, 3]);
            V::Float(f64::from_bits((u64::from(ch.flag()) << 63) | (e << 52) | m))
        }
        _ => {
            let e = ch.n(40) as i32 - 20;
            let d = *ch.pick(&[1.0, 9.0, 1.5, 9.9999999, 1.2345678901234567, 123456789.0, 0.3, 2.0f64 / 3.0]);
            let x = d * 10f64.powi(e);
            V::Float(if ch.flag() { -x } else { x })
        }
    };
    let src = if ch.flag() { "a{{ v }}b" } else { "a{{ v | def }}b" };
    let mut c = Case::new(src, ctx(&v)).mode(*ch.pick(&[Mode::From, Mode::Serde])).writer(ch.flag());
    c.funcs = T;
    check(&c, M, rec)
}

fn domain() -> Vec<V> {
    let mut vs = truth_domain();
    for s in [
        "<", "a<b>&\"'", "é日\u{301}", "\r\n\t", "{{ v }}", "{# c #}{%- x -%}", "%", "{}", "{0}", "\\n", "\u{feff}\u{202e}", "None", "-", "  x  ", "\u{7f}\u{80}\u{10ffff}",
    ] {
        vs.push(V::s(s));
    }
    vs.extend([V::Float(1e21), V::Float(1e16), V::Float(1e-7), V::Float(123456.0), V::Float(-1e100)]);
    vs.push(V::list([V::s("a"), V::map([("k", V::Int(1))])]));
    vs
}

/// Every value from everywhere through every formatter and default formatter.
fn values(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let v = ch.pick(&domain()).clone();
    let &(pre, e, post) = ch.pick(FROM);
    let f = *ch.pick(&["", " | show", " | esc", " | twice", " | ferr", " | ferr0", " | def"]);
    let deff = if f.is_empty() { *ch.pick(DEFS) } else { *ch.pick(&[DefFmt::Builtin, DefFmt::Err]) };
    let mut c = Case::new(format!("[{pre}a{{{{ {e}{f} }}}}b{post}]{{# c #}}"), ctx(&v)).writer(true);
    c.mode = if f.is_empty() { *ch.pick(&[Mode::From, Mode::Serde, Mode::Fn]) } else { Mode::From };
    c.funcs = T;
    c.deff = deff;
    check(&c, M, rec)
}

/// Formatters that write in every way, up to three (four) times, and end in
/// every way.
fn scripts(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    static TABLES: OnceLock<Vec<[(&'static str, Fun); 3]>> = OnceLock::new();
    let t = TABLES.get_or_init(|| {
        (0..8 * 8 * 8 * 8 * 8u16)
            .map(|n| [("f", Fun::P(Fmt::Script(n))), ("id", Fun::F(Flt::Id)), ("show", Fun::P(Fmt::Show))])
            .collect()
    });
    let k = ch.range(0, if rec.thorough() { 4 } else { 3 });
    let mut n = 0u16;
    for _ in 0..k {
        n = n * 8 + ch.n(8) as u16;
    }
    let end = ch.range(2, 5) as u16;
    let code = end * 8u16.pow(k as u32) + n;
    let v = ch.pick(&[V::s("v<é"), V::Int(-7), V::None, V::Float(0.5), V::list([V::Int(1)])]).clone();
    let src = *ch.pick(&["a{{ v | f }}b{{ v | f }}c", "{{ v | id | f }}", "{% for x in l %}{{ x | f }}{% endfor %}.", "a{{- v | f -}} b"]);
    let mut c = Case::new(src, ctx(&v)).writer(ch.flag());
    c.funcs = &t[code as usize];
    check(&c, M, rec)
}

fn pipelines(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const F: &[&str] = &["id", "rid", "ret: v", "ret: 1, 2", "show", "esc", "ferr", "ferr0", "nosuch", "show: 1", "twice", "def", "show: 1, 2, 3, 4, 5"];
    let n = ch.range(0, if rec.thorough() { 5 } else { 4 });
    let mut e = ch.pick(&["v", "\"l<t\"", "l", "nul", "7"]).to_string();
    for _ in 0..n {
        e.push_str(" | ");
        e.push_str(F[ch.n(F.len())]);
    }
    let mut c = Case::new(format!("a{{{{ {e} }}}}b{{{{ v | show }}}}"), ctx(&V::s("<v>"))).writer(ch.flag());
    c.funcs = T;
    c.deff = if n < 3 { *ch.pick(DEFS) } else { *ch.pick(&[DefFmt::Builtin, DefFmt::Show]) };
    check(&c, M, rec)
}

/// Formatters where only filters make sense.
fn misplaced(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const POS: &[&str] = &[
        "a{% if E %}T{% else %}F{% endif %}b",
        "a{% if not E %}T{% else if E %}U{% endif %}b",
        "a{% if false %}T{% else if E %}U{% endif %}b",
        "a{% for x in E %}{{ x }}{% endfor %}b",
        "a{% for x, y in E %}{{ x }}{% endfor %}b",
        "a{% with E as x %}{{ x }}{% endwith %}b",
        "a{% include \"t\" with E %}b",
        "a{{ E }}b",
        "a{% if true %}T{% else if E %}U{% endif %}b",
        "a{% for x in e %}{{ E }}{% endfor %}b",
        "a{% for x in l %}{{ E }}{% if x | E2 %}{% endif %}{% endfor %}b",
    ];
    const F: &[&str] = &["show", "esc", "twice", "ferr", "show: v", "show: 1, 2", "show: 1, 2, 3", "show: v, 2, v, 4", "show: 1, 2, 3, 4, 5", "esc: v, v, v, v, v, v", "def"];
    let f = F[ch.n(F.len())];
    let base = *ch.pick(&["v", "l", "m", "\"x\"", "1", "nosuch"]);
    let e = match ch.n(6) {
        0 => format!("{base} | {f}"),
        1 => format!("{base} | {f} | id"),
        2 => format!("{base} | id | {f}"),
        3 => format!("{base} | id | {f} | id"),
        4 => format!("{base} | {f} | {f}"),
        _ => format!("{base} | {f} | id | show"),
    };
    let pos = POS[ch.n(POS.len())];
    let src = pos.replace("E2", f).replace('E', &e);
    let mut c = Case::new(src, {
        let mut x = ctx(&V::s("s"));
        if let V::Map(m) = &mut x {
            m.insert("e".into(), V::list([]));
        }
        x
    })
    .temp("t", "T")
    .writer(true);
    c.funcs = T;
    c.deff = *ch.pick(&[DefFmt::Builtin, DefFmt::Show]);
    check(&c, M, rec)
}

/// Only emitted values reach the default formatter, each once.
fn documents(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const K: &[Kind] = &[Kind::Emit, Kind::EmitEnds, Kind::IfElse, Kind::For, Kind::ForMap, Kind::With, Kind::Include, Kind::IncludeWith];
    let mut s = Skel::new(if rec.thorough() { 5 } else { 4 }, K);
    let src = s.body(ch).replace("%}", "%}<").replace("}}", "}}{# {{ no }} #}<");
    let mut c = Case::new(src, Skel::ctx()).temp("inc", Skel::INC).writer(true);
    c.deff = *ch.pick(&[DefFmt::Show, DefFmt::Esc]);
    check(&c, M, rec)
}

/// Which formatter a name is.
fn names(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const N: &[&str] = &["f", "g", "F", "é", "_", "f1", "loop", "v", "default", "none", "up", "ff"];
    let funcs: &'static [(&'static str, Fun)] = &[
        ("f", Fun::P(Fmt::Show)),
        ("g", Fun::P(Fmt::Esc)),
        ("é", Fun::P(Fmt::Twice)),
        ("_", Fun::P(Fmt::Err)),
        ("loop", Fun::P(Fmt::Show)),
        ("v", Fun::P(Fmt::Twice)),
        ("default", Fun::P(Fmt::Esc)),
        ("up", Fun::F(Flt::Up)),
    ];
    let n = *ch.pick(N);
    let m = *ch.pick(N);
    let pos = *ch.pick(&[
        "a{{ v | N }}b{{ f | M }}",
        "a{{ v | up | N }}b{{ f | M | N }}",
        "{% if e %}{{ v | N }}{% endif %}{% for x in l %}{{ x | N }}{{ x | M }}{% endfor %}",
        "{% with v as f %}{{ f | M }}{{ f }}{{ f | N }}{% endwith %}",
        "{% include \"t\" %}{{ v | M }}",
    ]);
    let ctx = V::map([("v", V::s("s<")), ("f", V::s("var")), ("e", V::s("")), ("l", V::list([V::s("x")]))]);
    let mut c = Case::new(pos.replace('N', n).replace('M', m), ctx)
        .temp("t", "[{{ v | N }}]".replace('N', n))
        .writer(true);
    c.funcs = funcs;
    c.deff = *ch.pick(&[DefFmt::Builtin, DefFmt::Esc]);
    check(&c, M, rec)
}

fn sizes(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let all: Vec<usize> = SIZES.iter().chain(BIG).copied().collect();
    let n = *ch.pick(&all);
    let (src, v) = match ch.n(6) {
        0 => ("a{{ v }}b", V::Str("é".repeat(n))),
        1 => ("a{{ v | show }}b{{ v | twice }}c", V::Str("x\n".repeat(n.min(20000)))),
        2 => ("{{ v | esc }}{{ v }}", V::Str("<a".repeat(n.min(5000)))),
        3 => ("{% for x in v %}{{ x }}{% endfor %}", V::list((0..n as i64).map(V::Int))),
        4 => ("{% for x in v %}{{ x | show }},{% endfor %}", V::list((0..n.min(10000)).map(|i| V::Float(i as f64 / 8.0)))),
        _ => ("{{ v.0 | show }}{{ v | show }}", V::list((0..n.min(10000) + 1).map(|i| V::Bool(i % 3 == 0)))),
    };
    let mut c = Case::new(src, V::map([("v", v)])).writer(ch.flag());
    c.funcs = T;
    check(&c, M, rec)
}
