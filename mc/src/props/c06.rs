//! C06: paths.

use crate::explore::{Ch, Rec};
use crate::props::gen::SIZES;
use crate::run::{check, Case, Mask, Mode, PLAIN};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        level: "model_checking",
        rule: "every path within the bounds, into every shape, from every kind of source and in every position, is rendered by the implementation and by the reference machine; a trace counts when all templates compile",
        scenarios: vec![
            Scenario { name: "paths", body: paths },
            Scenario { name: "sources", body: sources },
            Scenario { name: "deep", body: deep },
            Scenario { name: "indexes", body: indexes },
            Scenario { name: "keys", body: keys },
            Scenario { name: "ladders", body: ladders },
        ],
        apart: &[],
    }
}

const M: Mask = Mask {
    partial: true,
    ..PLAIN
};

fn shapes() -> Vec<V> {
    let i = V::Int;
    let m = |k: &str, v: V| V::map([(k, v)]);
    vec![
        V::None,
        i(7),
        V::Bool(false),
        V::Float(1.5),
        V::s("str"),
        V::s(""),
        V::list([]),
        V::map::<_, &str>([]),
        V::list([i(10)]),
        V::list([V::None, i(11)]),
        V::list([V::list([i(1), i(2)]), m("a", i(3)), V::s("z")]),
        m("a", i(4)),
        m("a", V::None),
        V::map([("a", m("a", i(5))), ("b", V::list([i(6), m("b", i(7))]))]),
        V::map([("a", m("b", m("a", i(8)))), ("b", V::s("x"))]),
        V::map([("a", V::list([V::list([m("a", i(9)), V::None])])), ("c", V::None)]),
        V::map([("a", V::s("s")), ("b", V::map::<_, &str>([]))]),
        V::map([("a", V::list([])), ("b", i(0))]),
    ]
}

fn seg(ch: &mut Ch) -> String {
    let op = *ch.pick(&[".", "?."]);
    let k = *ch.pick(&["a", "b", "0", "1", "2"]);
    format!("{op}{k}")
}

/// Every path of up to three steps into every shape, in the context.
fn paths(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let v = ch.pick(&shapes()).clone();
    let mut p = String::from("v");
    let n = ch.n(if rec.thorough() { 5 } else { 4 });
    for _ in 0..n {
        p.push_str(&seg(ch));
    }
    let tag = ch.pick(&["<{{ P | show }}>", "<{{ P }}>"]).replace('P', &p);
    let c = Case::new(tag, V::map([("v", v)])).mode(*ch.pick(&[Mode::From, Mode::Fn])).writer(true);
    check(&c, M, rec)
}

/// Where a value can come from: text before, the name it has, text after.
const SOURCES: &[(&str, &str, &str)] = &[
    ("", "v", ""),
    ("{% with v as x %}", "x", "{% endwith %}"),
    ("{% with v | rid as x %}", "x", "{% endwith %}"),
    ("{% with v as v %}", "v", "{% endwith %}"),
    ("{% for x in l %}", "x", "{% endfor %}"),
    ("{% for x in l | rid %}", "x", "{% endfor %}"),
    ("{% for k, x in m %}", "x", "{% endfor %}"),
    ("{% for k, x in m | rid %}", "x", "{% endfor %}"),
    ("{% for k, x in m %}", "k", "{% endfor %}"),
    ("{% for k, x in m | rid %}", "k", "{% endfor %}"),
    ("{% for x in l %}", "loop", "{% endfor %}"),
    ("{% for k, x in m | rid %}", "loop", "{% endfor %}"),
    ("", "m.p", ""),
    ("", "m?.p", ""),
    ("", "m?.zz", ""),
    ("", "zz", ""),
    ("{% with w as v %}{% endwith %}", "v", ""),
    ("{% for x in ll %}{% for y in x %}", "y", "{% endfor %}{% endfor %}"),
];

const POS: &[&str] = &[
    "<{{ P | show }}>",
    "<{{ P }}>",
    "<{% if P %}T{% else %}F{% endif %}>",
    "<{% if not P %}T{% else %}F{% endif %}>",
    "<{% with P as q %}{{ q | show }}{% endwith %}>",
    "<{% for q in P %}[{{ q | show }}]{% endfor %}>",
    "<{% for q, r in P %}[{{ q }}:{{ r | show }}]{% endfor %}>",
    "<{{ P | rid | show }}>",
    "<{{ P | id | show }}>",
    "<{{ 1 | pair: P | show }}>",
    "<{{ 1 | trip: P, P | show }}>",
    "<{{ P | pair: P | show }}>",
    "<{% include \"in\" with P %}>",
    "<{% include \"in2\" %}>",
];

fn sources(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let v = ch.pick(&shapes()).clone();
    let &(pre, name, post) = ch.pick(SOURCES);
    let mut p = String::from(name);
    let n = ch.n(if rec.thorough() { 4 } else { 3 });
    let is_loop = name == "loop";
    for _ in 0..n {
        if is_loop {
            let op = *ch.pick(&[".", "?."]);
            let k = *ch.pick(&["index", "first", "last", "a", "0", "length"]);
            p.push_str(&format!("{op}{k}"));
        } else {
            p.push_str(&seg(ch));
        }
    }
    let pos = ch.pick(POS).replace('P', &p);
    let ctx = V::map([
        ("l", V::list([v.clone(), V::s("2nd")])),
        ("ll", V::list([V::list([v.clone()])])),
        ("m", V::map([("p", v.clone()), ("qq", V::s("2nd"))])),
        ("w", V::map([("a", V::s("wrong")), ("b", V::s("wrong"))])),
        ("v", v),
    ]);
    let c = Case::new(format!("{pre}{pos}{post}"), ctx)
        .temp("in", "{{ a | show }}{{ b?.a | show }}")
        .temp("in2", format!("{{{{ {p} | show }}}}"))
        .writer(true);
    check(&c, M, rec)
}

/// Every mix of access kinds along paths that stop fitting at any point.
fn deep(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = ch.range(1, if rec.thorough() { 7 } else { 6 });
    let stop = ch.range(0, n);
    let end = ch
        .pick(&[
            V::None,
            V::Int(1),
            V::s("abc"),
            V::list([]),
            V::map::<_, &str>([]),
            V::list([V::Int(5)]),
            V::map([("a", V::Int(6))]),
            V::map([("d", V::Int(6))]),
        ])
        .clone();
    let shape = ch.n(2);
    // Built from the inside: `stop` steps lead to `end`.
    let mut v = end;
    let mut p = String::new();
    for i in 0..n {
        let op = *ch.pick(&[".", "?."]);
        let idx = (i + shape) % 2 == 0;
        p.push_str(&format!("{op}{}", if idx { "0" } else { "a" }));
    }
    for i in (0..stop).rev() {
        v = if (i + shape) % 2 == 0 { V::list([v, V::s("other")]) } else { V::map([("a", v), ("b", V::s("other"))]) };
    }
    let (src, ctx) = match ch.n(4) {
        0 => (format!("{{{{ r{p} | show }}}}"), V::map([("r", v)])),
        1 => (format!("{{% for x in l %}}{{{{ x{p} | show }}}}{{% endfor %}}"), V::map([("l", V::list([v]))])),
        2 => (format!("{{% for x in l | rid %}}{{{{ x{p} | show }}}}{{% endfor %}}"), V::map([("l", V::list([v]))])),
        _ => (format!("{{% with r | rid as x %}}{{{{ 0 | pair: x{p} | show }}}}{{% endwith %}}"), V::map([("r", v)])),
    };
    check(&Case::new(src, ctx).writer(true), M, rec)
}

fn indexes(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = *ch.pick(&[0usize, 1, 2, 3, 9, 10, 11, 99, 100, 101, 255, 256, 257]);
    let idx = ch
        .pick(&[
            "0", "1", "2", "3", "8", "9", "10", "11", "00", "01", "007", "010", "98", "99", "100", "101", "102", "254", "255", "256",
            "257", "258", "65535", "65536", "4294967295", "4294967296", "4294967297", "9223372036854775807",
            "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617",
            "36893488147419103232", "99999999999999999999999999999999999999999999999",
            "00000000000000000000000000000000000000001", "0a", "1_0", "0x0", "1e0", "-1", "+1", "٣",
        ])
        .to_string();
    let op = *ch.pick(&[".", "?."]);
    let tail = *ch.pick(&["", ".0", "?.0", ".a"]);
    let from = ch.n(3);
    let l = V::list((0..n).map(|i| V::Int(i as i64)));
    // A map that has the digits as a key is still not a list.
    let ctx = match from {
        0 => V::map([("l", l)]),
        1 => V::map([("l", V::map([("0", V::s("key")), ("1", V::s("key")), (idx.as_str(), V::s("key"))]))]),
        _ => V::map([("l", V::s("0123456789"))]),
    };
    let c = Case::new(format!("{{{{ l{op}{idx}{tail} | show }}}}"), ctx).writer(true);
    check(&c, M, rec)
}

/// Names that are similar are different.
fn keys(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const KS: &[&str] = &[
        "a", "A", "aa", "ab", "_", "__", "_a", "a_", "a1", "a0", "é", "e\u{301}", "ñ", "日本", "日", "Ж", "ß", "index", "first",
        "last", "loop", "ifx", "iff", "nota", "none", "null", "None", "True", "endif_", "r", "self",
    ];
    let have = *ch.pick(KS);
    let want = *ch.pick(KS);
    let how = ch.n(7);
    let mut ctx = V::map([("m", V::map([(have, V::s("got")), ("zz", V::s("other"))])), ("l", V::list([V::map([(have, V::s("got"))])]))]);
    if let V::Map(m) = &mut ctx {
        m.insert(if have == "m" || have == "l" { "x".into() } else { have.into() }, V::s("root"));
    }
    let src = match how {
        0 => format!("{{{{ m.{want} }}}}"),
        1 => format!("{{{{ m?.{want} }}}}"),
        2 => format!("{{{{ {want} }}}}"),
        3 => format!("{{% for x in l %}}{{{{ x.{want} }}}}{{% endfor %}}"),
        4 => format!("{{% for x in l | rid %}}{{{{ x?.{want} }}}}{{% endfor %}}"),
        5 => format!("{{% with 1 as {have} %}}{{{{ {want} }}}}{{% endwith %}}"),
        _ => format!("{{% include \"t\" with m %}}"),
    };
    let c = Case::new(src, ctx).temp("t", format!("{{{{ {want} }}}}")).writer(true);
    check(&c, M, rec)
}

/// Long paths and wide containers.
fn ladders(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = *ch.pick(SIZES);
    let how = ch.n(6);
    let op = *ch.pick(&[".", "?."]);
    let (src, ctx) = match how {
        0 | 1 => {
            let mut v = V::s("end");
            let mut p = String::new();
            for i in 0..n {
                if how == 0 || i % 2 == 0 {
                    v = V::map([("a", v), ("b", V::Int(i as i64))]);
                } else {
                    v = V::list([v, V::Int(i as i64)]);
                }
            }
            for i in 0..n {
                p.push_str(op);
                p.push_str(if how == 0 || (n - 1 - i) % 2 == 0 { "a" } else { "0" });
            }
            (format!("{{{{ r{p} }}}}"), V::map([("r", v)]))
        }
        2 => (
            format!("{{{{ r{op}{n} | show }}}}|{{{{ r{op}{} | show }}}}", n + 1),
            V::map([("r", V::list((0..n + 1).map(|i| V::Int(i as i64))))]),
        ),
        3 => (
            format!("{{{{ r{op}k{n} | show }}}}|{{{{ r{op}k{} | show }}}}", n + 1),
            V::map([("r", V::map((0..n + 1).map(|i| (format!("k{i}"), V::Int(i as i64)))))]),
        ),
        4 => {
            let k = "k".repeat(n + 1);
            (format!("{{{{ r{op}{k} | show }}}}|{{{{ r?.{k}k | show }}}}"), V::map([("r", V::map([(k, V::Int(1))]))]))
        }
        // The missing part is in the middle.
        _ => {
            let tail = format!("{op}a").repeat(n);
            (format!("{{{{ r?.x{tail} | show }}}}"), V::map([("r", V::map([("a", V::Int(1))]))]))
        }
    };
    check(&Case::new(src, ctx).writer(true), M, rec)
}
