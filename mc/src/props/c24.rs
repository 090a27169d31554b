//! C24: what compiling and rendering cost.
//!
//! A family is a way to make something bigger by repeating a part of it. Every
//! family within the bounds is carried out at several sizes in a build that
//! counts (see cost.rs), and the growth of every kind of cost is judged. The
//! counts are exact and repeatable; no time is measured.

use std::collections::BTreeMap;
use std::io;

use upon::{Engine, Value};

use crate::cost::{measure, Cost};
use crate::explore::{fnv, Ch, Rec, FNV0};
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        level: "exploration",
        rule: "every family of growing templates, contexts and engines within the bounds is carried out at four sizes on the implementation, built with a counter at every basic block, in the allocator and in the functions that move memory; the growth of each count has to be at most linear (or constant where nothing bigger is used); an evaluation is one family; distinct_nontrivial counts the different (family, costs) pairs",
        scenarios: vec![
            Scenario { name: "repeated", body: repeated },
            Scenario { name: "tokens", body: tokens },
            Scenario { name: "nested", body: nested },
            Scenario { name: "loops", body: loops },
            Scenario { name: "unused", body: unused },
            Scenario { name: "includes", body: includes },
            Scenario { name: "values", body: values },
            Scenario { name: "engines", body: engines },
            Scenario { name: "again", body: again },
        ],
        apart: &[],
    }
}

/// `k` times 1, 4, 8 and 16.
fn sizes(k: usize) -> [usize; 4] {
    [k, 4 * k, 8 * k, 16 * k]
}
const K: usize = 64;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Grow {
    /// With the size; the stack does not grow.
    Flat,
    /// With the size.
    Linear,
    /// With the size times its logarithm.
    Log,
    /// Not at all, or with the logarithm.
    Not,
}

/// Judges one kind of work at the sizes of `k`.
fn judge(what: &str, k: usize, c: &[Cost], g: Grow, streamed: bool) -> Result<(), String> {
    let all = |f: fn(&Cost) -> u64| -> Vec<u64> { c.iter().map(f).collect() };
    let bad = |kind: &str, v: &[u64], how: &str| Err(format!("{what}: {kind} {how}: {v:?} at the sizes {:?}", sizes(k)));
    for (kind, f, slack) in [
        ("steps", (|c| c.blocks) as fn(&Cost) -> u64, 3.0),
        ("bytes allocated", |c| c.bytes, 64.0),
        ("bytes allocated at a time", |c| c.peak, 32.0),
        ("bytes moved and compared", |c| c.moved, 32.0),
        ("bytes of stack", |c| c.stack, 4.0),
    ] {
        let v = all(f);
        // For each further part.
        // Quadratic growth doubles this from one pair of sizes to the next.
        let s1 = v[2].saturating_sub(v[1]) as f64 / (4 * k) as f64;
        let s2 = v[3].saturating_sub(v[2]) as f64 / (8 * k) as f64;
        if std::env::var_os("C24_STAT").is_some() && s2 > s1 {
            eprintln!("STAT {kind}|{g:?}|{:.3}|{s1:.1}|{s2:.1}", (s2 - slack) / s1.max(1.0));
        }
        let steps = kind == "steps";
        let flat = g == Grow::Not || g == Grow::Flat && kind == "bytes of stack" || streamed && kind == "bytes allocated at a time";
        if flat {
            // Streaming may remember where it is, but not what it has written:
            // a reference or two for each part, less than a value takes.
            let more = if steps { v[0] / 3 + 200 } else if g == Grow::Not { v[0] / 2 + 2048 } else { 2048 + if kind == "bytes of stack" { 0 } else { 20 * 15 * k as u64 } };
            if v[3] > v[0] + more {
                return bad(kind, &v, "grow although nothing else does");
            }
        } else if s2 > s1 * if g == Grow::Log { 1.5 } else { 1.3 } + slack {
            // A part costs the more the more there are.
            return bad(kind, &v, "grow faster than the input");
        }
    }
    let l: Vec<i64> = c.iter().map(|c| c.left).collect();
    if l[3] > l[0] + 1024 {
        return Err(format!("{what}: bytes that are never given back: {l:?} at the sizes {:?}", sizes(k)));
    }
    Ok(())
}

fn sel(_: &Value, _: &str) -> i64 {
    7
}
fn up(s: &str) -> String {
    s.to_uppercase()
}
fn engine<'e>() -> Engine<'e> {
    let mut e = Engine::new();
    e.add_filter("up", up);
    e.add_filter("id", |v: Value| v);
    e.add_filter("one", |v: Value| vec![v]);
    e.add_filter("mk", |v: Value| Value::from([("m", v)]));
    e.add_filter("rid", |_: &Value| 7i64);
    e.add_filter("sel", sel);
    e.add_formatter("show", |f: &mut upon::fmt::Formatter<'_>, v: &Value| {
        use std::fmt::Write as _;
        f.write_str(match v {
            Value::List(_) => "list",
            Value::Map(_) => "map",
            _ => "else",
        })?;
        Ok(())
    });
    e.add_template("inc", "<{{ k }}>").unwrap();
    e.add_template("plain", "p").unwrap();
    e.set_max_include_depth(5000);
    e
}
fn ctx() -> Vec<(&'static str, Value)> {
    let m = || Value::from([("j", 1i64), ("k", 2), ("z", 3)]);
    vec![
        ("v", "val".into()),
        ("a", "aaa".into()),
        ("n", 3i64.into()),
        ("wide", "wide ".repeat(20).into()),
        ("t", true.into()),
        ("k", "kay".into()),
        ("l", vec![1i64, 2].into()),
        ("m", Value::from([("j", Value::from(1i64)), ("k", m()), ("z", Value::None)])),
        ("small", vec![m(), m()].into()),
    ]
}

/// The costs of compiling and of rendering in every way.
#[derive(Default)]
struct Costs {
    compile: Vec<Cost>,
    string: Vec<Cost>,
    writer: Vec<Cost>,
    function: Vec<Cost>,
    /// Whether it rendered.
    fine: bool,
}

fn run(e: &Engine<'_>, src: &str, ctx: &Value, out: &mut Costs) {
    let (c, t) = measure(|| e.compile(src));
    // Given back with the template.
    let (d, t) = match t {
        Ok(t) => (Cost::default(), Some(t)),
        Err(err) => (measure(|| drop(err)).0, None),
    };
    let mut c = c;
    if t.is_none() {
        c.left += d.left;
    }
    out.fine = false;
    if let Some(t) = t {
        let (s, r) = measure(|| t.render_from(e, ctx).to_string().map(drop));
        out.fine = r.is_ok();
        out.string.push(plus_drop(s, r));
        let (s, r) = measure(|| t.render_from(e, ctx).to_writer(io::sink()));
        out.writer.push(plus_drop(s, r));
        let f = |path: &[upon::ValueMember<'_>]| -> Result<Value, String> {
            let (Value::Map(m), Some(upon::ValueMember { access: upon::ValueAccess::Key(k), .. })) = (ctx, path.first()) else {
                return Err("no".into());
            };
            // No bigger than needed.
            match m.get(*k) {
                Some(Value::List(l)) if path.len() > 1 => Ok(l.first().cloned().unwrap_or(Value::None)),
                Some(v) => Ok(v.clone()),
                None => Err("no".into()),
            }
        };
        let (s, r) = measure(|| t.render_from_fn(e, f).to_string().map(drop));
        out.function.push(plus_drop(s, r));
        let (d, ()) = measure(|| drop(t));
        c.left += d.left;
        c.stack = c.stack.max(d.stack);
        c.blocks += d.blocks;
    }
    if !crate::cost::COUNTED || c.blocks == 0 {
        eprintln!("C24 needs the build that counts (check.sh)");
        std::process::exit(2);
    }
    out.compile.push(c);
}
fn plus_drop<T>(mut c: Cost, r: T) -> Cost {
    let (d, ()) = measure(|| drop(r));
    c.left += d.left;
    c
}

/// A template and a context for every size, on one engine.
fn family(rec: &mut Rec, k: usize, e: &Engine<'_>, compile: Grow, render: Grow, function: bool, streamed: bool, name: &str, make: impl Fn(usize) -> (String, Value)) -> Result<(), String> {
    let mut out = Costs::default();
    // What is made at the first use does not count.
    let (s, c) = make(2);
    run(e, &s, &c, &mut Costs::default());
    for n in sizes(k) {
        let (s, c) = make(n);
        run(e, &s, &c, &mut out);
    }
    let mut h = fnv(FNV0, name.as_bytes());
    for c in out.compile.iter().chain(&out.string).chain(&out.writer) {
        h = fnv(h, &c.blocks.to_le_bytes());
        rec.transitions += c.blocks;
    }
    rec.traces += 1;
    rec.nontrivial += u64::from(out.fine);
    rec.state(h);
    rec.outcome(out.compile[3].blocks);
    rec.sample(|| format!("{name}: compile {:?} render {:?}", out.compile, out.writer));
    let r = judge("compiling", k, &out.compile, compile, false)
        .and_then(|()| if out.string.len() == 4 { judge("rendering to a string", k, &out.string, render, false) } else { Ok(()) })
        .and_then(|()| if out.writer.len() == 4 { judge("rendering to a writer", k, &out.writer, render, streamed && out.fine) } else { Ok(()) })
        .and_then(|()| if function && out.function.len() == 4 { judge("rendering from a function", k, &out.function, render, false) } else { Ok(()) });
    r.map_err(|m| format!("{name}\n{m}\nat size 2: {:?}", make(2).0))
}

const PIECES: &[&str] = &[
    "x", " ", "\n", "é", "日\r\n", "{", "}", "-", "a longer text that has some words in it\n", "{{ v }}", "{{- v -}}", "{{ m.k.j }}", "{{ m?.y?.z }}", "{{ l.1 }}", "{{ \"s\\n\" }}", "{{ 12 }}",
    "{{ -0.5 }}", "{{ v | up }}", "{{ v | show }}", "{{ n | sel: v }}", "{{ v | id | up }}", "{% if t %}x{% endif %}", "{% if not t %}x{% else if n %}y{% else %}z{% endif %}",
    "{% for x in l %}{{ x }}{% endfor %}", "{% for k, x in m %}{{ k }}{% endfor %}", "{% for x in l | id %}{{ x }}{{ loop.last }}{% endfor %}", "{% with v as y %}{{ y }}{% endwith %}",
    "{% with m | id as y %}{{ y.j }}{% endwith %}", "{% include \"inc\" %}", "{% include \"inc\" with m.k %}", "{# comment #}", "{#- c -#}", "{{ 0x1f }}", "{% for x in small %}{{ x.k }}{% endfor %}",
];

/// One or two pieces (three, in the thorough tier), over and over.
fn repeated(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const AROUND: &[(&str, &str)] = &[
        ("", ""),
        ("", "{{ nope }}"),
        ("", "{% endif %}"),
        ("", "{{ v"),
        ("", "{{ v | nope }}"),
        ("{% for i in l %}", "{% endfor %}"),
        ("{% if t %}", "{% else %}x{% endif %}"),
        ("{% if not t %}", "{% endif %}"),
        ("{% with m as w %}", "{% endwith %}"),
        ("{% if t %}", ""),
    ];
    let n = ch.range(1, if rec.thorough() { 3 } else { 2 });
    let unit: String = (0..n).map(|_| PIECES[ch.n(PIECES.len())]).collect();
    let (a, b) = AROUND[if n == 1 || rec.thorough() && n == 2 { ch.n(AROUND.len()) } else { 0 }];
    let e = engine();
    family(rec, K, &e, Grow::Flat, Grow::Flat, true, true, &format!("{a}({unit})*{b}"), |n| (format!("{a}{}{b}", unit.repeat(n)), Value::from_iter(ctx())))
}

/// Tokens inside of a tag.
fn tokens(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const T: &[&str] = &[
        " | id", " | up", " | sel: v", "| rid", ".k", "?.k", ".0", "?.0", ", v", ", 1", ", \"s\"", ", -1", ", m.k", " ", "\t", "1", "-", "+", "a", "é", "_", "0", ".", "?", "|", ":", "\\n", "\\\"", "\\", "#", "{", "\n", "if ", "}",
    ];
    const P: &[(&str, &str)] = &[
        ("{{ v", " }}"),
        ("{{ m", " }}"),
        ("{{ v | sel: v", " }}"),
        ("{{ v | sel: m", " | rid }}"),
        ("{{ \"", "\" }}"),
        ("{{ 1", " }}"),
        ("{{", " v }}"),
        ("{{ v }}{{ v | ", " }}"),
        ("{% if v", " %}x{% endif %}"),
        ("{% for x in l", " %}x{% endfor %}"),
        ("{% with v", " as y %}x{% endwith %}"),
        ("{% include \"inc\" with m", " %}"),
        ("{% include \"", "\" %}"),
        ("{#", "#}"),
        ("{{ nope", " }}"),
        ("{{ v", ""),
        ("{% ", " %}"),
    ];
    let (a, b) = P[ch.n(P.len())];
    let n = ch.range(1, if rec.thorough() { 3 } else { 2 });
    let unit: String = (0..n).map(|_| T[ch.n(T.len())]).collect();
    let e = engine();
    family(rec, K, &e, Grow::Linear, Grow::Linear, true, false, &format!("{a}({unit})*{b}"), |n| (format!("{a}{}{b}", unit.repeat(n)), Value::from_iter(ctx())))
}

/// Blocks in blocks. Names are found in the innermost block or not looked up.
fn nested(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const B: &[(&str, &str)] = &[
        ("{% if 1 %}", "{% endif %}"),
        ("{% if not 1 %}{% else %}", "{% endif %}"),
        ("{% if 0 %}{% else if 1 %}", "{% else %}y{% endif %}"),
        ("{% for b in 1 | one %}", "{% endfor %}"),
        ("{% with 1 as b %}", "{% endwith %}"),
        ("{% with 1 | one as b %}", "{{ b.0 }}{% endwith %}"),
        ("{% if 0 %}y{% else %}", "{% endif %}"),
        ("x{% if 1 %}", "{{ 1 }}{% endif %}"),
    ];
    const M: &[&str] = &["x", "{{ 1 }}", "{{ b }}", "{{ v }}", "{% endfor %}{% endif %}", "{{ nope }}"];
    let n = ch.range(1, if rec.thorough() { 3 } else { 2 });
    let parts: Vec<(&str, &str)> = (0..n).map(|_| B[ch.n(B.len())]).collect();
    let m = M[ch.n(M.len())];
    let open: String = parts.iter().map(|p| p.0).collect();
    let close: String = parts.iter().rev().map(|p| p.1).collect();
    let shape = if n == 1 { ch.n(3) } else { 0 };
    let e = engine();
    family(rec, K, &e, Grow::Linear, Grow::Linear, true, false, &format!("({open})*{m}({close})* {shape}"), |n| {
        let s = match shape {
            0 => format!("{}{m}{}", open.repeat(n), close.repeat(n)),
            // Never closed, and too often.
            1 => format!("{}{m}", open.repeat(n)),
            _ => format!("{{% if 0 %}}{}{m}{{% endif %}}", "{% else if 0 %}x".repeat(n)),
        };
        (s, Value::from_iter(ctx()))
    })
}

fn big(kind: usize, n: usize) -> Value {
    let m = |i: usize| Value::from([("k", Value::from(i as i64)), ("j", "jay".into())]);
    match kind {
        0 => (0..n).map(|i| Value::from(i as i64)).collect::<Vec<_>>().into(),
        1 => (0..n).map(m).collect::<Vec<_>>().into(),
        2 => (0..n).map(|i| (format!("key{i:05}"), m(i))).collect::<BTreeMap<_, _>>().into(),
        3 => (0..n).map(|i| (format!("k{i}"), Value::from("text"))).collect::<BTreeMap<_, _>>().into(),
        4 => (0..n).map(|i| Value::from(vec![i as i64, 2])).collect::<Vec<_>>().into(),
        _ => "é".repeat(n).into(),
    }
}

/// A loop over more and more.
fn loops(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const BODY: &[&str] = &[
        "x", "{{ x | show }}", "{{ loop.index }}", "{{ loop | show }}", "{% if loop.last %}x{% endif %}", "{% if x %}{{ v }}{% endif %}", "{{ v }}", "{{ m.k.j }}", "{{ x | id | show }}", "{% include \"inc\" %}",
        "{% include \"inc\" with m.k %}", "{% include \"plain\" with x %}", "{% with x as y %}{{ y | show }}{% endwith %}", "{% for z in small %}{{ z.k }}{% endfor %}", "{% for z in small | id %}.{% endfor %}",
        "{% for p, q in m | id %}{{ p }}{% endfor %}", "{{ x | rid }}", "{{ x | sel: v }}", "{% with m | id as y %}{{ y.j }}{% endwith %}", "{% if t %}{% else %}{% include \"nope\" %}{% endif %}", "{{ big | show }}",
        "{% if big %}x{% endif %}", "{{ big | rid }}", "{% with big as y %}{{ y | show }}{% endwith %}", "{{ 1 }}", "{{ \"lit\" }}", "{{ wide }}",
    ];
    const OVER: &[&str] = &["big", "big | id", "w.big", "y.0"];
    let kind = ch.n(5);
    let over = OVER[ch.n(OVER.len())];
    let n = ch.range(1, if rec.thorough() { 3 } else { 2 });
    let body: String = (0..n).map(|_| BODY[ch.n(BODY.len())]).collect();
    let vars = if matches!(kind, 2 | 3) { "key, x" } else { "x" };
    let (pre, post) = match over {
        "y.0" => ("{% with w.big | one as y %}", "{% endwith %}"),
        _ => ("", ""),
    };
    let src = format!("{pre}{{% for {vars} in {over} %}}{body}{{% endfor %}}{post}");
    let e = engine();
    // A function gives `big` away whole, and so again for each use.
    let function = !body.contains("big");
    let streamed = matches!(over, "big" | "w.big");
    let k = if n == 1 || rec.thorough() && n == 2 { K } else { K / 4 };
    family(rec, k, &e, Grow::Not, Grow::Flat, function && over != "w.big", streamed, &format!("{src} over {kind}"), |n| {
        let mut c = ctx();
        let b = big(kind, n);
        c.push(("w", Value::from([("big", b.clone())])));
        c.push(("big", b));
        (src.clone(), Value::from_iter(c))
    })
}

/// What is not used may be as big as it likes.
fn unused(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const USE: &[&str] = &[
        "{{ v }}", "{{ big | show }}", "{% if big %}x{% endif %}", "{% if not big %}x{% endif %}", "{{ big.0 | show }}", "{{ big?.key00001 | show }}", "{{ big.k1 }}", "{{ w.big | show }}", "{{ big | rid }}",
        "{{ v | sel: big }}", "{{ big | sel: v }}", "{% with big as y %}{{ y | show }}{% endwith %}", "{% with w as y %}{{ y.big | rid }}{% endwith %}", "{% for x in small %}{{ big | show }}{% endfor %}",
        "{% for x in small %}{% if big %}{{ x.k }}{% endif %}{% endfor %}", "{% include \"plain\" with big %}", "{% include \"plain\" with w %}", "{% include \"inc\" with w %}", "{{ nope }}", "{{ big }}", "{{ big.nope }}", "{{ big.99999999 }}",
        "{% for p, q, in big %}", "{% for x in big.0 %}.{% endfor %}", "{{ v | big }}", "{% include \"big\" %}", "{% with big as y %}{% include \"plain\" %}{{ v }}{% endwith %}", "{{ v }}{{ m.k.j }}",
        "{% for x in l %}{{ x }}{{ w?.nope }}{% endfor %}",
    ];
    let kind = ch.n(11);
    let n = ch.range(1, if rec.thorough() { 3 } else { 2 });
    let src: String = (0..n).map(|_| USE[ch.n(USE.len())]).collect();
    let name = format!("{src} beside {kind}");
    if kind < 6 {
        let e = engine();
        // Strings are written whole.
        if kind == 5 && src.contains("{{ big }}") {
            return Ok(());
        }
        return family(rec, K, &e, Grow::Not, Grow::Not, false, false, &name, |n| {
            let mut c = ctx();
            let b = big(kind, n);
            c.push(("w", Value::from([("big", b.clone()), ("k", 1i64.into())])));
            c.push(("big", b));
            (src.clone(), Value::from_iter(c))
        });
    }
    // Engines with more and more in them.
    let mut out = Costs::default();
    for n in sizes(K) {
        let mut e = engine();
        for i in 0..n {
            match kind {
                6 => drop(e.add_template(format!("t{i}"), "{{ v }} and {{ nope }}")),
                7 => drop(e.add_filter(format!("f{i}"), up)),
                8 => drop(e.add_formatter(format!("f{i}"), upon::fmt::default)),
                // Below: what is included has more and more in it that is not reached.
                _ => break,
            }
        }
        if kind >= 9 {
            let more = if kind == 9 { "text that is long enough to be seen " } else { "{{ v }}{% if nope %}{{ nope }}{% endif %}" }.repeat(n);
            e.add_template("plain", format!("p{{% if k %}}{{% else %}}{more}{{% endif %}}")).expect("a template");
            e.add_template("inc", format!("{{% if k %}}<{{{{ k }}}}>{{% else %}}{more}{{% endif %}}")).expect("a template");
        }
        let mut c = ctx();
        c.push(("big", vec![1i64, 2].into()));
        let mut w = vec![("big", 1i64)];
        if kind >= 9 {
            w.push(("k", 2));
        }
        c.push(("w", Value::from_iter(w)));
        let c = Value::from_iter(c);
        run(&e, &src, &c, &mut Costs::default());
        run(&e, &src, &c, &mut out);
    }
    let mut h = fnv(FNV0, name.as_bytes());
    out.writer.iter().for_each(|c| h = fnv(h, &c.blocks.to_le_bytes()));
    rec.traces += 1;
    rec.transitions += 4;
    rec.state(h);
    if kind >= 9 && !out.fine {
        // An error holds all of the text that it is in.
        return Ok(());
    }
    judge("compiling", K, &out.compile, Grow::Not, false)
        .and_then(|()| if out.string.len() == 4 { judge("rendering", K, &out.string, Grow::Not, false) } else { Ok(()) })
        .map_err(|m| format!("{name}\n{m}"))
}

/// Includes in a row and in each other.
fn includes(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const STEP: &[&str] = &[
        "{% include \"#\" %}",
        "{% include \"#\" with 1 | mk %}{{ 1 }}",
        "{% if 1 %}{% include \"#\" %}{% endif %}",
        "{% for x in 1 | one %}{% include \"#\" with x %}{% endfor %}",
        "{% with 1 as b %}{% include \"#\" with b %}{% endwith %}",
        "x{% include \"#\" with 1 | mk %}y",
        "{% include \"plain\" %}{% include \"#\" %}{% include \"plain\" %}",
    ];
    const LAST: &[&str] = &["x", "{{ 1 }}", "{{ nope }}", "{% include \"nope\" %}", "{{ m | show }}"];
    let n = ch.range(1, 2);
    let steps: Vec<&str> = (0..n).map(|_| STEP[ch.n(STEP.len())]).collect();
    let last = LAST[ch.n(LAST.len())];
    let name = format!("{steps:?} then {last:?}");
    let mut out = Costs::default();
    for n in sizes(K) {
        let mut e = engine();
        // What is included is a map that has `m` again, as deep as it takes.
        for i in 0..n {
            let s = steps[i % steps.len()].replace('#', &format!("t{:05}", i + 1));
            e.add_template(format!("t{i:05}"), s).expect("a template");
        }
        e.add_template(format!("t{n:05}"), last).expect("a template");
        let c = Value::from_iter(ctx());
        run(&e, "{% include \"t00000\" %}", &c, &mut Costs::default());
        run(&e, "{% include \"t00000\" %}", &c, &mut out);
    }
    let mut h = fnv(FNV0, name.as_bytes());
    for c in &out.string {
        h = fnv(h, &c.blocks.to_le_bytes());
        rec.transitions += c.blocks;
    }
    rec.traces += 1;
    rec.nontrivial += u64::from(out.fine);
    rec.state(h);
    rec.outcome(h);
    judge("rendering", K, &out.string, Grow::Log, false).and_then(|()| judge("rendering to a writer", K, &out.writer, Grow::Log, false)).map_err(|m| format!("{name}\n{m}"))
}

/// Making values of bigger and bigger data.
fn values(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let kind = ch.n(6);
    let how = ch.n(5);
    let name = format!("value {kind} made {how}");
    let mut out = vec![];
    for n in sizes(K) {
        let v = big(kind, n);
        let e = engine();
        let t = e.compile("{{ v | show }}").unwrap();
        let make = || match how {
            0 => drop(upon::to_value(&v)),
            1 => drop(v.clone()),
            2 => drop(t.render(&e, upon::value! { v: 1, big: v.clone() }).to_string()),
            3 => drop(t.render(&e, Value::from([("big", v.clone())])).to_string()),
            _ => match &v {
                Value::List(l) => drop(Value::from_iter(l.clone())),
                Value::Map(m) => drop(Value::from_iter(m.clone())),
                v => drop(Value::from(Some(v.clone()))),
            },
        };
        make();
        out.push(measure(make).0);
    }
    rec.traces += 1;
    rec.transitions += out[3].blocks;
    rec.state(fnv(FNV0, format!("{name} {out:?}").as_bytes()));
    judge("making", K, &out, Grow::Log, false).map_err(|m| format!("{name}\n{m}"))
}

/// Engines that get more and more.
fn engines(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let what = ch.n(6);
    let order = ch.n(3);
    let name = format!("engine {what} in order {order}");
    let mut out = vec![];
    for n in sizes(K) {
        let at = |i: usize| match order {
            0 => i,
            1 => n - 1 - i,
            _ => i * 37 % n,
        };
        let names: Vec<String> = (0..n).map(|i| format!("n{:05}", at(i))).collect();
        let work = || {
            let mut e = Engine::new();
            for s in &names {
                match what {
                    0 => drop(e.add_template(s.clone(), "{{ v }} and {{ nope }}")),
                    1 => drop(e.add_filter(s.clone(), up)),
                    2 => drop(e.add_formatter(s.clone(), upon::fmt::default)),
                    3 => {
                        drop(e.add_template(s.clone(), "x"));
                        drop(e.get_template(s));
                        e.remove_template("nope");
                    }
                    4 => {
                        drop(e.add_template("same", "{{ v }}"));
                        drop(e.add_formatter("same", upon::fmt::default));
                    }
                    _ => {
                        drop(e.add_template(s.clone(), "x"));
                        drop(e.add_filter(s.clone(), up));
                        e.remove_template(s);
                        e.remove_function(s);
                    }
                }
            }
        };
        work();
        out.push(measure(work).0);
    }
    rec.traces += 1;
    rec.transitions += out[3].blocks;
    rec.state(fnv(FNV0, format!("{name} {out:?}").as_bytes()));
    judge("registering", K, &out, Grow::Log, false).map_err(|m| format!("{name}\n{m}"))
}

/// The same again and again: nothing is kept, whether it succeeds or fails.
fn again(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const BLOCK: &[(&str, &str)] = &[
        ("", ""),
        ("{% if t %}", "{% endif %}"),
        ("{% for x in l | id %}", "{% endfor %}"),
        ("{% for x in small %}", "{% endfor %}"),
        ("{% for p, x in m | id %}", "{% endfor %}"),
        ("{% with m | id as x %}", "{% endwith %}"),
        ("{% with v | up as x %}", "{% endwith %}"),
    ];
    const END: &[&str] = &[
        "{{ v }}",
        "{{ v | up }}",
        "{{ m | id | show }}",
        "{{ nope }}",
        "{{ v | nope }}",
        "{{ v | fails: m }}",
        "{{ m | id }}",
        "{{ v | broken }}",
        "{% include \"nope\" %}",
        "{% include \"inc\" %}",
        "{% include \"inc\" with m | id %}",
        "{% include \"self\" %}",
        "{% include \"self\" with m | id %}",
        "{% include \"held\" with m | id %}",
        "{% include \"bad\" with m | id %}",
        "{% for y in v %}{% endfor %}",
        "{% for y in m | id %}{% endfor %}",
        "{% for y, z in l | id %}{% endfor %}",
        "{{ v | sel: \"s\\n\", nope }}",
        "{% if nope %}{% endif %}",
    ];
    let mut src = String::new();
    let mut close = String::new();
    for _ in 0..2 {
        let (a, b) = BLOCK[ch.n(BLOCK.len())];
        src.push_str(a);
        close = format!("{b}{close}");
    }
    src.push_str(END[ch.n(END.len())]);
    src.push_str(&close);
    let mut e = engine();
    e.set_max_include_depth(3);
    fn fails(_: &str, _: Value) -> Result<Value, String> {
        Err("a message".into())
    }
    e.add_filter("fails", fails);
    e.add_formatter("broken", |f: &mut upon::fmt::Formatter<'_>, _: &Value| {
        use std::fmt::Write as _;
        f.write_str("some")?;
        Err(upon::fmt::Error::from("a message".to_string()))
    });
    e.add_template("self", "{% with v | up as y %}{% for x in l | id %}{% include \"self\" %}{% endfor %}{% endwith %}").unwrap();
    e.add_template("held", "{% with j | one as y %}{% include \"held\" with k | mk %}{% endwith %}").unwrap();
    e.add_template("bad", "{% with j | one as y %}{{ k | up | one }}{% endwith %}").unwrap();
    let c = Value::from_iter(ctx());
    let t = e.compile(src.as_str()).map_err(|e| format!("{src:?}: {e:#}"))?;
    let mut fine = false;
    // How it is done once.
    let mut kinds: Vec<(&str, Box<dyn FnMut(&mut bool) + '_>)> = vec![
        ("to a string", Box::new(|f| *f = t.render_from(&e, &c).to_string().is_ok())),
        ("to a writer", Box::new(|f| *f = t.render_from(&e, &c).to_writer(io::sink()).is_ok())),
        ("to a full writer", Box::new(|_| drop(t.render_from(&e, &c).to_writer(&mut [0u8; 1][..])))),
        ("from a function", Box::new(|_| {
            let f = |p: &[upon::ValueMember<'_>]| match (&c, p.first()) {
                (Value::Map(m), Some(upon::ValueMember { access: upon::ValueAccess::Key(k), .. })) => m.get(*k).cloned().ok_or("no".to_string()),
                _ => Err("no".to_string()),
            };
            drop(t.render_from_fn(&e, f).to_string())
        })),
        ("with a new context", Box::new(|_| drop(t.render(&e, &c).to_string()))),
        ("never", Box::new(|_| drop(t.render(&e, &c)))),
        ("compiled anew", Box::new(|_| drop(e.compile(src.as_str())))),
        ("compiled anew, broken", Box::new(|_| drop(e.compile(&src[..src.len() - 1])))),
    ];
    let mut h = fnv(FNV0, src.as_bytes());
    for (how, once) in &mut kinds {
        once(&mut fine);
        let mut left = vec![];
        for n in [1, 4, 16] {
            let (c, ()) = measure(|| (0..n).for_each(|_| once(&mut fine)));
            rec.transitions += c.blocks;
            left.push(c.left);
        }
        h = fnv(h, format!("{left:?}").as_bytes());
        if left[2] > 0 && left[2] > left[1] && left[1] > left[0] {
            return Err(format!("{src:?} rendered {how} 1, 4 and 16 times keeps {left:?} bytes"));
        }
    }
    rec.traces += 1;
    rec.nontrivial += u64::from(fine);
    rec.state(h);
    rec.outcome(u64::from(fine));
    Ok(())
}
