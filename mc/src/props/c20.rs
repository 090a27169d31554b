//! C20: the `value!` macro.
//!
//! The invocations are enumerated like every other space, written to a
//! program (in the crate mcro), compiled and run; then each one is judged.

use std::collections::HashMap;
use std::path::PathBuf;
use std::process::Command;
use std::sync::OnceLock;

use crate::explore::{fnv, Ch, Rec, Tier, FNV0};
use crate::funcs::show;
use crate::val::V;
use crate::{fatal, root, Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        level: "model_checking",
        rule: "every invocation of the macro within the bounds is compiled and run; the value and the order of evaluation are compared with those of the tree that was written; a state is a tree, with the way it was written",
        scenarios: vec![
            Scenario { name: "trees", body: trees },
            Scenario { name: "exprs", body: exprs },
            Scenario { name: "keys", body: keys },
            Scenario { name: "sizes", body: sizes },
        ],
        apart: &[],
    }
}

type Gen = fn(&mut Ch, Tier) -> Option<Written>;
const GENS: &[Gen] = &[gen_trees, gen_exprs, gen_keys, gen_sizes];

/// An invocation, what it builds and what it evaluates.
struct Written {
    text: String,
    want: V,
    log: Vec<u32>,
}

/// Writes a value.
#[derive(Default)]
struct Pen {
    text: String,
    log: Vec<u32>,
}
impl Pen {
    fn leaf(&mut self, v: &str) {
        let i = self.log.len() as u32;
        self.text.push_str(&format!("ev({i}, {v})"));
        self.log.push(i);
    }
    fn done(self, want: V) -> Option<Written> {
        Some(Written { text: self.text, want, log: self.log })
    }
}

/// Inserts like a sequence of entries does.
fn to_map(es: Vec<(String, V)>) -> V {
    V::Map(es.into_iter().collect())
}

const NAMES: &[&str] = &["b", "a", "c", "d", "e"];

/// Trees with a number of nodes to spend, and trailing commas or not.
fn body(ch: &mut Ch, pen: &mut Pen, left: &mut usize, depth: usize, map: bool) -> V {
    let mut es = vec![];
    let mut k = 0;
    while *left > 0 && k < NAMES.len() {
        if !ch.flag() {
            break;
        }
        *left -= 1;
        if k > 0 {
            pen.text.push_str(", ");
        }
        if map {
            pen.text.push_str(NAMES[k]);
            pen.text.push_str(": ");
        }
        let v = match ch.n(if depth > 0 { 4 } else { 2 }) {
            0 => {
                let n = pen.log.len() as i64;
                pen.leaf(&n.to_string());
                V::Int(n)
            }
            1 => {
                pen.text.push_str("None");
                V::None
            }
            2 => {
                pen.text.push('[');
                let v = body(ch, pen, left, depth - 1, false);
                pen.text.push(']');
                v
            }
            _ => {
                pen.text.push('{');
                let v = body(ch, pen, left, depth - 1, true);
                pen.text.push('}');
                v
            }
        };
        es.push((NAMES[k].to_string(), v));
        k += 1;
    }
    if k > 0 && ch.flag() {
        pen.text.push(',');
    }
    match map {
        true => to_map(es),
        false => V::list(es.into_iter().map(|e| e.1)),
    }
}

fn gen_trees(ch: &mut Ch, tier: Tier) -> Option<Written> {
    let mut pen = Pen::default();
    let mut left = if tier == Tier::Thorough { 5 } else { 3 };
    let v = body(ch, &mut pen, &mut left, 3, true);
    pen.done(v)
}

/// Expressions and what they serialize to.
fn forms() -> Vec<(&'static str, V)> {
    let ints = |l: &[i64]| V::list(l.iter().map(|i| V::Int(*i)));
    vec![
        ("1", V::Int(1)),
        ("-1", V::Int(-1)),
        ("- 2i8", V::Int(-2)),
        ("9223372036854775807u64", V::Int(i64::MAX)),
        ("1.5", V::Float(1.5)),
        ("-0.5f32", V::Float(-0.5)),
        ("true", V::Bool(true)),
        ("false", V::Bool(false)),
        ("!false", V::Bool(true)),
        ("\"s\"", V::s("s")),
        ("\"\"", V::s("")),
        ("r#\"a\"b\"#", V::s("a\"b")),
        ("'c'", V::s("c")),
        ("x", V::Int(41)),
        ("map", V::s("mine")),
        ("&*s", V::s("str")),
        ("s.clone()", V::s("str")),
        ("s.len() + 1", V::Int(4)),
        ("ys[1]", V::Int(20)),
        ("ys[0] as f64", V::Float(10.0)),
        ("&ys[..2]", ints(&[10, 20])),
        ("two(1, 2)", V::Int(12)),
        ("S { f: 3 }.f", V::Int(3)),
        ("S { f: 3 }.get(two(0, 1))", V::Int(4)),
        ("std::vec![1, 2]", ints(&[1, 2])),
        ("std::vec![None, Some(1)]", V::list([V::None, V::Int(1)])),
        ("std::vec![0u8; 2]", ints(&[0, 0])),
        ("(1, \"t\")", V::list([V::Int(1), V::s("t")])),
        ("(1)", V::Int(1)),
        ("()", V::None),
        ("Some(5)", V::Int(5)),
        ("Option::<i64>::None", V::None),
        ("Option::Some(None::<bool>)", V::None),
        ("if x > 1 { 1 } else { 2 }", V::Int(1)),
        ("match x { 0 => \"zero\", _ => \"more\" }", V::s("more")),
        ("x < 3", V::Bool(false)),
        ("x == 41 && ys.len() == 3", V::Bool(true)),
        ("K", V::Int(12)),
        ("mcro::K", V::Int(12)),
        ("i64::max(2, 3)", V::Int(3)),
        ("<i64>::max(2, 3)", V::Int(3)),
        ("ys.iter().map(|y| y + 1).collect::<Vec<i64>>()", ints(&[11, 21, 31])),
        ("(|a: i64, b: i64| a - b)(5, 3)", V::Int(2)),
        ("std::collections::BTreeMap::from([(\"k\", 1)])", V::map([("k", V::Int(1))])),
        ("other::Value::Integer(6)", V::Int(6)),
        ("other::Value::None", V::None),
        ("other::value! { q: [1, None] }", V::map([("q", V::list([V::Int(1), V::None]))])),
        ("other::to_value(7).unwrap()", V::Int(7)),
        ("format!(\"{}-{}\", 1, x)", V::s("1-41")),
        ("unsafe { x }", V::Int(41)),
        ("loop { break 8 }", V::Int(8)),
        ("[1, 2]", ints(&[1, 2])),
        ("[]", ints(&[])),
        ("[[]]", V::list([V::List(vec![])])),
        ("{}", V::Map(Default::default())),
        ("{ z: None }", V::map([("z", V::None)])),
        ("{ z: { z: x, }, }", V::map([("z", V::map([("z", V::Int(41))]))])),
        ("None", V::None),
    ]
}

/// Every form in every place.
fn gen_exprs(ch: &mut Ch, tier: Tier) -> Option<Written> {
    let fs = forms();
    let (f, v) = &fs[ch.n(fs.len())];
    let map = ch.flag();
    let before = ch.n(if tier == Tier::Thorough { 4 } else { 2 });
    let after = ch.n(if tier == Tier::Thorough { 4 } else { 3 });
    let comma = ch.flag();
    let mut pen = Pen::default();
    let mut es = vec![];
    let side = |pen: &mut Pen, kind| match kind {
        1 => {
            pen.leaf("'l'");
            V::s("l")
        }
        2 => {
            pen.text.push_str("None");
            V::None
        }
        _ => {
            pen.text.push_str("[{}]");
            V::list([V::Map(Default::default())])
        }
    };
    pen.text.push_str(if map { "m: {" } else { "m: [" });
    for (i, kind) in [before, 4, after].into_iter().enumerate() {
        if kind == 0 {
            continue;
        }
        if !es.is_empty() {
            pen.text.push_str(", ");
        }
        if map {
            pen.text.push_str(&format!("{}: ", NAMES[i]));
        }
        let x = match kind {
            4 => {
                pen.text.push_str(f);
                v.clone()
            }
            k => side(&mut pen, k),
        };
        es.push((NAMES[i].to_string(), x));
    }
    if comma {
        pen.text.push(',');
    }
    pen.text.push(if map { '}' } else { ']' });
    // And once at the top.
    let top = ch.flag();
    if top {
        pen.text.push_str(", n: ");
        pen.text.push_str(f);
        if comma {
            pen.text.push(',');
        }
    }
    let inner = match map {
        true => to_map(es),
        false => V::list(es.into_iter().map(|e| e.1)),
    };
    let mut all = vec![("m".to_string(), inner)];
    if top {
        all.push(("n".into(), v.clone()));
    }
    pen.done(to_map(all))
}

/// Keys of all kinds, and keys that come again.
fn gen_keys(ch: &mut Ch, tier: Tier) -> Option<Written> {
    const KEYS: &[&str] = &[
        "a", "b", "B", "_a", "a_1", "é", "map", "elems", "value", "key", "type", "fn", "None", "Some", "Ok", "true", "self", "Self", "crate", "rest", "copy", "upon", "vec", "u8", "if",
        "loop", "r1", "日本",
    ];
    let mut pen = Pen::default();
    let mut es = vec![];
    let nested = ch.flag();
    if nested {
        pen.text.push_str("o: {");
    }
    if ch.flag() {
        // A key alone, and next to another one.
        let k = KEYS[ch.n(KEYS.len())];
        pen.text.push_str(&format!("{k}: "));
        pen.leaf("1");
        es.push((k.to_string(), V::Int(1)));
        if ch.flag() {
            pen.text.push_str(", zz: None, ");
            es.push(("zz".into(), V::None));
        }
    } else {
        let n = ch.range(2, if tier == Tier::Thorough { 4 } else { 3 });
        for i in 0..n {
            let k = KEYS[ch.n(2)];
            pen.text.push_str(&format!("{k}: "));
            let v = match ch.n(if i > 0 { 3 } else { 2 }) {
                0 => {
                    let s = format!("{i}");
                    pen.leaf(&s);
                    V::Int(i as i64)
                }
                1 => {
                    pen.text.push_str("None");
                    V::None
                }
                _ => {
                    pen.text.push_str("{ b: [");
                    pen.leaf("2");
                    pen.text.push_str("] }");
                    V::map([("b", V::list([V::Int(2)]))])
                }
            };
            pen.text.push_str(", ");
            es.push((k.to_string(), v));
        }
    }
    let v = to_map(es);
    if nested {
        pen.text.push('}');
        return pen.done(V::map([("o", v)]));
    }
    pen.done(v)
}

/// Many entries, and deep nests.
fn gen_sizes(ch: &mut Ch, tier: Tier) -> Option<Written> {
    let top = if tier == Tier::Thorough { 60 } else { 24 };
    let n = ch.range(0, top);
    let mut pen = Pen::default();
    let comma = ch.flag();
    let v = match ch.n(4) {
        0 => {
            let mut es = vec![];
            for i in (0..n).rev() {
                pen.text.push_str(&format!("k{i}: "));
                pen.leaf(&i.to_string());
                pen.text.push_str(if i > 0 || comma { ", " } else { "" });
                es.push((format!("k{i}"), V::Int(i as i64)));
            }
            to_map(es)
        }
        1 => {
            pen.text.push_str("l: [");
            for i in 0..n {
                pen.leaf(&i.to_string());
                pen.text.push_str(if i + 1 < n || comma { ", " } else { "" });
            }
            pen.text.push(']');
            V::map([("l", V::list((0..n as i64).map(V::Int)))])
        }
        2 => {
            pen.text.push_str("l: ");
            pen.text.push_str(&"[".repeat(n));
            pen.leaf("0");
            for _ in 0..n {
                pen.text.push_str(if comma { ", ]" } else { "]" });
            }
            V::map([("l", (0..n).fold(V::Int(0), |v, _| V::list([v])))])
        }
        _ => {
            pen.text.push_str("l: ");
            pen.text.push_str(&"{ l: ".repeat(n));
            pen.text.push_str("None");
            for _ in 0..n {
                pen.text.push_str(if comma { ", }" } else { "}" });
            }
            V::map([("l", (0..n).fold(V::None, |v, _| V::map([("l", v)])))])
        }
    };
    pen.done(v)
}

/// Every sequence of choices of a generator, with what it wrote.
fn enumerate(g: Gen, tier: Tier) -> Vec<Written> {
    let mut out = vec![];
    let mut prefix: Vec<u32> = vec![];
    loop {
        let mut ch = Ch::free(&prefix);
        out.extend(g(&mut ch, tier));
        let mut taken = ch.taken();
        loop {
            match taken.pop() {
                None => return out,
                Some((c, n)) if c + 1 < n => {
                    prefix = taken.iter().map(|t| t.0).collect();
                    prefix.push(c + 1);
                    break;
                }
                Some(_) => {}
            }
        }
    }
}

/// By the text of an invocation: what it gave, or why it does not compile.
static RESULTS: OnceLock<HashMap<String, Result<(String, String), String>>> = OnceLock::new();

const PARTS: usize = 8;

/// Compiles and runs every invocation of the tier.
pub fn prepare(tier: Tier) {
    let mut texts: Vec<String> = GENS.iter().flat_map(|g| enumerate(*g, tier)).map(|w| w.text).collect();
    texts.sort();
    texts.dedup();
    let dir = root().join(format!("target/mcro-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| fatal(&format!("{}: {e}", dir.display())));
    let r = build(&texts, &dir);
    std::fs::remove_dir_all(&dir).ok();
    RESULTS.set(r).ok();
}

fn build(texts: &[String], dir: &PathBuf) -> HashMap<String, Result<(String, String), String>> {
    // One function per invocation, one line per function.
    for part in 0..PARTS {
        let mut src = String::new();
        let mut main = String::new();
        for (i, t) in texts.iter().enumerate().filter(|(i, _)| i % PARTS == part) {
            src.push_str(&format!(
                "fn c{i}(x: i64, s: String, ys: Vec<i64>, map: &'static str) -> other::Value {{ other::value! {{ {t} }} }}\n"
            ));
            main.push_str(&format!("case({i}, || c{i}(41, String::from(\"str\"), std::vec![10, 20, 30], \"mine\"));\n"));
        }
        std::fs::write(dir.join(format!("m{part}.rs")), format!("{src}fn main() {{\n{main}}}\n")).unwrap_or_else(|e| fatal(&format!("{e}")));
    }
    let out = Command::new("cargo")
        .args(["build", "--offline", "--locked", "--bins", "--keep-going", "--message-format=short"])
        .current_dir(root().join("mcro"))
        .env("MCRO_GEN", dir)
        .env("CARGO_TARGET_DIR", root().join("target/mcro"))
        .output()
        .unwrap_or_else(|e| fatal(&format!("cargo: {e}")));
    let mut r: HashMap<String, Result<(String, String), String>> = HashMap::new();
    if !out.status.success() {
        let log = String::from_utf8_lossy(&out.stderr).into_owned();
        for l in log.lines().filter(|l| l.contains("error")) {
            // …/m3.rs:17:84: error[…]: …
            let part = l.split("/m").last().and_then(|x| x.chars().next()).and_then(|c| c.to_digit(10));
            let line = l.split(".rs:").nth(1).and_then(|x| x.split(':').next()).and_then(|x| x.parse::<usize>().ok());
            if let (Some(part), Some(line)) = (part, line) {
                let i = (line - 1) * PARTS + part as usize;
                if l.contains(dir.to_str().unwrap()) && i < texts.len() {
                    r.insert(texts[i].clone(), Err(l.to_string()));
                }
            }
        }
        if r.is_empty() {
            fatal(&format!("the crate mcro does not build:\n{log}"));
        }
        return r;
    }
    for part in 0..PARTS {
        let out = Command::new(root().join(format!("target/mcro/debug/m{part}")))
            .output()
            .unwrap_or_else(|e| fatal(&format!("m{part}: {e}")));
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let f: Vec<&str> = l.split('\t').collect();
            if let [i, v, log] = f[..] {
                let i: usize = i.parse().unwrap_or_else(|_| fatal(l));
                r.insert(texts[i].clone(), Ok((v.into(), log.into())));
            }
        }
    }
    if let Some(t) = texts.iter().find(|t| !r.contains_key(*t)) {
        r.insert(t.clone(), Err("the program ended".into()));
    }
    r
}

fn judge(g: Gen, ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let Some(w) = g(ch, rec.tier) else { return Ok(()) };
    rec.transitions += w.log.len() as u64 + 1;
    rec.state(fnv(FNV0, w.text.as_bytes()));
    let results = RESULTS.get().expect("prepared");
    // When a part does not compile, only what is wrong is known.
    let Some(r) = results.get(&w.text) else { return Ok(()) };
    rec.traces += 1;
    let (v, log) = r.as_ref().map_err(|e| format!("value! {{ {} }}\n  {e}", w.text))?;
    rec.nontrivial += 1;
    rec.outcome(fnv(FNV0, v.as_bytes()));
    rec.sample(|| format!("value! {{ {} }}\n => {v} evaluating {log}", w.text));
    let want = format!("{:?}", show(&w.want));
    if *v != want {
        return Err(format!("value! {{ {} }}\n  written: {want}\n  built:   {v}", w.text));
    }
    let order = w.log.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",");
    if *log != order {
        return Err(format!("value! {{ {} }}\n  evaluates {log} instead of {order}", w.text));
    }
    match upon::to_value(&w.want).map(|v| V::from_upon(&v)) {
        Ok(v) if show(&v) == show(&w.want) => Ok(()),
        r => Err(format!("value! {{ {} }}\n  serialized from a tree of maps and lists: {r:?}", w.text)),
    }
}

fn trees(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    judge(gen_trees, ch, rec)
}
fn exprs(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    judge(gen_exprs, ch, rec)
}
fn keys(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    judge(gen_keys, ch, rec)
}
fn sizes(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    judge(gen_sizes, ch, rec)
}
