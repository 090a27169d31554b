//! C21: the optional features.
//!
//! This crate is built once for every combination of the features, against
//! the implementation built the same way; each build explores the scenarios
//! here, and those of other properties that need no feature.

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::Command;

use crate::explore::{fnv, Ch, Rec, Tier, FNV0};
use crate::funcs::show;
use crate::model::lex::BUILT;
use crate::props::gen::{truth_domain, Kind, Skel};
use crate::run::{check, clip, Case, Mask, Mode, PLAIN};
use crate::val::V;
use crate::{fatal, report_text, root, Prop, Scenario};

pub const FULL: bool = cfg!(all(feature = "filters", feature = "serialize", feature = "unicode"));

pub fn prop() -> Prop {
    let mut scenarios = vec![
        Scenario { name: "identifiers", body: identifiers },
        Scenario { name: "pipelines", body: pipelines },
        Scenario { name: "texts", body: texts },
        Scenario { name: "structures", body: structures },
        Scenario { name: "values", body: values },
        Scenario { name: "conversions", body: conversions },
        Scenario { name: "errors", body: errors },
        Scenario { name: "functions", body: functions },
    ];
    if !FULL || std::env::var("MC_BORROW").is_ok() {
        scenarios.extend(borrowed());
    }
    Prop {
        id: "C21",
        level: "model_checking",
        rule: "for every combination of the features, every case within the bounds is run by the implementation and by the reference machine built with that combination; a state is a configuration of the machine",
        scenarios,
        apart: &[],
    }
}

/// Scenarios of other properties, with what they take for the quick tier.
fn borrowed() -> Vec<Scenario> {
    const QUICK: &[(&str, &[&str])] = &[
        ("C01", &["truth", "chains", "nesting", "conditions"]),
        ("C02", &["key-order", "not-iterable", "uneven"]),
        ("C03", &["unbound", "own-expression"]),
        ("C04", &["graphs", "names", "with-values", "template-fn", "unreached", "isolation"]),
        ("C05", &["countdown"]),
        ("C06", &["indexes", "keys", "deep"]),
        ("C08", &["comments", "characters"]),
        ("C09", &["tokens", "defaults"]),
        ("C10", &["statements", "keywords", "characters", "edits", "delimiters"]),
        ("C11", &["floats", "strings", "positions"]),
        ("C13", &["values", "misplaced", "names"]),
    ];
    const THOROUGH: &[(&str, &[&str])] = &[
        ("C01", &["skeletons"]),
        ("C02", &["lengths", "elements", "bindings"]),
        ("C03", &["nestings", "shadow-paths"]),
        ("C05", &["graphs", "sequences"]),
        ("C06", &["paths", "sources"]),
        ("C08", &["sequences", "blocks", "plain"]),
        ("C09", &["overlaps", "curated", "multibyte", "missing"]),
        ("C10", &["blocks", "tokens", "adjacent"]),
        ("C11", &["numbers", "limits", "exact floats", "characters"]),
        ("C13", &["scripts", "pipelines"]),
    ];
    let mut all = super::parts();
    let mut out = vec![];
    let mut take = |picks: &[(&str, &[&str])], thorough: bool| {
        for (id, names) in picks {
            let p = all.iter_mut().find(|p| p.id == *id).expect("property");
            for n in *names {
                let i = p.scenarios.iter().position(|s| s.name == *n).unwrap_or_else(|| fatal(&format!("no scenario {id} {n}")));
                let s = p.scenarios.swap_remove(i);
                let name = format!("{id} {n}{}", if thorough { " (thorough)" } else { "" });
                out.push(Scenario { name: Box::leak(name.into_boxed_str()), body: s.body });
            }
        }
    };
    take(QUICK, false);
    if std::env::var("MC_TIER").as_deref() == Ok("thorough") {
        take(THOROUGH, true);
    }
    out
}

const LOC: Mask = Mask { loc: true, ..PLAIN };
/// Where an error is may be told in other columns without Unicode support,
/// where characters take none or more than one.
fn mask(src: &str) -> Mask {
    if src.chars().all(|c| c.is_ascii() || "éñй€".contains(c)) {
        LOC
    } else {
        PLAIN
    }
}
fn modes() -> &'static [Mode] {
    match cfg!(feature = "serialize") {
        true => &[Mode::From, Mode::Fn, Mode::Serde],
        false => &[Mode::From, Mode::Fn],
    }
}
fn ctx() -> V {
    V::map([
        ("v", V::s("val")),
        ("a", V::map([("a", V::Int(1)), ("Z", V::Int(2)), ("é", V::Int(3)), ("a0", V::Int(4)), ("_", V::Int(5)), ("日", V::Int(6))])),
        ("é", V::s("e")),
        ("日", V::s("ri")),
        ("_", V::s("under")),
        ("aé", V::s("ae")),
        ("a0", V::s("a0")),
        ("n", V::Int(3)),
        ("t", V::Bool(true)),
        ("f", V::Bool(false)),
        ("l", V::list([V::Int(0), V::s("é")])),
        ("m", V::map([("k", V::Float(1.5)), ("v", V::s("mv"))])),
    ])
}

/// Names of up to three characters in every place a name can be.
fn identifiers(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const C: &[&str] = &["a", "Z", "_", "0", "9", "é", "日", "\u{b7}", "\u{301}", "-", ".", "x", "b", "e", "٣", "\u{aa}"];
    const P: &[(&str, &str)] = &[
        ("<{{ ", " }}>"),
        ("<{{ a.", " }}>"),
        ("<{{ a?.", " | show }}>"),
        ("{% for ", " in l %}.{% endfor %}"),
        ("{% for k, ", " in m %}{{ k }}{% endfor %}"),
        ("{% with v as ", " %}.{% endwith %}"),
        ("{{ v | ", " }}"),
        ("{% if ", " %}y{% else %}n{% endif %}"),
        ("{{v | show: ", "}}"),
    ];
    let n = ch.range(1, if rec.thorough() { 3 } else { 2 });
    let name: String = (0..n).map(|_| C[ch.n(C.len())]).collect();
    let (a, b) = P[ch.n(P.len())];
    let src = format!("{a}{name}{b}");
    let m = mask(&src);
    check(&Case::new(src, ctx()), m, rec)
}

/// Functions in every place.
fn pipelines(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const B: &[&str] = &["v", "l", "\"s\"", "-1", "m.k", "nope", "m?.z"];
    const F: &[&str] = &["show", "twice", "up", "id", "add: 1", "nope", "show: 1", "ferr", "fail", "count", "pair: v"];
    const P: &[(&str, &str)] = &[
        ("a{{ ", " }}b"),
        ("{% if ", " %}y{% endif %}"),
        ("{% if not ", " %}y{% else %}n{% endif %}"),
        ("{% for x in ", " %}{{ x }}{% endfor %}"),
        ("{% with ", " as x %}{{ x | show }}{% endwith %}"),
        ("{% include \"inc\" with ", " %}"),
    ];
    let mut e = B[ch.n(B.len())].to_string();
    for _ in 0..ch.range(0, if rec.thorough() { 3 } else { 2 }) {
        e.push_str(" | ");
        e.push_str(F[ch.n(F.len())]);
    }
    let (a, b) = P[ch.n(P.len())];
    let mode = modes()[ch.n(modes().len())];
    let c = Case::new(format!("{a}{e}{b}"), ctx()).temp("inc", "({{ v }})").mode(mode).writer(true);
    check(&c, Mask { partial: true, ..LOC }, rec)
}

/// Text, comments and trimming.
fn texts(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const T: &[&str] = &[
        "x", " ", "\n", "\r\n", "é", "日本", "\u{3000}", "\u{a0}", "\u{feff}", "😀\u{301}", "{{ v }}", "{{- v -}}", "{#- é -#}", "{# x #}", "{%- if t %}", "{% endif -%}",
        "{{ \"é\\n\" -}}",
    ];
    let n = ch.range(1, if rec.thorough() { 4 } else { 3 });
    let src: String = (0..n).map(|_| T[ch.n(T.len())]).collect();
    let m = mask(&src);
    check(&Case::new(src, ctx()).writer(true), Mask { partial: true, ..m }, rec)
}

fn structures(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const K: &[Kind] = &[Kind::If, Kind::IfElse, Kind::IfElifElse, Kind::For, Kind::ForMap, Kind::With, Kind::Emit, Kind::EmitX, Kind::EmitEnds, Kind::Include, Kind::IncludeWith];
    let mut s = Skel::new(if rec.thorough() { 3 } else { 2 }, K);
    let src = s.body(ch);
    let mode = modes()[ch.n(modes().len())];
    let c = Case::new(src, Skel::ctx()).temp("inc", "<{% for x in l %}{{ x }}{% endfor %}>").mode(mode);
    check(&c, LOC, rec)
}

/// Values of all kinds, looked at in every way.
fn values(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const P: &[&str] = &[
        "{{ x }}",
        "{{ x | show }}",
        "{% if x %}y{% else %}n{% endif %}",
        "{% for y in x %}{{ loop.index }}{{ y | show }}{% endfor %}",
        "{% for k, y in x %}{{ k }}{{ y | show }}{% endfor %}",
        "{% with x as y %}{{ y | show }}{{ y?.a | show }}{{ y?.0 | show }}{% endwith %}",
        "{% include \"inc\" with x %}",
        "{{ x.a }}",
        "{{ x.1 }}",
    ];
    let d = truth_domain();
    let v = d[ch.n(d.len())].clone();
    let mode = modes()[ch.n(modes().len())];
    let src = P[ch.n(P.len())];
    let c = Case::new(src, V::map([("x", v)])).temp("inc", "{{ a | show }}").mode(mode).named("r").writer(ch.flag());
    check(&c, LOC, rec)
}

/// What values are made of without serialization.
fn conversions(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    use upon::Value as U;
    let all: Vec<(&str, U, V)> = vec![
        ("()", U::from(()), V::None),
        ("true", U::from(true), V::Bool(true)),
        ("1u8", U::from(1u8), V::Int(1)),
        ("-1i8", U::from(-1i8), V::Int(-1)),
        ("u16", U::from(u16::MAX), V::Int(65535)),
        ("i16", U::from(i16::MIN), V::Int(-32768)),
        ("u32", U::from(u32::MAX), V::Int(4294967295)),
        ("i32", U::from(i32::MIN), V::Int(-2147483648)),
        ("i64 min", U::from(i64::MIN), V::Int(i64::MIN)),
        ("i64 max", U::from(i64::MAX), V::Int(i64::MAX)),
        ("f32", U::from(0.5f32), V::Float(0.5)),
        ("f64", U::from(0.1f64), V::Float(0.1)),
        ("&str", U::from("é"), V::s("é")),
        ("String", U::from(String::from("s")), V::s("s")),
        ("Cow", U::from(std::borrow::Cow::Borrowed("c")), V::s("c")),
        ("Option some", U::from(Some(1i64)), V::Int(1)),
        ("Option none", U::from(None::<i64>), V::None),
        ("Vec", U::from(vec![1i64, 2]), V::list([V::Int(1), V::Int(2)])),
        ("array", U::from(["a", "b"]), V::list([V::s("a"), V::s("b")])),
        ("map", U::from(BTreeMap::from([("b", 1i64), ("a", 2)])), V::map([("a", V::Int(2)), ("b", V::Int(1))])),
        ("hash map", U::from(std::collections::HashMap::from([("b", 1i64)])), V::map([("b", V::Int(1))])),
        ("pairs", U::from([("k", 1i64), ("j", 2), ("k", 3)]), V::map([("k", V::Int(3)), ("j", V::Int(2))])),
        ("nested", U::from(vec![Some(vec![1i64]), None]), V::list([V::list([V::Int(1)]), V::None])),
        ("collected list", [1i64, 2].into_iter().collect(), V::list([V::Int(1), V::Int(2)])),
        ("collected map", [("k", 1i64)].into_iter().collect(), V::map([("k", V::Int(1))])),
    ];
    let (name, got, want) = &all[ch.n(all.len())];
    rec.traces += 1;
    rec.transitions += 1;
    rec.nontrivial += 1;
    rec.state(fnv(FNV0, name.as_bytes()));
    let got = V::from_upon(got);
    if show(&got) != show(want) {
        return Err(format!("{name} is converted to {} instead of {}", show(&got), show(want)));
    }
    Ok(())
}

/// Failures: their kinds, and places in texts without wide characters.
fn errors(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const S: &[&str] = &[
        "{{ nope }}", "{{ v.z }}", "{{ l.9 }}", "{{ v | nope }}", "{{ v | nope | show }}", "{{ v | show | show }}", "{{ l }}", "{{ v | ferr }}", "{% for x in v %}{% endfor %}",
        "{% for k, x in l %}{% endfor %}", "{% for x in m %}{% endfor %}", "{% include \"none\" %}", "{% include \"bad\" %}", "{% include \"self\" %}", "{{ }}", "{{ 1a }}", "{{ \"x }}", "{{ v",
        "{% endif %}", "{% if v %}", "{% else %}", "{{ v | }}", "{{ v: 1 }}", "{{ if }}", "{{ 99999999999999999999 }}", "{{ 0x }}", "{{ \"\\q\" }}", "{# x", "}}", "{{ v %}", "{{ v.in }}", "{{ @ }}",
        "{{ v | show: }}", "{% with v %}", "{% for in l %}", "{{ true.x }}", "{{ loop.index }}",
    ];
    const BEFORE: &[&str] = &[
        "", "text ", "line\n", "a\r\n\tb ", "{{ v }}\n\n  {# c #}", "{% if t %}\n{% endif %} ", "é ", "й€{# ñ #}", "日本\n", "😀\n {{ \"日\" }}\n", "é\n{{ \"€\" | show }}é ",
    ];
    let s = S[ch.n(S.len())];
    let b = BEFORE[ch.n(BEFORE.len())];
    let mut c = Case::new(format!("{b}{s}"), ctx()).temp("bad", "x\n{{ nope.z }}").temp("self", "{% include \"self\" %}");
    c.emax = Some(3);
    if ch.flag() {
        c = c.named("root");
    }
    check(&c.writer(true), Mask { partial: true, ..LOC }, rec)
}

/// Registering formatters (and filters).
fn functions(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut e = upon::Engine::new();
    let mut have: BTreeMap<&str, (upon::EngineFn, usize)> = BTreeMap::new();
    let mut log = String::new();
    let names = ["f", "é"];
    let kinds = if BUILT.filters { 3 } else { 2 };
    let n = ch.range(1, if rec.thorough() { 5 } else { 4 });
    for i in 0..n {
        let name = names[ch.n(2)];
        let (told, want) = match ch.n(kinds) {
            0 => {
                log.push_str(&format!(" formatter {name}"));
                let got = e.add_formatter(name, move |f: &mut upon::fmt::Formatter<'_>, v: &upon::Value| {
                    write!(f, "{i}<")?;
                    upon::fmt::default(f, v)
                });
                (got, have.insert(name, (upon::EngineFn::Formatter, i)))
            }
            1 => {
                log.push_str(&format!(" remove {name}"));
                (e.remove_function(name), have.remove(name))
            }
            _ => {
                #[cfg(feature = "filters")]
                {
                    log.push_str(&format!(" filter {name}"));
                    let got = e.add_filter(name, move |s: String| format!("{i}>{s}"));
                    (got, have.insert(name, (upon::EngineFn::Filter, i)))
                }
                #[cfg(not(feature = "filters"))]
                unreachable!()
            }
        };
        rec.transitions += 1;
        rec.state(fnv(FNV0, log.as_bytes()));
        let text = |f: Option<&upon::EngineFn>| f.map(|f| format!("{f:?}"));
        if text(told.as_ref()) != text(want.as_ref().map(|w| &w.0)) {
            return Err(format!("after{log}: told {told:?} instead of {:?}", want.map(|w| w.0)));
        }
        for name in names.iter().filter(|n| BUILT.unicode || n.is_ascii()) {
            let src = format!("{{{{ v | {name} }}}}");
            let got = e.compile(src).and_then(|t| t.render_from(&e, &upon::Value::from([("v", "x")])).to_string());
            let want = have.get(name).map(|(k, i)| match k {
                upon::EngineFn::Formatter => format!("{i}<x"),
                #[allow(unreachable_patterns)]
                _ => format!("{i}>x"),
            });
            match (want, got) {
                (Some(w), Ok(g)) if w == g => {}
                (None, Err(_)) => {}
                (w, g) => return Err(format!("after{log}: {name} gives {g:?} instead of {w:?}")),
            }
        }
    }
    let _ = clip("");
    rec.traces += 1;
    rec.nontrivial += 1;
    Ok(())
}

fn combos() -> Vec<Vec<&'static str>> {
    (0..8).map(|i| ["filters", "serialize", "unicode"].into_iter().enumerate().filter(|(k, _)| i >> k & 1 == 1).map(|x| x.1).collect()).collect()
}
fn name_of(c: &[&str]) -> String {
    if c.is_empty() {
        "none".into()
    } else {
        c.join("+")
    }
}

fn binary(c: &[&str]) -> PathBuf {
    match c.len() {
        3 => std::env::current_exe().unwrap_or_else(|e| fatal(&format!("own path: {e}"))),
        _ => target(c).join("release/mc"),
    }
}
fn target(c: &[&str]) -> PathBuf {
    root().join(format!("target/features/{}", name_of(c)))
}

fn cargo(args: &[&str], c: &[&str]) -> (bool, String) {
    let out = Command::new("cargo")
        .args(args)
        .args(["--offline", "--locked", "--quiet", "--no-default-features", "--features", &c.join(",")])
        .current_dir(root().join("mc"))
        .env("CARGO_TARGET_DIR", target(c))
        .env("CARGO_PROFILE_RELEASE_OPT_LEVEL", "1")
        .output()
        .unwrap_or_else(|e| fatal(&format!("cargo: {e}")));
    (out.status.success(), String::from_utf8_lossy(&out.stderr).into_owned())
}

fn build(c: &[&str]) -> Result<(), String> {
    if c.len() == 3 {
        return Ok(());
    }
    let (ok, log) = cargo(&["build", "--release"], c);
    if ok {
        return Ok(());
    }
    let errors = log.lines().filter(|l| l.starts_with("error")).take(8).collect::<Vec<_>>().join("\n  ");
    Err(match log.contains("could not compile `upon`") {
        true => format!("with the features {} the crate does not build:\n  {errors}", name_of(c)),
        false => format!("with the features {} something that needs no other feature is missing:\n  {errors}", name_of(c)),
    })
}

/// Builds and explores every combination; the exit code.
pub fn drive(tier: Tier) -> i32 {
    let all = combos();
    let built: Vec<Result<(), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = all.iter().map(|c| s.spawn(move || build(c))).collect();
        hs.into_iter().map(|h| h.join().expect("build")).collect()
    });
    for (c, r) in all.iter().zip(&built) {
        if let Err(e) = r {
            report_text("C21", &format!("build {}", name_of(c)), tier, e);
            return 1;
        }
    }
    let t = if tier == Tier::Thorough { "thorough" } else { "quick" };
    let parts = root().join("target/features/parts");
    std::fs::create_dir_all(&parts).ok();
    let mut sum: BTreeMap<String, u64> = BTreeMap::new();
    let mut per = vec![];
    let t0 = std::time::Instant::now();
    for c in &all {
        println!("C21 with {}", name_of(c));
        let bin = binary(c);
        let counts = parts.join(name_of(c));
        std::fs::remove_file(&counts).ok();
        let st = Command::new(&bin)
            .args(["part", "C21", t])
            .env("MC_TIER", t)
            .env("MC_FEATURES", name_of(c))
            .env("MC_FULL", binary(&all[7]))
            .env("MC_COUNTS", &counts)
            .status()
            .unwrap_or_else(|e| fatal(&format!("{}: {e}", bin.display())));
        match st.code() {
            Some(0) => {}
            Some(1) => {
                crate::write_stopped("C21", tier, t0);
                return 1;
            }
            c => return c.unwrap_or(3),
        }
        let text = std::fs::read_to_string(&counts).unwrap_or_else(|e| fatal(&format!("no counts: {e}")));
        let mut here = vec![];
        for l in text.lines() {
            if let Some((k, n)) = l.split_once(' ') {
                let n: u64 = n.parse().unwrap_or(0);
                *sum.entry(k.into()).or_default() += n;
                here.push(format!("\"{k}\": {n}"));
            }
        }
        per.push(format!("\"{}\": {{{}}}", name_of(c), here.join(", ")));
    }
    let g = |k: &str| sum.get(k).copied().unwrap_or(0);
    crate::write_counts(&prop(), tier, t0, g("states"), g("transitions"), g("traces"), g("nontrivial"), &per.join(",\n    "));
    println!("C21 held on {} executions, {:.1} s", g("execs"), t0.elapsed().as_secs_f64());
    0
}

/// Whether the build with every feature breaks on the same execution; then
/// the features are not what makes the difference.
pub fn also_full(scenario: &str, tier: &str, choices: &str) -> bool {
    use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
    static ASKED: AtomicU32 = AtomicU32::new(0);
    if FULL {
        return false;
    }
    if ASKED.fetch_add(1, SeqCst) > 400 {
        return true;
    }
    let Ok(bin) = std::env::var("MC_FULL") else { return false };
    let st = Command::new(Path::new(&bin))
        .args(["one", "C21", tier, scenario, choices])
        .env("MC_TIER", tier)
        .env("MC_BORROW", "1")
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status();
    matches!(st, Ok(s) if s.code() != Some(0))
}
