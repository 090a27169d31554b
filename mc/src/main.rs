//! mc: bounded exhaustive model checking of `upon` against a reference model.
//!
//!   mc check <id> [quick|thorough]   decide a property, write its evidence
//!   mc replay <file>                 run one recorded execution again
//!   mc list                          the properties and their scenarios

mod cost;
mod explore;
mod funcs;
mod known;
mod model;
mod props;
mod run;
mod sched;
mod sigs;
mod val;

use std::collections::HashMap;
use std::io::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Instant;

use explore::{explore, fnv, run_one, Ch, Journal, Rec, Tier, States, FNV0};

pub struct Scenario {
    pub name: &'static str,
    pub body: fn(&mut Ch, &mut Rec) -> Result<(), String>,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    /// How cases are made, and what makes one count.
    pub rule: &'static str,
    pub scenarios: Vec<Scenario>,
    /// Executions kept in processes of their own, with the listed findings.
    pub apart: &'static [known::Apart],
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()))
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn tier_of(s: Option<&str>) -> Tier {
    match s
        .map(String::from)
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .as_deref()
    {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn choices_text(c: &[u32]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn choices_parse(s: &str) -> Vec<u32> {
    s.split(',')
        .filter(|x| !x.is_empty())
        .map(|x| x.parse().expect("choice"))
        .collect()
}

fn report(id: &str, scenario: &str, tier: Tier, choices: &[u32], detail: &str) {
    let dir = root().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let h = fnv(
        fnv(FNV0, scenario.as_bytes()),
        choices_text(choices).as_bytes(),
    );
    let path = dir.join(format!("{id}-{h:016x}.replay"));
    let text = format!(
        "property {id}\nscenario {scenario}\ntier {}\nfeatures {}\nchoices {}\n---\n{detail}\n",
        tier_name(tier),
        std::env::var("MC_FEATURES").unwrap_or_else(|_| "all".into()),
        choices_text(choices)
    );
    std::fs::write(&path, text).ok();
    println!("--- {id} / {scenario}\n{detail}");
    println!("VIOLATION property={id} replay={}", path.display());
    std::io::stdout().flush().ok();
}

/// A violation that is no execution.
pub fn report_text(id: &str, scenario: &str, tier: Tier, detail: &str) {
    report(id, scenario, tier, &[], detail);
}

fn find<'p>(p: &'p Prop, name: &str) -> &'p Scenario {
    p.scenarios
        .iter()
        .find(|s| s.name == name)
        .unwrap_or_else(|| fatal(&format!("no scenario {name}")))
}

pub fn fatal(m: &str) -> ! {
    eprintln!("mc: {m}");
    std::process::exit(3)
}

fn threads() -> usize {
    std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()))
}

fn prepare(p: &Prop, tier: Tier) {
    #[cfg(all(feature = "filters", feature = "serialize", feature = "unicode"))]
    if p.id == "C20" {
        props::c20::prepare(tier);
    }
    let _ = (p, tier);
}

/// Explores every scenario; ends the process.
fn child(p: &Prop, tier: Tier, journal: Option<PathBuf>, only: Option<&str>) -> ! {
    let t0 = Instant::now();
    prepare(p, tier);
    let mut states = States::default();
    let (mut transitions, mut traces, mut execs, mut nontrivial) = (0, 0, 0u64, 0);
    let mut outcomes: HashMap<u64, u64> = HashMap::new();
    let mut samples: Vec<String> = vec![];
    let mut per = vec![];
    for s in &p.scenarios {
        if only.map_or(false, |o| o != s.name) {
            continue;
        }
        if let Some(j) = &journal {
            std::fs::write(j.join("scenario"), s.name).ok();
        }
        let on_stuck = |choices: &[u32], why: &str| {
            report(p.id, s.name, tier, choices, why);
            std::process::exit(1);
        };
        let body = |ch: &mut Ch, rec: &mut Rec| {
            let r = (s.body)(ch, rec);
            match &r {
                Err(_) if p.id == "C21" && props::c21::also_full(s.name, tier_name(tier), &choices_text(&ch.so_far())) => Ok(()),
                _ => r,
            }
        };
        let r = explore(&body, tier, threads(), &Journal(journal.clone()), &on_stuck);
        if let Some(v) = &r.violation {
            report(p.id, s.name, tier, &v.choices, &v.detail);
            write_stopped(p.id, tier, t0);
            std::process::exit(1);
        }
        let mut rec = r.rec;
        println!(
            "{} {:<22} {:>9} executions {:>10} transitions {:>9} states {:>8} distinct outcomes {:>6.1} s",
            p.id,
            s.name,
            rec.execs,
            rec.transitions,
            rec.states.len(),
            rec.outcomes.len(),
            r.wall
        );
        per.push(format!(
            "{}: {{\"executions\": {}, \"distinct_outcomes\": {}, \"wall_s\": {:.2}}}",
            json_str(s.name),
            rec.execs,
            rec.outcomes.len(),
            r.wall
        ));
        let mut ss = rec.samples;
        ss.sort();
        ss.truncate(3);
        samples.extend(ss.into_iter().map(|x| format!("[{}] {x}", s.name)));
        transitions += rec.transitions;
        traces += rec.traces;
        execs += rec.execs;
        nontrivial += rec.nontrivial;
        states.extend(rec.states);
        for (k, v) in rec.outcomes {
            *outcomes.entry(k).or_default() += v;
        }
    }
    if let Ok(f) = std::env::var("MC_COUNTS") {
        let text = format!(
            "execs {execs}\nstates {}\ntransitions {transitions}\ntraces {traces}\nnontrivial {nontrivial}\n",
            states.len()
        );
        std::fs::write(f, text).unwrap_or_else(|e| fatal(&format!("{e}")));
        std::process::exit(0)
    }
    samples.truncate(24);
    let samples = samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n    ");
    let counts = match p.level {
        "fault_enumeration" | "exploration" => {
            format!("\"evaluations\": {execs},\n  \"distinct_nontrivial\": {}", {
                let _ = nontrivial;
                states.len()
            })
        }
        _ => format!(
            "\"states\": {},\n  \"transitions\": {transitions},\n  \"traces_validated_against_impl\": {traces},\n  \"traces_that_render\": {nontrivial}",
            states.len()
        ),
    };
    // What another build of the same explored before.
    let also = std::env::var("MC_ALSO").ok().and_then(|f| std::fs::read_to_string(f).ok()).map_or(String::new(), |text| {
        let n: Vec<String> = text.lines().filter_map(|l| l.split_once(' ')).map(|(k, n)| format!("\"{k}\": {n}")).collect();
        format!("\n  \"newest_toolchain\": {{{}}},", n.join(", "))
    });
    let cov = format!(
        "{{\n  {counts},{also}\n  \"distinct_outcomes\": {},\n  \"rule\": {},\n  \"exhaustive\": true,\n  \"scenarios\": {{{}}},\n  \"samples\": [\n    {samples}\n  ]\n }}",
        outcomes.len(),
        json_str(p.rule),
        per.join(", "),
    );
    write_evidence(p, tier, t0, 0, cov);
    println!("{} held on {execs} executions, {:.1} s", p.id, t0.elapsed().as_secs_f64());
    std::process::exit(0)
}

/// The evidence of a run that ended at a violation.
pub fn write_stopped(id: &str, tier: Tier, t0: Instant) {
    if std::env::var("MC_COUNTS").is_ok() {
        return;
    }
    let props = props::all();
    let p = props.iter().find(|p| p.id == id).expect("property");
    write_evidence(p, tier, t0, 1, "{}".into());
}
/// The evidence of several builds.
pub fn write_counts(p: &Prop, tier: Tier, t0: Instant, states: u64, transitions: u64, traces: u64, renders: u64, per: &str) {
    let cov = format!(
        "{{\n  \"states\": {states},\n  \"transitions\": {transitions},\n  \"traces_validated_against_impl\": {traces},\n  \"traces_that_render\": {renders},\n  \"rule\": {},\n  \"exhaustive\": true,\n  \"combinations\": {{\n    {per}\n  }},\n  \"scenarios\": [{}]\n }}",
        json_str(p.rule),
        p.scenarios.iter().map(|s| json_str(s.name)).collect::<Vec<_>>().join(", "),
    );
    write_evidence(p, tier, t0, 0, cov);
}

fn write_evidence(p: &Prop, tier: Tier, t0: Instant, violations: u32, cov: String) {
    let cov = if cov == "{}" {
        "{\"explanation\": \"stopped at the first violation\"}".to_string()
    } else {
        cov
    };
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(0);
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {seed},\n \"level\": \"{}\",\n \"coverage\": {cov},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {violations}\n}}\n",
        json_str(p.id),
        tier_name(tier),
        p.level,
        json_str("the bounds and alphabets stated per scenario in DESIGN.md; the reference model in mc/src/model is what the property means"),
        t0.elapsed().as_secs_f64(),
    );
    let dir = root().join("evidence");
    std::fs::create_dir_all(&dir).ok();
    let path = dir.join(format!("{}.json", p.id));
    if std::fs::write(&path, text).is_err() {
        fatal("cannot write the evidence file");
    }
}

fn spawn(args: &[&str], quiet: bool) -> std::process::ExitStatus {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args);
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    c.status().unwrap_or_else(|e| fatal(&format!("spawn: {e}")))
}

/// Runs the exploration in a child, so that an execution that kills the
/// process is a verdict about that execution.
fn supervise(p: &Prop, tier: Tier) -> i32 {
    if std::env::var("MC_COUNTS").is_err() {
        if let Err((key, detail)) = known::check(p, &root()) {
            report(p.id, &format!("apart:{key}"), tier, &[], &detail);
            return 1;
        }
    }
    let st = spawn(&["child", p.id, tier_name(tier)], false);
    if let Some(c) = st.code() {
        return c;
    }
    println!("{}: the exploration was killed by signal {:?}; looking for the execution", p.id, st.signal());
    let dir = std::env::temp_dir().join(format!("mc-journal-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).ok();
    let d = dir.to_str().unwrap().to_string();
    let st = spawn(&["child", p.id, tier_name(tier), &d], true);
    let code = if st.code().is_some() {
        st.code().unwrap()
    } else {
        let scen = std::fs::read_to_string(dir.join("scenario")).unwrap_or_default();
        let mut found = 3;
        for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
            let name = e.file_name().into_string().unwrap_or_default();
            if !name.starts_with("journal.") {
                continue;
            }
            let text = std::fs::read_to_string(e.path()).unwrap_or_default();
            let ch = text.trim().trim_start_matches('[').trim_end_matches(']');
            let st = spawn(&["one", p.id, tier_name(tier), &scen, ch], true);
            if let Some(sig) = st.signal() {
                report(
                    p.id,
                    &scen,
                    tier,
                    &choices_parse(ch),
                    &format!("the process was killed by signal {sig} in this execution"),
                );
                found = 1;
                break;
            }
        }
        found
    };
    std::fs::remove_dir_all(&dir).ok();
    code
}

fn replay(path: &Path) -> i32 {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| fatal(&format!("{e}")));
    let mut f: HashMap<&str, &str> = HashMap::new();
    for l in text.lines().take_while(|l| *l != "---") {
        if let Some((k, v)) = l.split_once(' ') {
            f.insert(k, v);
        }
    }
    let id = f["property"];
    let scen = f["scenario"];
    let props = props::all();
    let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| fatal("no such property"));
    if let Some(key) = scen.strip_prefix("apart:") {
        println!("runs in a process of its own: mc apart {id} {key}");
        let st = spawn(&["apart", id, key], false);
        return i32::from(st.code() != Some(0));
    }
    if f.get("features").map_or(false, |x| *x != std::env::var("MC_FEATURES").unwrap_or_else(|_| "all".into())) {
        // Another build; C21 leaves them behind.
        let x = f["features"];
        let bin = root().join(format!("target/features/{x}/release/mc"));
        let st = Command::new(&bin)
            .args(["replay", path.to_str().unwrap()])
            .env("MC_FEATURES", x)
            .env("MC_TIER", f["tier"])
            .status()
            .unwrap_or_else(|e| fatal(&format!("{}: {e}", bin.display())));
        return st.code().unwrap_or(3);
    }
    let tier = tier_of(Some(f["tier"]));
    let ch = choices_parse(f.get("choices").copied().unwrap_or(""));
    one(p, tier, scen, &ch)
}

fn one(p: &Prop, tier: Tier, scen: &str, choices: &[u32]) -> i32 {
    prepare(p, tier);
    let s = find(p, scen);
    let mut rec = Rec::new(tier);
    rec.verbose = true;
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(explore::STACK)
            .spawn_scoped(sc, || run_one(&s.body, choices, &mut rec))
            .unwrap()
            .join()
    });
    match r {
        Ok(Ok(())) => {
            println!("holds on this execution");
            0
        }
        Ok(Err(d)) => {
            println!("violated:\n{d}");
            1
        }
        Err(_) => 3,
    }
}

fn main() {
    explore::panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let props = props::all();
    let get = |id: &str| {
        props
            .iter()
            .find(|p| p.id == id)
            .unwrap_or_else(|| fatal("no such property"))
    };
    let code = match a.as_slice() {
        ["check", "C21"] => props::c21::drive(tier_of(None)),
        ["check", "C21", tier] => props::c21::drive(tier_of(Some(tier))),
        ["part", id, tier] => supervise(get(id), tier_of(Some(tier))),
        ["check", id] => supervise(get(id), tier_of(None)),
        ["check", id, tier] => supervise(get(id), tier_of(Some(tier))),
        ["child", id, tier] => child(get(id), tier_of(Some(tier)), None, None),
        ["child", id, tier, dir] => child(get(id), tier_of(Some(tier)), Some(dir.into()), None),
        ["only", id, tier, scen] => child(get(id), tier_of(Some(tier)), None, Some(scen)),
        ["one", id, tier, scen] => one(get(id), tier_of(Some(tier)), scen, &[]),
        ["one", id, tier, scen, ch] => one(get(id), tier_of(Some(tier)), scen, &choices_parse(ch)),
        ["apart", id, key] => known::run(get(id), key),
        ["replay", f] => replay(Path::new(f)),
        ["list"] => {
            for p in &props {
                println!("{} ({})", p.id, p.level);
                for s in &p.scenarios {
                    println!("    {}", s.name);
                }
            }
            0
        }
        _ => fatal("usage: mc check <id> [tier] | replay <file> | list"),
    };
    std::process::exit(code)
}
