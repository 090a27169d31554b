//! C05: the include depth limit.

use crate::explore::{Ch, Rec};
use crate::run::{check, Case, Mask, PLAIN};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        level: "model_checking",
        rule: "every chain, cycle and graph of includes within the bounds, under every limit of the list and every way to set it, is rendered by the implementation and by the reference machine; a trace counts when all templates compile",
        scenarios: vec![
            Scenario { name: "chains", body: chains },
            Scenario { name: "huge limits", body: huge },
            Scenario { name: "cycles", body: cycles },
            Scenario { name: "countdown", body: countdown },
            Scenario { name: "graphs", body: graphs },
            Scenario { name: "sequences", body: sequences },
        ],
        apart: &[],
    }
}

const M: Mask = Mask {
    partial: true,
    trace: true,
    ..PLAIN
};

/// The limit in force, and how it is set.
fn limit(ch: &mut Ch, rec: &Rec, c: &mut Case, small: bool) -> usize {
    let small_limits = [0, 1, 2, 3, 4, 5];
    let mut limits = vec![
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130,
        200, 255, 256, 257, 300,
    ];
    if rec.thorough() {
        limits.extend([500, 512, 1000, 1023, 1024, 1025]);
    }
    let how = ch.n(4);
    if how == 0 {
        return 64;
    }
    let l = if small { *ch.pick(&small_limits) } else { *ch.pick(&limits) };
    match how {
        1 => c.emax = Some(l),
        2 => c.rmax = Some(l),
        _ => {
            // The renderer's wins, larger or smaller.
            c.emax = Some(*ch.pick(&[0, 1, 3, 64, 1000, usize::MAX]));
            c.rmax = Some(l);
        }
    }
    l
}

const WRAPS: &[(&str, &str, &str)] = &[
    ("", "", ""),
    ("", " with m", ""),
    ("", " with m | id", ""),
    ("{% for x in l %}", "", "{% endfor %}"),
    ("{% with 1 as x %}{% if t %}", "", "{% endif %}{% endwith %}"),
    ("{% include \"leaf\" %}", "", "{% include \"leaf\" %}"),
    ("{% include \"leaf\" with m %}{% include \"leaf\" %}{{ t }}", " with m", ""),
];

fn ctx() -> V {
    // A map that contains itself a long way down.
    let mut m = V::map([("t", V::Bool(true)), ("v", V::Int(3))]);
    m = V::map([("t", V::Bool(true)), ("v", V::Int(3)), ("m", m)]);
    V::map([
        ("m", m),
        ("l", V::list([V::Int(1)])),
        ("t", V::Bool(true)),
        ("v", V::Int(3)),
    ])
}

fn chains(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut c = Case::new("", ctx()).writer(true);
    let l = limit(ch, rec, &mut c, false);
    let d = ch.n(5);
    if l + d < 2 {
        return Ok(());
    }
    let n = l + d - 2;
    let mixed = ch.n(WRAPS.len() + 1);
    let by_fn = ch.flag();
    // Whether there is text before and after each include.
    let most = if rec.thorough() { 4 } else { 2 };
    let (before, after) = *ch.pick(&[(true, true), (false, false), (true, false), (false, true)][..most]);
    let mut temps: Vec<(String, String)> = vec![("leaf".into(), "-".into())];
    // n includes in a chain: n + 1 templates at the deepest point.
    for i in 0..=n {
        let w = WRAPS[if mixed == WRAPS.len() { i % 2 * 3 } else { mixed }];
        let with = if w.1.is_empty() { "" } else { " with r" };
        let body = if i == n {
            "end".to_string()
        } else {
            let inc = format!("{{% include \"t{}\"{with} %}}", i + 1);
            let (pre, post) = (w.0.replace(" with m", " with r"), w.2);
            let (b, a) = (if before { i.to_string() } else { String::new() }, if after { "." } else { "" });
            format!("{b}{pre}{inc}{post}{a}")
        };
        temps.push((format!("t{i}"), body));
    }
    // A value that lets the chain go on in isolation.
    for (_, b) in &mut temps {
        *b = b.replace(" with r", " with t | mkr");
    }
    c.funcs = FUNCS;
    let t0 = temps.iter().position(|t| t.0 == "t0").unwrap();
    let root = temps[t0].1.clone();
    if by_fn {
        c.store = Some(temps);
    } else {
        c.temps = temps;
    }
    c.root = crate::run::Root::Anon(root);
    if ch.flag() && !by_fn {
        c.root = crate::run::Root::Named("t0".into());
    }
    check(&c, M, rec)
}

use crate::funcs::{Flt, Fun};
const FUNCS: &[(&str, Fun)] = &[
    ("id", Fun::F(Flt::Id)),
    ("mkr", Fun::F(Flt::MkT)),
    ("mk", Fun::F(Flt::Mk)),
    ("add", Fun::F(Flt::Add)),
];

/// Limits around every width a machine has, which short chains never reach.
fn huge(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut limits = vec![];
    for bits in [8, 15, 16, 24, 31, 32, 33, 48, 62, 63] {
        for d in 0..=3 {
            limits.push((1usize << bits) - 1 + d);
        }
    }
    limits.extend([usize::MAX - 2, usize::MAX - 1, usize::MAX]);
    let l = *ch.pick(&limits);
    let small = [0, 1, 2, 3];
    let mut c = Case::new("", ctx()).writer(true);
    match ch.n(5) {
        0 => c.emax = Some(l),
        1 => c.rmax = Some(l),
        2 => {
            c.emax = Some(*ch.pick(&small));
            c.rmax = Some(l);
        }
        3 => {
            c.emax = Some(l);
            c.rmax = Some(*ch.pick(&small));
        }
        _ => {
            c.emax = Some(l);
            c.rmax = Some(*ch.pick(&limits));
        }
    }
    let n = ch.range(0, 6);
    let with = *ch.pick(&["", " with t | mkr"]);
    c.funcs = FUNCS;
    for i in 0..=n {
        let inner = if i == n { String::new() } else { format!("{{% include \"t{}\"{with} %}}", i + 1) };
        c = c.temp(format!("t{i}"), format!("{i}{inner}."));
    }
    c.root = crate::run::Root::Named("t0".into());
    check(&c, M, rec)
}

/// Templates that include each other for ever.
fn cycles(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut c = Case::new("", ctx()).writer(true);
    limit(ch, rec, &mut c, false);
    let len = ch.range(1, 4);
    let lead = ch.n(3);
    let (pre, with, post) = *ch.pick(&WRAPS[..6]);
    let with = if with.is_empty() { "" } else { " with t | mkr" };
    c.funcs = FUNCS;
    let name = |i: usize| format!("c{}", i % len);
    for i in 0..len {
        c = c.temp(name(i), format!("{i}{pre}{{% include \"{}\"{with} %}}{post}.", name(i + 1)));
    }
    c = c.temp("leaf", "-");
    for i in 0..lead {
        let next = if i == 0 { name(0) } else { format!("lead{}", i - 1) };
        c = c.temp(format!("lead{i}"), format!("L{{% include \"{next}\" %}}"));
    }
    let root = if lead == 0 { name(0) } else { format!("lead{}", lead - 1) };
    c.root = crate::run::Root::Named(root);
    check(&c, M, rec)
}

/// Recursion that its own condition stops, at and around the limit.
fn countdown(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut c = Case::new("", ctx()).writer(true);
    let l = limit(ch, rec, &mut c, false);
    let d = ch.n(6);
    if l + d < 3 {
        return Ok(());
    }
    let n = l + d - 3;
    c.ctx = V::map([("v", V::Int(n as i64))]);
    c.funcs = FUNCS;
    let body = *ch.pick(&[
        "{{ v }}.{% if v %}{% include \"t\" with v | add: -1 | mk %}{% endif %};",
        "{{ v }}.{% if v %}{% with v | add: -1 as v %}{% include \"t\" %}{% endwith %}{% endif %};",
        "{{ v }}.{% if v %}{% include \"u\" %}{% with v | add: -1 as v %}{% include \"t\" %}{% endwith %}{% include \"u\" %}{% endif %};",
    ]);
    c = c.temp("t", body).temp("u", "u");
    c.root = crate::run::Root::Named("t".into());
    check(&c, M, rec)
}

/// All graphs of three templates with up to two includes each.
fn graphs(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut c = Case::new("", ctx()).writer(true);
    let how = ch.n(2);
    let l = ch.range(0, if rec.thorough() { 6 } else { 5 });
    if how == 0 {
        c.emax = Some(l);
    } else {
        c.rmax = Some(l);
    }
    c.funcs = FUNCS;
    let bare = ch.flag();
    let names = ["a", "b", "c"];
    for n in names {
        let mut s = if bare { String::new() } else { n.to_string() };
        let k = ch.n(3);
        for _ in 0..k {
            let t = *ch.pick(&names);
            let w = *ch.pick(&["", " with t | mkr"]);
            s.push_str(&format!("{{% include \"{t}\"{w} %}}"));
            if !bare {
                s.push_str(n);
            }
        }
        c = c.temp(n, s);
    }
    c.root = crate::run::Root::Named("a".into());
    check(&c, M, rec)
}

/// Includes that have finished do not count.
fn sequences(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut c = Case::new("", ctx()).writer(true);
    limit(ch, rec, &mut c, true);
    let n = *ch.pick(&[0, 1, 2, 3, 5, 62, 63, 64, 65, 66, 100, 128, 129, 256, 300, 1000]);
    let depth = ch.range(1, 5);
    let with = *ch.pick(&["", " with m"]);
    let looped = ch.flag();
    for i in 1..=depth {
        let inner = if i == depth { String::new() } else { format!("{{% include \"d{}\" %}}", i + 1) };
        c = c.temp(format!("d{i}"), format!("({inner})"));
    }
    let inc = format!("{{% include \"d1\"{with} %}}");
    let src = if looped {
        format!("{{% for i in {n} | range %}}{inc}{{% endfor %}}end")
    } else {
        format!("{}end", inc.repeat(n))
    };
    c.root = crate::run::Root::Anon(src);
    check(&c, M, rec)
}
