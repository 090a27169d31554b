//! C03: scoping.

use crate::explore::{Ch, Rec};
use crate::run::{check, Case, Mask, Mode, PLAIN};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        level: "model_checking",
        rule: "every nesting of binding blocks over colliding names within the bounds, probed at every point, is rendered by the implementation and by the reference machine; a trace counts when the template compiles",
        scenarios: vec![
            Scenario { name: "nestings", body: nestings },
            Scenario { name: "shadow-paths", body: shadow_paths },
            Scenario { name: "unbound", body: unbound },
            Scenario { name: "own-expression", body: own_expression },
            Scenario { name: "depth", body: depth },
            Scenario { name: "places", body: places },
            Scenario { name: "alike", body: alike },
            Scenario { name: "loop-name", body: loop_name },
        ],
        apart: &[],
    }
}

const WRITTEN: Mask = Mask {
    partial: true,
    ..PLAIN
};

struct G {
    budget: usize,
    lit: usize,
    probe_b: usize,
    loops: usize,
}

impl G {
    fn probe(&self, depth: usize) -> String {
        let mut s = "{{ a | show }}".to_string();
        if self.probe_b == 1 || (self.probe_b == 2 && depth > 0) {
            s.push_str("{{ b | show }}");
        }
        if self.loops > 0 {
            s.push_str("{{ loop.index }}");
        }
        s.push(';');
        s
    }
    fn body(&mut self, ch: &mut Ch, depth: usize) -> String {
        let mut s = self.probe(depth);
        while self.budget > 0 && ch.flag() {
            self.budget -= 1;
            let t = self.stmt(ch, depth);
            s.push_str(&t);
            s.push_str(&self.probe(depth));
        }
        s
    }
    fn stmt(&mut self, ch: &mut Ch, depth: usize) -> String {
        self.lit += 1;
        let lit = self.lit;
        let k = ch.n(9);
        let name = |ch: &mut Ch| *ch.pick(&["a", "b"]);
        match k {
            0 => {
                let n = name(ch);
                let e = [format!("{lit}"), "a".to_string(), "b".to_string()][ch.n(3)].clone();
                let b = self.body(ch, depth + 1);
                format!("{{% with {e} as {n} %}}{b}{{% endwith %}}")
            }
            1 | 2 => {
                let n = name(ch);
                self.loops += 1;
                let b = self.body(ch, depth + 1);
                self.loops -= 1;
                let e = if k == 1 { "l" } else { "l | id" };
                format!("{{% for {n} in {e} %}}{b}{{% endfor %}}")
            }
            3 | 4 => {
                let (x, y) = *ch.pick(&[("a", "b"), ("b", "a"), ("k", "a"), ("a", "k"), ("a", "a")]);
                self.loops += 1;
                let b = self.body(ch, depth + 1);
                self.loops -= 1;
                let e = if k == 3 { "m" } else { "m | id" };
                format!("{{% for {x}, {y} in {e} %}}{b}{{% endfor %}}")
            }
            5 => {
                let c = *ch.pick(&["t", "f"]);
                let b = self.body(ch, depth + 1);
                let e = self.body(ch, depth + 1);
                format!("{{% if {c} %}}{b}{{% else %}}{e}{{% endif %}}")
            }
            6 => "{% include \"show\" %}".into(),
            7 => "{% include \"bind\" %}".into(),
            _ => "{% include \"apart\" with m %}".into(),
        }
    }
}

fn nestings(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let probe_b = ch.n(3);
    let has_b = ch.flag();
    if !has_b && probe_b == 1 {
        // Fails at once, always.
        return Ok(());
    }
    let mut g = G {
        budget: if rec.thorough() { 4 } else { 3 },
        lit: 100,
        probe_b,
        loops: 0,
    };
    let src = g.body(ch, 0);
    let mut ctx = vec![
        ("a", V::s("ctx-a")),
        ("l", V::list([V::s("l0"), V::s("l1")])),
        ("m", V::map([("a", V::s("m-a")), ("q", V::s("m-q"))])),
        ("t", V::Bool(true)),
        ("f", V::Bool(false)),
    ];
    if has_b {
        ctx.push(("b", V::s("ctx-b")));
    }
    let c = Case::new(src, V::map(ctx))
        .temp("show", "({{ a | show }})")
        .temp("bind", "({{ a | show }}{% with 7 as a %}{{ a | show }}{% for b in 1 | range %}{{ b | show }}{{ a | show }}{% endfor %}{% endwith %}{{ a | show }})")
        .temp("apart", "({{ a | show }}{% with 8 as b %}{{ b | show }}{% endwith %}{{ q | show }})")
        .writer(true);
    check(&c, WRITTEN, rec)
}

/// Two bindings of the same name in all combinations, with values of all
/// shapes: the inner one decides, even when it does not fit.
fn shadow_paths(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let shapes = [
        V::Int(5),
        V::map([("q", V::Int(1))]),
        V::map([("z", V::Int(2))]),
        V::list([V::Int(3), V::map([("q", V::Int(4))])]),
        V::list([]),
        V::None,
        V::s("s"),
    ];
    let outer = ch.pick(&shapes).clone();
    let inner = ch.pick(&shapes).clone();
    let kinds: &[(&str, &str)] = &[
        ("", ""),
        ("{% with X as n %}", "{% endwith %}"),
        ("{% with X | id as n %}", "{% endwith %}"),
        ("{% for n in lX %}", "{% endfor %}"),
        ("{% for n in lX | id %}", "{% endfor %}"),
        ("{% for k, n in mX %}", "{% endfor %}"),
        ("{% for k, n in mX | id %}", "{% endfor %}"),
        ("{% for n, v in mX %}", "{% endfor %}"),
        ("{% for n, v in mX | id %}", "{% endfor %}"),
        ("{% if t %}", "{% endif %}"),
    ];
    let o = *ch.pick(kinds);
    let i = *ch.pick(kinds);
    let path = *ch.pick(&["n", "n.q", "n?.q", "n.0", "n?.0", "n.1.q", "n?.7?.q", "n?.zz.zz"]);
    let src = format!(
        "{}{}{{{{ {path} | show }}}}{}{{{{ n | show }}}}{}{{{{ n | show }}}}",
        o.0.replace('X', "O"),
        i.0.replace('X', "I"),
        i.1,
        o.1
    );
    let mut ctx = vec![
        ("O", outer.clone()),
        ("I", inner.clone()),
        ("lO", V::list([outer.clone()])),
        ("lI", V::list([inner.clone()])),
        ("mO", V::map([("ko", outer.clone())])),
        ("mI", V::map([("ki", inner.clone())])),
        ("t", V::Bool(true)),
    ];
    let base = ch.n(3);
    if base > 0 {
        ctx.push(("n", V::map([("q", V::s("base"))])));
    }
    let mode = if base == 2 { Mode::Serde } else { Mode::From };
    check(&Case::new(src, V::map(ctx)).mode(mode).writer(true), WRITTEN, rec)
}

/// Names that are nowhere, in every place an expression can be.
fn unbound(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let path = *ch.pick(&["u", "u.x", "u?.x", "u.0", "loop", "loop.index", "loop?.index", "A", "aa", "a1", "_a", "a"]);
    let place = *ch.pick(&[
        "{{ P }}",
        "{{ P | show }}",
        "{{ P | id }}",
        "{{ 1 | pair: P | show }}",
        "{% if P %}x{% endif %}",
        "{% if not P %}x{% endif %}",
        "{% if f %}y{% else if P %}x{% endif %}",
        "{% for y in P %}x{% endfor %}",
        "{% for y, z in P %}x{% endfor %}",
        "{% with P as w %}x{% endwith %}",
        "{% with P as u %}x{% endwith %}",
        "{% include \"i\" with P %}",
        "{% include \"p\" %}",
        "{% include \"p\" with m %}",
        "{% include \"p\" with P %}",
    ]);
    let wrap = *ch.pick(&[
        ("", ""),
        ("{% if t %}", "{% endif %}"),
        ("{% with 1 as u %}{% endwith %}", ""),
        ("{% with 1 as b %}", "{% endwith %}"),
        ("{% for u in l %}{% endfor %}", ""),
        ("{% for b in l %}", "{% endfor %}"),
        ("{% for k, v in m %}{% endfor %}", ""),
        ("{% if t %}{% with 1 as u %}{% endwith %}{% else %}", "{% endif %}"),
        ("{% if f %}{% with 1 as u %}{% endwith %}{% else %}", "{% endif %}"),
        ("{% include \"binds\" %}", ""),
        ("{% with 1 as u %}{% include \"p\" with m %}", "{% endwith %}"),
        ("{% for u in l %}{% include \"p\" with m %}", "{% endfor %}"),
        ("", "{% with 1 as u %}{% endwith %}"),
    ]);
    let src = format!("<{}{}{}>", wrap.0, place.replace('P', path), wrap.1);
    let ctx = V::map([
        ("a", V::Int(1)),
        ("t", V::Bool(true)),
        ("f", V::Bool(false)),
        ("l", V::list([V::Int(0), V::Int(1)])),
        ("m", V::map([("p", V::Int(1))])),
    ]);
    let c = Case::new(src, ctx)
        .temp("i", "inc")
        .temp("p", format!("[{{{{ {path} }}}}]"))
        .temp("binds", "{% with 1 as u %}{% for u in 1 | range %}{% endfor %}{% endwith %}")
        .writer(true);
    check(&c, WRITTEN, rec)
}

/// A binding is not visible in the expression that computes it.
fn own_expression(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut src = String::new();
    let mut ends = String::new();
    let n = ch.range(1, 4);
    for _ in 0..n {
        let (s, e) = *ch.pick(&[
            ("{% with a | mk as a %}", "{% endwith %}"),
            ("{% with a?.v as a %}", "{% endwith %}"),
            ("{% with b as a %}", "{% endwith %}"),
            ("{% with a as b %}", "{% endwith %}"),
            ("{% with a | pair: b as b %}", "{% endwith %}"),
            ("{% for a in a | pair: b %}", "{% endfor %}"),
            ("{% for b in a | pair: b | id %}", "{% endfor %}"),
            ("{% for b, a in a | mk %}", "{% endfor %}"),
            ("{% for a in b | pair: loop %}", "{% endfor %}"),
        ]);
        src.push_str(s);
        src.push_str("{{ a | show }}{{ b | show }}");
        ends = format!("{e}{{{{ a | show }}}}{{{{ b | show }}}}{ends}");
    }
    let src = format!("{src}{ends}");
    let ctx = V::map([("a", V::map([("v", V::Int(1))])), ("b", V::s("B"))]);
    check(&Case::new(src, ctx).writer(true), WRITTEN, rec)
}

/// Many scopes between a name and its binding.
fn depth(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let sizes = [0usize, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300];
    let n = *ch.pick(&sizes);
    let kind = ch.n(4);
    let at = *ch.pick(&[0, 1, 2]);
    let hit = [0, n / 2, n.saturating_sub(1)][at];
    let mut s = String::new();
    let mut e = String::new();
    for i in 0..n {
        let name = if i == hit { "a".to_string() } else { format!("z{i}") };
        let (x, y) = match kind {
            0 => (format!("{{% with {i} as {name} %}}"), "{% endwith %}"),
            1 => (format!("{{% for {name} in l %}}"), "{% endfor %}"),
            2 => (format!("{{% for {name}, q in m %}}"), "{% endfor %}"),
            _ if i % 2 == 0 => (format!("{{% for {name} in l | id %}}"), "{% endfor %}"),
            _ => (format!("{{% with {i} as {name} %}}"), "{% endwith %}"),
        };
        s.push_str(&x);
        e = format!("{y}{{{{ a | show }}}}{e}");
    }
    let ctx = V::map([
        ("a", V::s("root")),
        ("l", V::list([V::s("el")])),
        ("m", V::map([("key", V::Int(0))])),
    ]);
    check(&Case::new(format!("{s}{{{{ a | show }}}}{e}"), ctx), PLAIN, rec)
}

/// Two names that differ at one place only, or in their length.
fn alike(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = *ch.pick(&[1usize, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]);
    let base: Vec<char> = match ch.n(3) {
        0 => vec!['n'; n],
        1 => (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect(),
        _ => "loop".chars().cycle().take(n).collect(),
    };
    let at = match ch.n(6) {
        0 => 0,
        1 => n / 2,
        2 => n - 1,
        3 => n.saturating_sub(2),
        4 => 8 % n,
        _ => n / 3,
    };
    let mut other = base.clone();
    match ch.n(6) {
        0 => other[at] = 'Z',
        1 => other[at] = base[at].to_ascii_uppercase(),
        2 => other[at] = '_',
        3 => other.insert(at, '_'),
        4 if n > 1 => drop(other.remove(at)),
        _ => other[at] = '\u{e9}',
    }
    let (a, b): (String, String) = (base.iter().collect(), other.iter().collect());
    const WORDS: &[&str] = &["loop", "if", "in", "as", "not", "for", "else", "with", "endif", "endfor", "endwith", "include", "true", "false"];
    if a == b || [&a, &b].iter().any(|s| WORDS.contains(&s.as_str())) {
        return Ok(());
    }
    // The second is bound inside of the first, or in a map.
    let src = match ch.n(6) {
        0 => format!("{{% with 1 as {a} %}}{{% with 2 as {b} %}}{{{{ {a} }}}}{{{{ {b} }}}}{{% endwith %}}{{% endwith %}}"),
        1 => format!("{{% for {a} in l %}}{{% for {b} in l | id %}}{{{{ {a} }}}}{{{{ {b} }}}}{{% endfor %}}{{% endfor %}}"),
        2 => format!("{{% for {a}, {b} in m %}}{{{{ {a} }}}}{{{{ {b} }}}}{{% endfor %}}"),
        3 => format!("{{% for {b}, {a} in m | id %}}{{{{ {a} }}}}{{{{ {b} }}}}{{% endfor %}}"),
        4 => format!("{{{{ o.{a} }}}}{{{{ o?.{b} }}}}{{% include \"i\" with o %}}"),
        _ => format!("{{% with 2 as {b} %}}{{{{ {b} }}}}{{{{ {a} }}}}{{% endwith %}}"),
    };
    let ctx = V::map([
        ("l", V::list([V::Int(0), V::Int(1)])),
        ("m", V::map([("k0", V::Int(2)), ("k1", V::Int(3))])),
        ("o", V::map([(a.clone(), V::s("oa"))])),
    ]);
    let c = Case::new(src, ctx).temp("i", format!("{{{{ {a} }}}}{{{{ {b} }}}}")).writer(true);
    check(&c, WRITTEN, rec)
}

/// `loop` is a name like any other where it is bound, and the innermost
/// binding decides: the loop's own, a `with`, a loop variable, the context.
fn loop_name(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const BINDS: &[(&str, &str)] = &[
        ("{% with v as loop %}", "{% endwith %}"),
        ("{% with m as loop %}", "{% endwith %}"),
        ("{% with m | id as loop %}", "{% endwith %}"),
        ("{% with loop as a %}", "{% endwith %}"),
        ("{% with loop.index as loop %}", "{% endwith %}"),
        ("{% for x in l %}", "{% endfor %}"),
        ("{% for x in l | id %}", "{% endfor %}"),
        ("{% for loop in l %}", "{% endfor %}"),
        ("{% for x, loop in m %}", "{% endfor %}"),
        ("{% for loop, x in m | id %}", "{% endfor %}"),
        ("{% if loop %}", "{% endif %}"),
        ("{% include \"p\" %}{% include \"p\" with m %}", ""),
        ("{% include \"b\" %}", ""),
    ];
    let probe = *ch.pick(&["{{ loop | show }}", "{{ loop.index }}", "{{ loop?.index | show }}", "{{ loop?.q | show }}", "{{ a | show }}"]);
    let own = ch.n(3);
    let n = ch.range(1, if rec.thorough() { 5 } else { 4 });
    let mut src = String::new();
    let mut ends = String::new();
    for _ in 0..n {
        let (s, e) = *ch.pick(BINDS);
        src.push_str(s);
        src.push_str(probe);
        ends = format!("{e}{probe}{ends}");
    }
    let mut ctx = vec![
        ("a", V::Int(9)),
        ("v", V::Int(1)),
        ("l", V::list([V::Int(7), V::map([("index", V::s("I"))])])),
        ("m", V::map([("index", V::s("mi")), ("q", V::Int(2))])),
    ];
    match own {
        0 => {}
        1 => ctx.push(("loop", V::map([("index", V::s("ctx")), ("q", V::Int(3))]))),
        _ => ctx.push(("loop", V::s("C"))),
    }
    let c = Case::new(format!("{src}{ends}"), V::map(ctx))
        .temp("p", format!("({probe})"))
        .temp("b", format!("({{% with 5 as loop %}}{probe}{{% endwith %}}{{% for y in l %}}{probe}{{% with y as loop %}}{probe}{{% endwith %}}{{% endfor %}}{probe})"))
        .writer(true);
    check(&c, WRITTEN, rec)
}

/// One tag rendered again and again with other bindings around it.
fn places(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const BINDS: &[(&str, &str)] = &[
        ("{% with # as a %}", "{% endwith %}"),
        ("{% with # as b %}", "{% endwith %}"),
        ("{% for a in l# %}", "{% endfor %}"),
        ("{% for b in l# | id %}", "{% endfor %}"),
        ("{% for a, b in m# %}", "{% endfor %}"),
        ("{% for k, a in m# | id %}", "{% endfor %}"),
        ("{% with 0 as c %}", "{% endwith %}"),
        ("{% if t %}", "{% endif %}"),
    ];
    // Binds that are used a second time after others.
    let n = if rec.thorough() { 3 } else { 2 };
    let through = *ch.pick(&["{% include \"p\" %}", "{% include \"q\" %}", "{% include \"p\" with n# %}"]);
    let mut src = String::new();
    for i in 1..=n {
        let (mut s, mut e) = (String::new(), String::new());
        let most = if i == 3 { 1 } else { 2 };
        for j in 0..most {
            if ch.flag() {
                break;
            }
            let (x, y) = *ch.pick(BINDS);
            let mark = format!("{}", 2 * i + j);
            s.push_str(&x.replace('#', &mark));
            e = format!("{y}{e}");
        }
        src.push_str(&format!("{s}{}{e}.", through.replace('#', &i.to_string())));
    }
    let mut ctx = vec![("a", V::s("A")), ("b", V::map([("x", V::s("B"))])), ("t", V::Bool(true))];
    let names: Vec<(String, V)> = (0..10)
        .flat_map(|i| {
            [
                (format!("l{i}"), V::list([V::Int(10 + i)])),
                (format!("m{i}"), V::map([(format!("k{i}"), V::Int(20 + i))])),
                (
                    format!("n{i}"),
                    match i {
                        1 => V::map([("a", V::Int(31)), ("b", V::Int(32))]),
                        2 => V::map([("b", V::Int(33)), ("a", V::s("n"))]),
                        _ => V::map([("a", V::list([])), ("b", V::None), ("c", V::Int(1))]),
                    },
                ),
            ]
        })
        .collect();
    ctx.extend(names.iter().map(|(k, v)| (k.as_str(), v.clone())));
    let c = Case::new(src, V::map(ctx))
        .temp("p", "({{ a | show }}{{ b | show }})")
        .temp("q", "[{% with b as z %}{% include \"p\" %}{{ z | show }}{% endwith %}]")
        .mode(*ch.pick(&[Mode::From, Mode::Fn]))
        .writer(true);
    check(&c, WRITTEN, rec)
}
