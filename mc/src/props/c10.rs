//! C10: the grammar.

use std::cell::OnceCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::explore::{fnv, Ch, Rec, FNV0};
use crate::funcs::{install, STD};
use crate::model::lex::Finder;
use crate::model::Syn;
use crate::props::gen::SIZES;
use crate::run::{clip, compile_model_with, panic_text, parse_err};
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        level: "model_checking",
        rule: "every string of the enumerated tag and token sequences is compiled by the implementation, by an engine without and one with functions and templates, and parsed by the reference grammar; transitions are tokens and statements of the reference, a trace counts when it is well formed",
        scenarios: vec![
            Scenario { name: "blocks", body: blocks },
            Scenario { name: "else", body: elses },
            Scenario { name: "tokens", body: tokens },
            Scenario { name: "adjacent", body: adjacent },
            Scenario { name: "statements", body: statements },
            Scenario { name: "keywords", body: keywords },
            Scenario { name: "delimiters", body: delimiters },
            Scenario { name: "ends", body: ends },
            Scenario { name: "characters", body: characters },
            Scenario { name: "edits", body: edits },
            Scenario { name: "long edits", body: long_edits },
            Scenario { name: "sizes", body: sizes },
        ],
        apart: &[],
    }
}

struct Ctx {
    finder: Finder,
    empty: upon::Engine<'static>,
    full: upon::Engine<'static>,
}
thread_local! {
    static CTX: OnceCell<Ctx> = const { OnceCell::new() };
}

/// Compiles both ways.
fn agree(src: &str, rec: &mut Rec) -> Result<(), String> {
    CTX.with(|c| {
        let c = c.get_or_init(|| {
            let mut full = upon::Engine::new();
            for (n, f) in STD {
                install(&mut full, n, *f);
            }
            for n in ["a", "i", "x", "t"] {
                install(&mut full, n, crate::funcs::Fun::P(crate::funcs::Fmt::Show));
            }
            for n in ["n", "x", ""] {
                full.add_template(n, "t").unwrap();
            }
            Ctx {
                finder: Finder::new(&Syn::default()),
                empty: upon::Engine::new(),
                full,
            }
        });
        let m = compile_model_with(&c.finder, None, src);
        let want = m.is_ok();
        rec.traces += 1;
        rec.transitions += 1 + m.as_ref().map_or(0, |t| t.body.len() as u64);
        rec.nontrivial += u64::from(want);
        let h = fnv(FNV0, src.as_bytes());
        rec.state(h);
        rec.outcome(match &m {
            Ok(t) => fnv(FNV0, format!("{:?}", t.body).as_bytes()),
            Err(e) => fnv(1, format!("{:?}", e.at.as_ref().map(|x| x.1)).as_bytes()),
        });
        rec.sample(|| format!("{} => {}", clip(src), if want { "compiles" } else { "syntax error" }));
        for (e, which) in [(&c.empty, "an empty engine"), (&c.full, "an engine with functions and templates")] {
            let r = catch_unwind(AssertUnwindSafe(|| e.compile(src).map(|_| ())))
                .map_err(|p| format!("compiling panicked: {}\n  template {}", panic_text(p), clip(src)))?;
            match r {
                Ok(()) if want => {}
                Err(e) if !want => {
                    if parse_err(&e, true).kind != crate::model::interp::Kind::Syntax {
                        return Err(format!("not a syntax error: {e}\n  template {}", clip(src)));
                    }
                }
                Ok(()) => return Err(format!("{which} accepts an ill formed template\n  template {}", clip(src))),
                Err(e) => return Err(format!("{which} rejects a well formed template: {e:#}\n  template {}", clip(src))),
            }
        }
        Ok(())
    })
}

fn seq(ch: &mut Ch, al: &[&str], lo: usize, hi: usize, sep: &str) -> String {
    let n = ch.range(lo, hi);
    let mut v = vec![];
    for _ in 0..n {
        v.push(al[ch.n(al.len())]);
    }
    v.join(sep)
}

/// Every sequence of block tags.
fn blocks(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const A: &[&str] = &[
        "{% if a %}",
        "{% else if b %}",
        "{% else %}",
        "{% endif %}",
        "{% for x in l %}",
        "{% endfor %}",
        "{% with a as x %}",
        "{% endwith %}",
        "{% include \"n\" %}",
        "{{ a }}",
        "t",
    ];
    let s = seq(ch, A, 0, if rec.thorough() { 7 } else { 6 }, "");
    agree(&s, rec)
}

/// Longer sequences of the tags of conditionals inside an open block.
fn elses(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const A: &[&str] = &["{% if a %}", "{% else if not b %}", "{%- else -%}", "{% endif %}", "x"];
    let (pre, post) = *ch.pick(&[("{% if a %}", "{% endif %}"), ("{% for x in l %}", "{% endfor %}"), ("{% if a %}{% with a as x %}", "{% endwith %}{% endif %}")]);
    let s = seq(ch, A, 0, if rec.thorough() { 8 } else { 7 }, "");
    agree(&format!("{pre}{s}{post}"), rec)
}

const TOKENS: &[&str] = &["a", ".", "?.", "0", "|", ":", ",", "1", "-", "\"s\"", "true", "not", "if", "in", "as", "with", "b"];

/// Every sequence of tokens inside a tag.
fn tokens(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const W: &[(&str, &str)] = &[
        ("{{ ", " }}"),
        ("{% if ", " %}{% endif %}"),
        ("{% for ", " %}{% endfor %}"),
        ("{% with ", " %}{% endwith %}"),
        ("{% include ", " %}"),
        ("{% if a %}{% else ", " %}{% endif %}"),
        ("{% if a %}{% endif ", " %}"),
        ("{% ", " %}"),
    ];
    let k = ch.n(W.len());
    let (pre, post) = W[k];
    let max = match (k, rec.thorough()) {
        (0, true) => 6,
        (_, true) => 5,
        (0, false) => 5,
        (_, false) => 4,
    };
    let s = seq(ch, TOKENS, 0, max, " ");
    agree(&format!("{pre}{s}{post}"), rec)
}

/// The same without spaces and with other spaces.
fn adjacent(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const A: &[&str] = &["a", ".", "?.", "?", "0", "|", ":", ",", "1", "-", "+", "\"s\"", "true", " ", "\t", "\n", "\r", "_", "é", "if"];
    let (pre, post) = *ch.pick(&[("{{", "}}"), ("{{-", "-}}"), ("{%if ", "%}{%endif%}")]);
    let s = seq(ch, A, 0, if rec.thorough() { 5 } else { 4 }, "");
    agree(&format!("{pre}{s}{post}"), rec)
}

/// The documented forms, with every phrase in every place.
fn statements(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const E: &[&str] = &[
        "a", "a.b", "a?.0", "1", "-1", "+1", "\"s\"", "true", "not a", "a | f", "a | f: b", "a | f: 1, \"s\", b.c", "a | f: -1 | g", "a | f:", "a |", "| f",
        "a | f: b | ", "a b", "", "a | f: b, ", "a | f.g", "a | \"f\"", "a | 1", "a | if", "a | f: not b", "a | f: (b)", "a | f b", "a: b", "a, b", "a.", ".a",
        "a..b", "a?b", "a.if", "a.true", "a.1b", "a.-1", "- 1", "--1", "1.a", "\"s\".a", "true.a", "loop", "loop.index", "if", "a | f: a | f: a", "1 | f",
        "a.b | f : c.d , 1", "a . b", "a ?. b", "in", "as", "a.0.1", "a.0?.1.b", "a | not",
    ];
    const T: &[&str] = &[
        "{{ E }}",
        "{{E}}",
        "{% if E %}x{% endif %}",
        "{% if not E %}x{% endif %}",
        "{% if a %}{% else if E %}{% endif %}",
        "{% if a %}{% else if not E %}{% else %}{% endif %}",
        "{% for x in E %}y{% endfor %}",
        "{% for x, y in E %}y{% endfor %}",
        "{% with E as x %}y{% endwith %}",
        "{% include \"n\" with E %}",
        "{% include E %}",
        "{% include E with a %}",
        "{% for E in a %}y{% endfor %}",
        "{% for x, E in a %}y{% endfor %}",
        "{% for E, x in a %}y{% endfor %}",
        "{% with a as E %}y{% endwith %}",
        "{% with a as x E %}y{% endwith %}",
        "{% for x in a E %}y{% endfor %}",
        "{% if a %}{% else E %}{% endif %}",
        "{% if a %}{% endif E %}",
        "{% for x in a %}{% endfor E %}",
        "{% with a as x %}{% endwith E %}",
        "{% include \"n\" E %}",
        "{% E %}",
        "{% for x E a %}y{% endfor %}",
        "{% with a E x %}y{% endwith %}",
        "{# E #}",
        "{% if E %}x{% else if E %}y{% else %}z{% endif %}",
    ];
    let t = *ch.pick(T);
    let s = t.replace('E', E[ch.n(E.len())]);
    agree(&s, rec)
}

/// Words in every place a word can be.
fn keywords(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const W: &[&str] = &[
        "if", "not", "else", "endif", "for", "in", "endfor", "with", "as", "endwith", "include", "true", "false", "If", "IF", "ifx", "if_", "_if", "if1",
        "elseif", "elif", "endIf", "end", "none", "None", "null", "and", "or", "is", "loop", "TRUE", "truex", "infor", "raw", "set", "ifé", "nót", "import",
        "foreach", "while", "block", "endinclude", "endelse",
    ];
    const T: &[&str] = &[
        "{{ W }}", "{{ a.W }}", "{{ W.a }}", "{{ a?.W }}", "{{ a | W }}", "{{ a | f: W }}", "{{ W | f }}", "{{ a | f: 1, W }}", "{% W %}", "{% W a %}{% endif %}",
        "{% if W %}{% endif %}", "{% if not W %}{% endif %}", "{% if W a %}{% endif %}", "{% if a %}{% W %}", "{% if a %}{% W %}{% endif %}",
        "{% if a %}{% else W b %}{% endif %}", "{% for W in a %}{% endfor %}", "{% for W, x in a %}{% endfor %}", "{% for x, W in a %}{% endfor %}",
        "{% for x in W %}{% endfor %}", "{% for x W a %}{% endfor %}", "{% for x in a %}{% W %}", "{% with W as x %}{% endwith %}",
        "{% with a as W %}{% endwith %}", "{% with a W x %}{% endwith %}", "{% with a as x %}{% W %}", "{% include W %}", "{% include \"n\" W a %}",
        "{% include \"n\" with W %}", "{%W%}", "{%-W-%}", "{%W a%}{%endif%}", "{{W}}", "{{ W W }}", "{% W W %}",
    ];
    let t = *ch.pick(T);
    let s = t.replace('W', W[ch.n(W.len())]);
    agree(&s, rec)
}

/// Delimiters of every kind in every order.
fn delimiters(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const A: &[&str] = &["{{", "}}", "{%", "%}", "{#", "#}", "-", "a", " ", "if a", "endif", "\"", "\n"];
    let s = seq(ch, A, 0, if rec.thorough() { 6 } else { 5 }, "");
    agree(&s, rec)
}

/// Every way to stop in the middle of something.
fn ends(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const BEFORE: &[&str] = &["", "t", "\n", "{{ a }}", "{# c #}", "{% if a %}", "{% if a %}x{% endif %}", "{% for x in l %}{{ x }}", "{{ a -}} ", "é"];
    const OPEN: &[&str] = &["{#", "{%", "{{", "{#-", "{%-", "{{-", "{# c", "{{ a", "{% endif", "{% if a", "{{ \"s", "{{ a |", "{% include \"n\"", "{", "{% if a %}", "{# c #", "{{ a }", "{% else %}"];
    const AFTER: &[&str] = &["", " ", "\n", "\r\n", "\t", "-", "#", "}", "%", "\n\n", " \n", "c", "\u{0}", "\u{a0}", "é", "{", "#}", "%}", "}}", "-#}", "-%}", "-}}", "\n#}"];
    let mut s = ch.pick(BEFORE).to_string();
    s.push_str(*ch.pick(OPEN));
    for _ in 0..if rec.thorough() { 3 } else { 2 } {
        s.push_str(*ch.pick(AFTER));
    }
    agree(&s, rec)
}

/// Every character, in every place a character can be.
fn characters(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const AT: &[&str] = &[
        "{{ X }}", "{{ aX }}", "{{ Xa }}", "{{ a.X }}", "{{ aXb }}", "{{ a X b }}", "{{ 1X }}", "{{ \"X\" }}", "{{ \"\\X\" }}", "{{ aX| f }}", "{%Xif a %}{% endif %}",
        "{% ifXa %}{% endif %}", "{% for X in a %}{% endfor %}", "X", "{#X#}", "{{ a | fX: b }}", "{{ a?X }}", "{{Xa}}", "{% include \"X\" %}",
    ];
    let hi = if rec.thorough() { 0x1100 } else { 0x31 };
    let page = ch.n(hi + 6);
    let page = if page < hi { page } else { [0x4e, 0xfe, 0xff, 0x1f6, 0x104, 0xe01][page - hi] };
    let c = match char::from_u32((page * 256 + ch.n(256)) as u32) {
        Some(c) => c,
        None => return Ok(()),
    };
    for t in AT {
        agree(&t.replace('X', &c.to_string()), rec)?;
    }
    Ok(())
}

const CORPUS: &[&[&str]] = &[
    &["{%", "if", "not", "a", ".", "b", "|", "f", ":", "1", ",", "\"s\"", "%}", "x", "{%", "else", "if", "c", "%}", "y", "{%", "else", "%}", "z", "{%", "endif", "%}"],
    &["{%", "for", "k", ",", "v", "in", "m", "|", "f", "%}", "{{", "k", "}}", "{%", "for", "x", "in", "v", "%}", "{{", "x", "?.", "0", "}}", "{%", "endfor", "%}", "{%", "endfor", "%}"],
    &["{%", "with", "a", "|", "f", ":", "-", "1", "as", "x", "%}", "{%", "include", "\"n\"", "with", "x", "%}", "{%", "endwith", "%}", "{#", "c", "#}", "{{", "x", "}}"],
    &["{%", "if", "a", "%}", "{%", "for", "x", "in", "l", "%}", "{%", "if", "x", "%}", "{%", "else", "%}", "{%", "with", "x", "as", "y", "%}", "{%", "endwith", "%}", "{%", "endif", "%}", "{%", "endfor", "%}", "{%", "endif", "%}"],
];

/// Well formed templates with a token removed, repeated, replaced or swapped.
fn edits(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const SUB: &[&str] = &["a", ".", "|", ":", ",", "1", "\"s\"", "-", "true", "if", "not", "else", "endif", "for", "in", "endfor", "with", "as", "endwith", "include", "{{", "}}", "{%", "%}", "{#", "#}", "x"];
    let mut v: Vec<&str> = ch.pick(CORPUS).to_vec();
    let edits = if rec.thorough() { 2 } else { 1 };
    for _ in 0..edits {
        let i = ch.n(v.len());
        match ch.n(5) {
            0 => {
                v.remove(i);
            }
            1 => v.insert(i, v[i]),
            2 => v[i] = SUB[ch.n(SUB.len())],
            3 => v.insert(i, SUB[ch.n(SUB.len())]),
            _ => {
                let j = ch.n(v.len());
                v.swap(i, j);
            }
        }
    }
    agree(&v.join(" "), rec)
}

/// One token changed in a tag of many: where something is repeated, what is
/// allowed does not depend on how often it was.
fn long_edits(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const SUB: &[&str] = &["a", ".", "?.", "|", ":", ",", "1", "\"s\"", "-", "true", "if", "not", "in", "as", "with", "loop", "0", "f"];
    let counts: &[usize] = if rec.thorough() { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33] } else { &[0, 1, 2, 3, 4, 5, 7, 9] };
    let n = *ch.pick(counts);
    let m = ch.range(0, if rec.thorough() { 3 } else { 2 });
    let mut v: Vec<&str> = vec![];
    let how = ch.n(3);
    match how {
        // Many arguments.
        0 => {
            v.push("a");
            for _ in 0..=m {
                v.extend(["|", "f"]);
                for i in 0..n {
                    v.extend([if i == 0 { ":" } else { "," }, ["b", "1", "\"s\"", "true"][i % 4]]);
                }
            }
        }
        // A long path, as value and as argument.
        1 => {
            v.push("a");
            for i in 0..n {
                v.extend([[".", "?."][i % 2], ["b", "0"][i / 2 % 2]]);
            }
            for _ in 0..m {
                v.extend(["|", "f", ":", "c"]);
                for _ in 0..n {
                    v.extend([".", "d"]);
                }
            }
        }
        // Many filters.
        _ => {
            v.push("1");
            for i in 0..n {
                v.extend(["|", "f"]);
                if m > 0 && i % m == 0 {
                    v.extend([":", "x"]);
                }
            }
        }
    }
    let (a, b): (&[&str], &[&str]) = match ch.n(6) {
        0 => (&["{{"], &["}}"]),
        1 => (&["{%", "if"], &["%}", "{%", "endif", "%}"]),
        2 => (&["{%", "if", "a", "%}", "{%", "else", "if", "not"], &["%}", "{%", "endif", "%}"]),
        3 => (&["{%", "for", "k", ",", "v", "in"], &["%}", "{%", "endfor", "%}"]),
        4 => (&["{%", "with"], &["as", "y", "%}", "{%", "endwith", "%}"]),
        _ => (&["{%", "include", "\"t\"", "with"], &["%}"]),
    };
    let (from, to) = (a.len(), a.len() + v.len());
    let mut v: Vec<&str> = a.iter().chain(&v).chain(b).copied().collect();
    let i = from + ch.n(to - from);
    match ch.n(5) {
        0 => drop(v.remove(i)),
        1 => v.insert(i, v[i]),
        2 => v[i] = SUB[ch.n(SUB.len())],
        3 => v.insert(i + 1, SUB[ch.n(SUB.len())]),
        _ if i + 1 < to => v.swap(i, i + 1),
        _ => {}
    }
    // With and without spaces between them.
    let s = match ch.flag() {
        true => v.join(" "),
        false => v[from..v.len() - b.len()].iter().fold(a.join(" ") + " ", |mut s, t| {
            if s.ends_with(|c: char| c.is_alphanumeric()) && t.starts_with(|c: char| c.is_alphanumeric()) {
                s.push(' ');
            }
            s + t
        }) + " " + &b.join(" "),
    };
    agree(&s, rec)
}

/// Deep and long templates, right and wrong in one place.
fn sizes(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = *ch.pick(SIZES);
    let wrong = ch.n(6);
    let how = ch.n(9);
    let (open, close): (&str, &str) = match how {
        0 => ("{% if a %}", "{% endif %}"),
        1 => ("{% for x in l %}", "{% endfor %}"),
        2 => ("{% with a as x %}", "{% endwith %}"),
        3 => ("{% if a %}{% else %}", "{% endif %}"),
        4 => ("{% if a %}{% for x in l %}", "{% endfor %}{% endif %}"),
        5 => {
            // A chain.
            let end = ["{% else %}{% endif %}", "{% endif %}", "", "{% else %}{% else if a %}{% endif %}", "{% else %}{% else %}{% endif %}", "{% endfor %}"][wrong];
            return agree(&format!("{{% if a %}}{}{end}", "{% else if b %}x".repeat(n)), rec);
        }
        6 => {
            let end = ["}}", "| }}", "", "%}", ": }}", ".if }}"][wrong];
            return agree(&format!("{{{{ a{} {end}", " | f".repeat(n)), rec);
        }
        7 => {
            let end = ["}}", ", }}", "", "1 }}", "| }}", "| g }}"][wrong];
            return agree(&format!("{{{{ a | f: b{} {end}", ", 1".repeat(n)), rec);
        }
        _ => {
            let end = ["}}", ". }}", "", ".if }}", ".0 }}", "?. }}"][wrong];
            return agree(&format!("{{{{ a{} {end}", ".b".repeat(n)), rec);
        }
    };
    let (o, c) = (open.repeat(n), close.repeat(n));
    let s = match wrong {
        0 => format!("{o}t{c}"),
        1 => format!("{o}t{c}{close}"),
        2 => format!("{o}{open}t{c}"),
        3 => format!("{o}{{% endif %}}t{c}"),
        4 => format!("{o}{{% else %}}t{c}"),
        _ => format!("{open}{o}t{{% endfor %}}{c}"),
    };
    agree(&s, rec)
}
