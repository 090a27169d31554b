//! C08: text, comments and whitespace control.

use crate::explore::{Ch, Rec};
use crate::model::Syn;
use crate::props::gen::{BIG, SIZES};
use crate::run::{check, Case, Mask, PLAIN};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        level: "model_checking",
        rule: "every sequence of texts, tags and comments with and without hyphens within the bounds is rendered by the implementation and by the reference machine; a trace counts when all templates compile",
        scenarios: vec![
            Scenario { name: "sequences", body: sequences },
            Scenario { name: "three", body: three },
            Scenario { name: "comments", body: comments },
            Scenario { name: "characters", body: characters },
            Scenario { name: "blocks", body: blocks },
            Scenario { name: "lines", body: lines },
            Scenario { name: "values", body: values },
            Scenario { name: "plain", body: plain },
            Scenario { name: "sizes", body: sizes },
        ],
        apart: &[],
    }
}

const M: Mask = PLAIN;

fn ctx() -> V {
    V::map([
        ("v", V::s("v")),
        ("s", V::s(" \t\n")),
        ("w", V::s(" w ")),
        ("e", V::s("")),
        ("t", V::Bool(true)),
        ("f", V::Bool(false)),
        ("l", V::list([V::s(" x "), V::s("\n")])),
        ("z", V::list([])),
    ])
}

const TEXTS: &[&str] = &[
    "", " ", "\n", "a", " a ", " \t\r\n ", "\u{a0}x\u{2003}", "\u{3000}", "\u{85}\u{2028}", "\u{200b}", "\u{feff} ", "-", " - ", "\u{b}\u{c}",
    "} {", "é\n日",
];

/// A tag with chosen hyphens.
fn tag(ch: &mut Ch, kinds: &[(&str, &str)]) -> String {
    let (a, b) = *ch.pick(kinds);
    let l = *ch.pick(&["", "-"]);
    let r = *ch.pick(&["", "-"]);
    format!("{}{l}{}{r}{}", &a[..2], &a[2..], b)
}

const KINDS: &[(&str, &str)] = &[("{{ v ", "}}"), ("{#c", "#}"), ("{#", "#}"), ("{{\"\"", "}}"), ("{% include \"i\" ", "%}"), ("{{ s ", "}}")];

fn sequences(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut s = ch.pick(TEXTS).to_string();
    let n = ch.n(3);
    let few = n == 2 && !rec.thorough();
    for i in 0..n {
        s.push_str(&tag(ch, if few { &KINDS[..4] } else { KINDS }));
        s.push_str(*ch.pick(if few && i == 1 { &TEXTS[..10] } else { TEXTS }));
    }
    check(&Case::new(s, ctx()).temp("i", " {#- -#} i "), M, rec)
}

fn three(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const T: &[&str] = &["", " ", "\na ", "-\u{a0}"];
    let mut s = ch.pick(T).to_string();
    let n = if rec.thorough() { 4 } else { 3 };
    let kinds = if rec.thorough() { &KINDS[..2] } else { &KINDS[..3] };
    for _ in 0..n {
        s.push_str(&tag(ch, kinds));
        s.push_str(*ch.pick(T));
    }
    check(&Case::new(s, ctx()), M, rec)
}

fn comments(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const P: &[&str] = &[
        "c", " ", "\n", "-", "#", "}", "{", "%", "{{", "}}", "{%", "%}", "{#", "#}", "\"", "\\", "é😀", "{{-", "-}}", "\u{0}", "{# c #}",
        "endif",
    ];
    let mut s = String::from("a {#");
    let n = ch.n(if rec.thorough() { 5 } else { 4 });
    for _ in 0..n {
        s.push_str(*ch.pick(P));
    }
    s.push_str(*ch.pick(&["#} b", "-#} b", " #}", "-#} {{- v }}", ""]));
    check(&Case::new(s, ctx()), Mask { any_err: true, ..M }, rec)
}

/// Every character as text, as neighbour of a trimming tag, in a comment.
fn characters(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const AT: &[&str] = &["X", "aXX{{ v }}X", "X {{- v -}} X", "XX{{- v -}}XX", " X{#-X-#}X\n", "X{{ \"X\" }}X", "{{- v -}}X", "{#- -#}aX{#- X"];
    let hi = if rec.thorough() { 0x1100 } else { 0x32 };
    let page = ch.n(hi + 4);
    let page = if page < hi { page } else { [0xfe, 0xff, 0x1f6, 0xe00][page - hi] };
    let c = match char::from_u32((page * 256 + ch.n(256)) as u32) {
        Some(c) => c,
        None => return Ok(()),
    };
    for t in AT {
        check(&Case::new(t.replace('X', &c.to_string()), ctx()), M, rec)?;
    }
    Ok(())
}

/// Block tags, taken and not taken.
fn blocks(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const B: &[&[&str]] = &[
        &["if t", "endif"],
        &["if f", "endif"],
        &["if f", "else", "endif"],
        &["if t", "else", "endif"],
        &["if f", "else if t", "else", "endif"],
        &["for x in l", "endfor"],
        &["for x in z", "endfor"],
        &["with v as x", "endwith"],
        &["if t", "if f", "endif", "endif"],
        &["for x in l", "if loop.first", "endif", "endfor"],
        &["with w as x", "include \"i\"", "endwith"],
        &["for x in l", "include \"i\" with l", "endfor"],
    ];
    const T: &[&str] = &["", " \n", " a\t", "\u{3000}{{ x }} "];
    const T4: &[&str] = &["", " \n", " a\t"];
    let b = *ch.pick(B);
    let with_x = b[0].ends_with("x") || b[0].starts_with("for");
    let mut s = String::from(*ch.pick(T4));
    for (i, t) in b.iter().enumerate() {
        let l = *ch.pick(&["", "-"]);
        let r = *ch.pick(&["", "-"]);
        s.push_str(&format!("{{%{l} {t} {r}%}}"));
        let last = i + 1 == b.len();
        s.push_str(*ch.pick(if with_x && !last && b.len() < 4 { T } else { T4 }));
    }
    check(&Case::new(s, ctx()).temp("i", "\n i \n"), M, rec)
}

/// Tags alone on their line, indented or not, and nearly so.
fn lines(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const B: &[&[&str]] = &[
        &["{% if t %}", "{% endif %}"],
        &["{% if f %}", "{% else %}", "{% endif %}"],
        &["{% if f %}", "{% else if t %}", "{% endif %}"],
        &["{% for x in l %}", "{% endfor %}"],
        &["{% with v as x %}", "{% endwith %}"],
        &["{% include \"i\" %}"],
        &["{# c #}"],
        &["{{ v }}"],
        &["{{ \"\" }}", "{# c #}"],
        &["{% if t %}", "{{ v }}", "{% endif %}"],
        &["{% for x in l %}", "{{ x }}", "{% endfor %}"],
        &["{%- if t %}", "{% endif -%}"],
        &["{% if t -%}", "{%- endif %}"],
    ];
    const BEFORE: &[&str] = &["", "\n", "\n  ", "\n\t", "\r\n\t", "\n\n    ", "a\n", " ", "a\n \t", "\r", "\n\u{a0}"];
    const AFTER: &[&str] = &["", "\n", "\r\n", " \n", "\n\n", "\t\nb", "\n  b", "\r", " "];
    let b = *ch.pick(B);
    let mut s = String::new();
    for (i, t) in b.iter().enumerate() {
        let few = b.len() > 2 && !rec.thorough();
        s.push_str(*ch.pick(if few { &BEFORE[..4] } else { BEFORE }));
        s.push_str(t);
        if i + 1 == b.len() || b.len() < 3 && ch.flag() {
            s.push_str(*ch.pick(if few { &AFTER[..4] } else { AFTER }));
        }
    }
    check(&Case::new(s, ctx()).temp("i", "\ti\n"), M, rec)
}

/// What is written from values is never trimmed, nor are other templates.
fn values(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const E: &[&str] = &["{{ s }}", "{{- s -}}", "{{ w }}", "{{- w -}}", "{{ e }}", "{{- e -}}", "{{ s | show }}", "{{- \" l \" -}}", "{% include \"i\" %}", "{%- include \"i\" -%}", "{%- for x in l -%}{{ x }}{%- endfor -%}", "{#- -#}"];
    const T: &[&str] = &["", " ", "\n\na"];
    const I: &[&str] = &[" ", " i ", "{{- w -}} ", " {{ s -}}", "{#- -#} ", ""];
    let i = *ch.pick(I);
    let mut s = String::new();
    for _ in 0..3 {
        s.push_str(*ch.pick(T));
        s.push_str(*ch.pick(E));
    }
    s.push_str(*ch.pick(T));
    check(&Case::new(s, ctx()).temp("i", i), M, rec)
}

/// Text made of pieces of delimiters, without and with tags.
fn plain(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const P: &[&str] = &["{", "}", "%", "#", "-", " ", "\n", "a", "\\", "\"", "{ {", "é", "{{ v }}", "{#-#}"];
    let syn = ch.n(4);
    let mut s = String::new();
    let n = ch.n(if rec.thorough() { 7 } else { 5 });
    for _ in 0..n {
        s.push_str(*ch.pick(P));
    }
    let mut c = Case::new(s, ctx());
    c.syn = match syn {
        0 => Syn::default(),
        1 => Syn::new(Some(("{{", "}}")), None, None),
        2 => Syn::new(None, None, Some(("{#", "#}"))),
        _ => Syn::new(None, None, None),
    };
    check(&c, Mask { any_err: true, ..M }, rec)
}

fn sizes(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = if ch.flag() { *ch.pick(BIG) } else { *ch.pick(SIZES) };
    let unit = *ch.pick(&[" ", "\n", "a", "\u{3000}", "é ", "{ ", "-", "} {", "\t\r\n", "x{#c#}", "{{ v }} ", "\u{200b}"]);
    let t = unit.repeat(n);
    let s = match ch.n(8) {
        0 => t,
        1 => format!("{t}{{{{- v }}}}x"),
        2 => format!("x{{{{ v -}}}}{t}"),
        3 => format!("x{{{{ v -}}}}{t}{{{{- v }}}}y"),
        4 => format!("x{{{{ v -}}}}{t}z{t}{{{{- v }}}}y"),
        5 => format!("{t}{{% if t %}}{t}{{% else %}}no{{% endif %}}{t}"),
        6 => format!("a {{#-{}-#}} b", unit.replace("{#c#}", "").replace("{{ v }}", "").repeat(n)),
        _ => format!("{{% for x in l -%}}{t}{{%- endfor %}}"),
    };
    check(&Case::new(s, ctx()), M, rec)
}
