//! C09: custom delimiters.

use crate::explore::{Ch, Rec};
use crate::model::Syn;
use crate::props::gen::SIZES;
use crate::run::{check, clip, Case, Mask, PLAIN};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        level: "model_checking",
        rule: "every delimiter configuration and every sequence of texts and tags written in it within the bounds is rendered by the implementation and by the reference machine (whose search is the naive one); a trace counts when all templates compile",
        scenarios: vec![
            Scenario { name: "overlaps", body: overlaps },
            Scenario { name: "automaton", body: automaton },
            Scenario { name: "comment only", body: comment_only },
            Scenario { name: "lead in", body: lead_in },
            Scenario { name: "curated", body: curated },
            Scenario { name: "tokens", body: tokens },
            Scenario { name: "missing", body: missing },
            Scenario { name: "multibyte", body: multibyte },
            Scenario { name: "defaults", body: defaults },
            Scenario { name: "sizes", body: sizes },
            Scenario { name: "builders", body: builders },
        ],
        apart: &[],
    }
}

const M: Mask = Mask { any_err: true, ..PLAIN };

/// No two delimiters, with and without hyphens, are the same text.
fn distinct(s: &Syn) -> bool {
    let mut v: Vec<String> = vec![];
    for (a, b) in [&s.expr, &s.block, &s.comment].into_iter().flatten() {
        v.extend([a.clone(), b.clone(), format!("{a}-"), format!("-{b}")]);
    }
    let n = v.len();
    v.sort();
    v.dedup();
    v.len() == n
}

fn ctx() -> V {
    V::map([
        ("a", V::s("<a>")),
        ("b", V::s("<b>")),
        ("aa", V::s("<aa>")),
        ("ab", V::s("<ab>")),
        ("ba", V::s("<ba>")),
        ("bb", V::s("<bb>")),
        ("v", V::s("<v>")),
        ("t", V::Bool(true)),
        ("f", V::Bool(false)),
        ("l", V::list([V::Int(1), V::Int(2)])),
        ("x", V::s("<x>")),
    ])
}

/// Rewrites a template: letters in `<...>` stand for delimiters.
fn rewrite(t: &str, s: &Syn) -> String {
    let g = |p: &Option<(String, String)>| p.clone().unwrap_or_default();
    let (e, b, c) = (g(&s.expr), g(&s.block), g(&s.comment));
    t.replace("«e", &e.0)
        .replace("e»", &e.1)
        .replace("«b", &b.0)
        .replace("b»", &b.1)
        .replace("«c", &c.0)
        .replace("c»", &c.1)
}

const PIECES: &[&str] = &[
    "«e v e»",
    "«e- v -e»",
    "«bif tb»y«belseb»n«bendifb»",
    "«b- for x in l -b» «e xe» «b- endfor -b»",
    "«c c c»",
    "«c- -c»",
    " q ",
];

fn word(ch: &mut Ch, max: usize) -> String {
    let n = ch.range(1, max);
    (0..n).map(|_| *ch.pick(&['<', '>'])).collect()
}

/// Delimiters made of two characters.
fn overlaps(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let syn = Syn {
        expr: Some((word(ch, 2), word(ch, 2))),
        block: Some((word(ch, 3), word(ch, 2))),
        comment: None,
    };
    if !distinct(&syn) {
        return Ok(());
    }
    let mut s = String::new();
    let n = ch.range(1, if rec.thorough() { 3 } else { 2 });
    for _ in 0..n {
        let p = *ch.pick(&["«e v e»", "«e- v -e»", "«b if t b»y«bendifb»", " < ", ">", "x ", "<>"]);
        s.push_str(&rewrite(p, &syn));
    }
    let mut c = Case::new(s, ctx());
    c.syn = syn;
    check(&c, M, rec)
}

/// Begin delimiters that share prefixes and suffixes, in every short text.
fn automaton(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let max = if rec.thorough() { 4 } else { 3 };
    let ab = |ch: &mut Ch| {
        let n = ch.range(1, max);
        (0..n).map(|_| *ch.pick(&['a', 'b'])).collect::<String>()
    };
    let p = ab(ch);
    let q = ab(ch);
    let syn = Syn {
        expr: Some((p, ")".into())),
        block: Some((q, "]".into())),
        comment: Some(("c".into(), "}".into())),
    };
    if !distinct(&syn) {
        return Ok(());
    }
    let n = ch.range(1, if rec.thorough() { 7 } else { 6 });
    let mut s: String = (0..n).map(|_| *ch.pick(&['a', 'b'])).collect();
    s.push_str(*ch.pick(&["", ")", " if t]", "- v -) b", " v ) bab v )", "\"ab\")"]));
    let mut c = Case::new(s, ctx());
    c.syn = syn;
    check(&c, M, rec)
}

/// Comments whose delimiters and contents are made of the same two characters.
fn comment_only(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let al = *ch.pick(&[['a', 'b'], ['a', '-'], ['é', 'è']]);
    let word = |ch: &mut Ch, lo, hi| {
        let n = ch.range(lo, hi);
        (0..n).map(|_| *ch.pick(&al)).collect::<String>()
    };
    let syn = Syn {
        expr: None,
        block: None,
        comment: Some((word(ch, 1, 3), word(ch, 1, 3))),
    };
    if !distinct(&syn) {
        return Ok(());
    }
    let mut s = word(ch, 0, if rec.thorough() { 9 } else { 6 });
    s.push_str(*ch.pick(&["", " "]));
    s.push_str(&word(ch, 0, 2));
    let mut c = Case::new(s, ctx());
    c.syn = syn;
    check(&c, M, rec)
}

/// Tags preceded by text that shares characters with their delimiters.
fn lead_in(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let max = if rec.thorough() { 4 } else { 3 };
    let ab = |ch: &mut Ch, lo| {
        let n = ch.range(lo, max);
        (0..n).map(|_| *ch.pick(&['a', 'b'])).collect::<String>()
    };
    let p = ab(ch, 1);
    let q = ab(ch, 1);
    let r = *ch.pick(&["#", "aba", "bb"]);
    let (w1, w2) = (ab(ch, 0), ab(ch, 0));
    let s = format!("{w1}{p} v ){w2}{q} if t ]{w1}{q} endif ]");
    let syn = Syn::new(Some((&p, ")")), Some((&q, "]")), Some((r, "}")));
    if !distinct(&syn) {
        return Ok(());
    }
    let mut c = Case::new(s, ctx());
    c.syn = syn;
    check(&c, M, rec)
}

fn list() -> Vec<Syn> {
    let n = Syn::new;
    vec![
        Syn::default(),
        n(Some(("{", "}")), Some(("{%", "%}")), Some(("{#", "#}"))),
        n(Some(("{{", "}}")), Some(("{", "}")), Some(("{{{", "}}}"))),
        n(Some(("<?", "?>")), Some(("<%", "%>")), Some(("<!--", "-->"))),
        n(Some(("<", ">")), Some(("<<", ">>")), Some(("<<<", ">>>"))),
        n(Some(("<<<", ">>>")), Some(("<<", ">>")), Some(("<", ">"))),
        n(Some(("$", ";")), Some(("@", "\n")), Some(("#", "\n\n"))),
        n(Some(("(", ")")), Some(("((", "))")), Some(("(*", "*)"))),
        n(Some(("{-", "-}")), Some(("{=", "=}")), Some(("{*", "*}"))),
        n(Some(("{--", "--}")), Some(("{+", "+}")), None),
        n(Some((" {", "} ")), Some(("\t%", "%\t")), Some((" #", "# "))),
        n(Some(("«", "»")), Some(("日", "本")), Some(("日本", "語"))),
        n(Some(("é", "ß")), Some(("😀", "✨")), Some(("ñ", "Ж"))),
        n(Some(("[[", "]]")), Some(("[%", "]")), Some(("[", "]%"))),
        n(Some(("begin", "end")), Some(("do", "done")), Some(("rem", "mer"))),
        n(Some(("/", "\\")), Some(("//", "\\\\")), Some(("/*", "*/"))),
        n(Some(("~", "~~")), Some(("^", "^^")), Some(("=", "=="))),
        n(Some(("~~", "~")), Some(("^^", "^")), Some(("==", "="))),
        n(Some(("xyx", "yxy")), Some(("yx", "xyy")), Some(("xx", "yyx"))),
        n(Some(("%%", "%}")), Some(("{%", "%%}")), Some(("%", "%{"))),
        n(Some(("&&", "&;")), Some(("|&", "&|")), Some(("&", ";"))),
        n(Some((".<", ">.")), Some((":<", ">:")), Some((",<", ">,"))),
        n(Some(("-<", ">-")), Some(("--<", ">--")), None),
        n(Some(("\"", "'")), Some(("\"\"", "''")), None),
        n(Some(("0", "9")), Some(("1", "8")), Some(("00", "99"))),
        n(Some(("\u{0}", "\u{1}")), Some(("\u{2}", "\u{3}")), Some(("\r\n", "\n\r"))),
        n(Some(("aab", "baa")), Some(("ab", "ba")), Some(("aaab", "baaa"))),
        n(Some(("{{{{", "}}}}")), Some(("{{{", "}}}")), Some(("{{", "}}"))),
        n(None, Some(("<%", "%>")), Some(("<", ">"))),
        n(Some(("<%", "%>")), None, Some(("<%#", "#%>"))),
        n(Some(("<%=", "%>")), Some(("<%~", "~%>")), Some(("<%", "%%>"))),
    ]
}

fn curated(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let list = list();
    let syn = ch.pick(&list).clone();
    let mut extra: Vec<String> = vec![];
    for (a, b) in [&syn.expr, &syn.block, &syn.comment].into_iter().flatten() {
        extra.push(a.clone());
        extra.push(b.clone());
        extra.push(a.chars().next().unwrap().to_string());
    }
    let n = ch.range(1, if rec.thorough() { 4 } else { 3 });
    let mut s = String::new();
    for _ in 0..n {
        let i = ch.n(PIECES.len() + extra.len() + 2);
        if i < PIECES.len() {
            s.push_str(&rewrite(PIECES[i], &syn));
        } else if i < PIECES.len() + extra.len() {
            s.push_str(&extra[i - PIECES.len()]);
        } else {
            s.push_str([" - ", "v"][i - PIECES.len() - extra.len()]);
        }
    }
    let mut c = Case::new(s, ctx());
    c.syn = syn;
    check(&c, M, rec)
}

/// Any token directly before an end delimiter and after a begin delimiter.
fn tokens(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const TOK: &[&str] = &[
        "v", "1", "-1", "1.5", "1e5", "0x1f", "0b1", "\"s\"", "true", "l.0", "l.", "v | id", "v | pair: 1", "v | pair: \"s\"", "loop", "v?.a", "v -", "1-",
        "1.", "1e-5", "1e",
    ];
    let list = list();
    let syn = ch.pick(&list).clone();
    if syn.expr.is_none() {
        return Ok(());
    }
    let t = *ch.pick(TOK);
    let (l, r) = (*ch.pick(&["", "-", " ", "- "]), *ch.pick(&["", "-", " ", " -"]));
    let with = ch.flag();
    if with && syn.block.is_none() {
        return Ok(());
    }
    let t = if with {
        format!("«b{l}with {t} as q{r}b»[«e q | show e»]«b{l}endwith{r}b» z")
    } else {
        format!("q «e{l}{t} | show{r}e» z «e{l}{t}{r}e» z")
    };
    let mut c = Case::new(rewrite(&t, &syn), ctx());
    c.syn = syn;
    check(&c, M, rec)
}

/// Kinds that are not configured, in templates that use the usual delimiters.
fn missing(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let d = *ch.pick(&[0, 1]);
    let p = [[("{{", "}}"), ("{%", "%}"), ("{#", "#}")], [("<", ">"), ("[", "]"), ("(", ")")]][d];
    let syn = Syn::new(ch.flag().then_some(p[0]), ch.flag().then_some(p[1]), ch.flag().then_some(p[2]));
    const D: &[&str] = &["{{ v }}", "{{- v -}}", "{% if t %}", "{% endif %}", "{%- else -%}", "{# c #}", "{#- c -#}", " ", "{{", "#}", "<v>", "[if t]", "[endif]", "(v)"];
    let n = ch.range(0, if rec.thorough() { 5 } else { 4 });
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*ch.pick(D));
    }
    let mut c = Case::new(s, ctx());
    c.syn = syn;
    check(&c, M, rec)
}

/// Delimiters that share bytes of their characters with the text.
fn multibyte(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const C: &[&str] = &["é", "è", "ß", "日", "旤", "😀", "😁", "a", "\u{80}", "\u{7ff}", "ÿ"];
    let p = *ch.pick(C);
    let q = *ch.pick(C);
    let suffix = *ch.pick(&["", "é", "!"]);
    let syn = Syn::new(Some((&format!("{p}{suffix}"), &format!("{suffix}{q}"))), None, None);
    if !distinct(&syn) {
        return Ok(());
    }
    let (b, e) = syn.expr.clone().unwrap();
    let n = ch.range(0, 2);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*ch.pick(C));
    }
    if ch.flag() {
        s.push_str(&format!("{b} v {e}"));
        s.push_str(*ch.pick(C));
    }
    let mut c = Case::new(s, ctx());
    c.syn = syn;
    check(&c, M, rec)
}

/// The ways to get the default syntax.
fn defaults(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const D: &[&str] = &["{{ v }}", "{{- v -}}", "{% if t %}y{% endif %}", "{#- c -#}", " ", "{", "<? v ?>", "}", "{%", "é"];
    let how = ch.n(6);
    let n = ch.range(0, 3);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*ch.pick(D));
    }
    let syntax = match how {
        0 => None,
        1 => None,
        2 => Some(upon::Syntax::default()),
        3 => Some(upon::Syntax::builder().expr("{{", "}}").block("{%", "%}").comment("{#", "#}").build()),
        // Set twice, in another order, from a copy.
        4 => Some(upon::Syntax::builder().comment("{#", "#}").expr("<?", "?>").block("{%", "%}").expr("{{", "}}").build().clone()),
        _ => Some(upon::SyntaxBuilder::new().block("{%", "%}").comment("{#", "#}").expr("{{", "}}").build()),
    };
    let e = match (how, syntax) {
        (0, _) => upon::Engine::new(),
        (1, _) => upon::Engine::default(),
        (_, Some(s)) => {
            if s != upon::Syntax::default() {
                return Err("the default syntax is not the documented one".into());
            }
            upon::Engine::with_syntax(s)
        }
        _ => unreachable!(),
    };
    let c = Case::new(s.as_str(), ctx());
    let m = crate::run::run_model(&c, rec, M);
    let v = c.ctx.to_upon();
    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        e.compile(s.as_str()).ok().and_then(|t| t.render_from(&e, &v).to_string().ok())
    }))
    .map_err(|p| format!("panicked: {}\n{}", crate::run::panic_text(p), clip(&s)))?;
    rec.traces += 1;
    rec.nontrivial += u64::from(got.is_some());
    rec.outcome(crate::run::outcome_hash(&m));
    let want = match m.end {
        crate::run::End::Ok => m.out,
        _ => None,
    };
    if got != want {
        return Err(format!("template {} renders {got:?}, specified {want:?}", clip(&s)));
    }
    Ok(())
}

/// Long delimiters and long texts that nearly contain them.
fn sizes(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = *ch.pick(SIZES);
    if n == 0 {
        return Ok(());
    }
    let how = ch.n(5);
    let (syn, near) = match how {
        0 => (Syn::new(Some((&format!("{}!", "<".repeat(n)), &format!("{}!", ">".repeat(n)))), None, None), "<".repeat(2 * n + 1)),
        1 => (Syn::new(Some((&format!("{}!", "<-".repeat(n)), &format!("!{}", "->".repeat(n)))), Some(("<", ">")), None), "<-".repeat(n)),
        2 => (Syn::new(Some((&"é".repeat(n), &"ß".repeat(n))), Some((&format!("{}è", "é".repeat(n - 1)), "]")), None), "é".repeat(n - 1)),
        3 => (
            Syn::new(Some((&"[".repeat(n), &"]".repeat(n))), Some((&"[".repeat(n + 1), &"]".repeat(n + 1))), Some((&"[".repeat(n + 2), &"]".repeat(n + 2)))),
            "[".repeat(n - 1),
        ),
        _ => (Syn::new(Some((&("ab".repeat(n) + "c"), &("z".repeat(n)))), Some((&("ba".repeat(n) + "c"), "]")), None), "ab".repeat(n)),
    };
    let g = |p: &Option<(String, String)>| p.clone().unwrap_or_default();
    let (e, b) = (g(&syn.expr), g(&syn.block));
    let tail = *ch.pick(&["", " x", "-"]);
    let mut s = format!("{near}{tail}{} v {}{near}", e.0, e.1);
    if !b.0.is_empty() {
        s.push_str(&format!(" {} if t {}y{}- endif -{} z", b.0, b.1, b.0, b.1));
    }
    let mut c = Case::new(s, ctx());
    c.syn = syn;
    check(&c, M, rec)
}

/// Every sequence of calls on a builder: what was set last counts, building
/// changes nothing, and an empty delimiter is refused and changes nothing.
fn builders(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const SET: &[(usize, &str, &str)] = &[
        (0, "{{", "}}"),
        (0, "(", ")"),
        (0, "<<", ">>"),
        (1, "{%", "%}"),
        (1, "[", "]"),
        (2, "{#", "#}"),
        (2, "/*", "*/"),
        (0, "", "}}"),
        (0, "{{", ""),
        (0, "", ""),
        (1, "", "%}"),
        (1, "{%", ""),
        (1, "", ""),
        (2, "", "#}"),
        (2, "{#", ""),
        (2, "", ""),
    ];
    const PROBE: &[&str] = &["{{ v }}", "( v )", "<< v >>", "{% if t %}a", "[ if t ]a", "{% endif %}", "[ endif ]", "{#- c #}", "/*c -*/", " b "];
    let n = ch.range(0, if rec.thorough() { 4 } else { 3 });
    let mut syn = Syn { expr: None, block: None, comment: None };
    let mut b = upon::Syntax::builder();
    for _ in 0..n {
        let (kind, begin, end) = *ch.pick(SET);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            match kind {
                0 => b.expr(begin, end),
                1 => b.block(begin, end),
                _ => b.comment(begin, end),
            };
        }));
        rec.transitions += 1;
        let empty = begin.is_empty() || end.is_empty();
        if r.is_err() != empty {
            return Err(format!("{:?} as the delimiters of kind {kind} {}", (begin, end), if empty { "are accepted" } else { "panic" }));
        }
        if !empty {
            *[&mut syn.expr, &mut syn.block, &mut syn.comment][kind] = Some((begin.into(), end.into()));
            // Building is not the end of it.
            let _ = b.build();
        }
    }
    rec.state(crate::explore::fnv(crate::explore::FNV0, format!("{syn:?}").as_bytes()));
    let e = upon::Engine::with_syntax(b.clone().build());
    if b.build() != b.build() {
        return Err(format!("building twice differs for {syn:?}"));
    }
    let mut used = false;
    for i in 0..PROBE.len() {
        for j in 0..PROBE.len() {
            let src = format!("{}{}{}", PROBE[i], PROBE[j], if i == 3 || j == 3 { "{% endif %}" } else if i == 4 || j == 4 { "[ endif ]" } else { "" });
            let mut c = Case::new(src.as_str(), ctx());
            c.syn = syn.clone();
            let m = crate::run::run_model(&c, rec, M);
            let v = c.ctx.to_upon();
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.compile(src.as_str()).ok().and_then(|t| t.render_from(&e, &v).to_string().ok())))
                .map_err(|p| format!("{src:?} with {syn:?}: panicked: {}", crate::run::panic_text(p)))?;
            let want = if matches!(m.end, crate::run::End::Ok) { m.out } else { None };
            if got != want {
                return Err(format!("{src:?} with {syn:?}: {got:?} instead of {want:?}"));
            }
            used |= got.is_some_and(|s| s != src);
        }
    }
    rec.traces += 1;
    rec.nontrivial += u64::from(used);
    Ok(())
}
