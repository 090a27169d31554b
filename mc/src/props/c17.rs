//! C17: what errors say.

use crate::explore::{fnv, Ch, Rec, FNV0};
use crate::funcs::DefFmt;
use crate::model::interp::Kind;
use crate::props::gen::SIZES;
use crate::run::{check, check_with, Case, End, Mask, Mode};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        level: "model_checking",
        rule: "every enumerated template with a mistake is run on both; kind, template name, line, column, quoted line, underline and messages of the user are compared; a trace counts when it fails",
        scenarios: vec![
            Scenario { name: "places", body: places },
            Scenario { name: "wrapped", body: wrapped },
            Scenario { name: "includes", body: includes },
            Scenario { name: "broken-tags", body: broken_tags },
            Scenario { name: "tokens", body: tokens },
            Scenario { name: "blocks", body: blocks },
            Scenario { name: "first", body: first },
            Scenario { name: "inside", body: inside },
            Scenario { name: "sizes", body: sizes },
            Scenario { name: "names", body: names },
            Scenario { name: "messages", body: messages },
            Scenario { name: "depth", body: depth },
            Scenario { name: "delimiters", body: delimiters },
            Scenario { name: "chars", body: chars },
        ],
        apart: &[],
    }
}

const M: Mask = Mask {
    loc: true,
    reason: true,
    partial: false,
    trace: false,
    any_err: false,
};

/// Mistakes that are found when rendering.
const RENDER: &[&str] = &[
    "{{ nope }}",
    "{{ m.nope }}",
    "{{ m.inn.nope.x }}",
    "{{ m?.inn.nope }}",
    "{{ l.9 }}",
    "{{ l.x }}",
    "{{ m.0 }}",
    "{{ s.x }}",
    "{{ n.x?.y }}",
    "{{ m }}",
    "{{ m.inn }}",
    "{{ l | id }}",
    "{{ m.inn | id | rid }}",
    "{{ s | nope }}",
    "{{ s | up | nope }}",
    "{{ s | nope | up }}",
    "{{ s | nope: 1 }}",
    "{{ s | up: 1 }}",
    "{{ i | up }}",
    "{{ i | add }}",
    "{{ i | add: 1, 2 }}",
    "{{ i | add: \"s\" }}",
    "{{ i | add: nope }}",
    "{{ i | add: m.nope }}",
    "{{ s | cat: 1 }}",
    "{{ s | trip: 1, \"x\" }}",
    "{{ i | fail }}",
    "{{ i | fail | up }}",
    "{{ i | ferr }}",
    "{{ i | up | ferr }}",
    "{{ s | up | ferr }}",
    "{{ i | ferr | up }}",
    "{{ i | ferr0 }}",
    "{{ i | show: 1 }}",
    "{{ i | deaferr }}",
    "{% if nope %}x{% endif %}",
    "{% if not m.nope %}x{% endif %}",
    "{% if n %}{% else if nope %}x{% endif %}",
    "{% if i | show %}x{% endif %}",
    "{% if i | fail %}x{% endif %}",
    "{% for x in nope %}{% endfor %}",
    "{% for x in s %}{% endfor %}",
    "{% for x in i | id %}{% endfor %}",
    "{% for x in m %}{% endfor %}",
    "{% for k, v in l %}{% endfor %}",
    "{% for k ,  v in l %}{% endfor %}",
    "{% for x in l %}{{ x.y }}{% endfor %}",
    "{% for x in l %}{{ loop.nope }}{% endfor %}",
    "{% for x in l | show %}{% endfor %}",
    "{% with nope as x %}{% endwith %}",
    "{% with m as x %}{{ x.nope }}{% endwith %}",
    "{% with m as x %}{{ x }}{% endwith %}",
    "{% include \"nope\" %}",
    "{% include  \"no\\tpe\"  with m %}",
    "{% include \"bad\" %}",
    "{% include \"bad\" with m %}",
    "{% include \"ok\" with nope %}",
    "{% include \"ok\" with s %}",
    "{% include \"ok\" with m | fail %}",
];

/// Mistakes that are found when compiling.
const SYNTAX: &[&str] = &[
    "{{ }}",
    "{{",
    "{{ a",
    "}}",
    "{%",
    "{% %}",
    "{% a %}",
    "{% if %}{% endif %}",
    "{% if a %}",
    "{% if a %}x{% else %}",
    "{% endif %}",
    "{% else %}",
    "{% else if a %}",
    "{% if a %}{% else %}{% else %}{% endif %}",
    "{% if a %}{% else %}{% else if b %}{% endif %}",
    "{% for x in l %}",
    "{% for x in l %}{% endif %}",
    "{% for x in l %}{% else %}{% endfor %}",
    "{% for in l %}{% endfor %}",
    "{% for x l %}{% endfor %}",
    "{% for x, in l %}{% endfor %}",
    "{% for x, y, z in l %}{% endfor %}",
    "{% for x in %}{% endfor %}",
    "{% endfor %}",
    "{% with a %}{% endwith %}",
    "{% with a as %}{% endwith %}",
    "{% with a as 1 %}{% endwith %}",
    "{% with a as x %}",
    "{% with a as x %}{% endfor %}",
    "{% endwith %}",
    "{% include %}",
    "{% include a %}",
    "{% include \"a\" with %}",
    "{% include \"a\" as b %}",
    "{% include \"a %}",
    "{% nonsense %}",
    "{% if a %}{{ b }",
    "{{ a b }}",
    "{{ a | }}",
    "{{ a | 1 }}",
    "{{ a | f: }}",
    "{{ a | f: 1, }}",
    "{{ a | f 1 }}",
    "{{ a. }}",
    "{{ a.true }}",
    "{{ a?b }}",
    "{{ .a }}",
    "{{ a..b }}",
    "{{ if }}",
    "{{ not a }}",
    "{{ \"abc }}",
    "{{ \"a\\qc\" }}",
    "{{ \"日\\日c\" }}",
    "{{ 0xz }}",
    "{{ 0xfg }}",
    "{{ 0b12 }}",
    "{{ 12ab }}",
    "{{ 1.2.3 }}",
    "{{ -12z }}",
    "{{ 1e }}",
    "{{ - }}",
    "{{ -a }}",
    "{{ 0xfffffffffffffffff }}",
    "{{ -0x8000000000000001 }}",
    "{{ l.99999999999999999999 }}",
    "{{ l.1x }}",
    "{{ a % b }}",
    "{{ a ! }}",
    "{{ 日 本 }}",
    "{{ a € }}",
    "{{ a, b }}",
    "{{ a {{ b }}",
    "{{ a {% b %}",
    "{{ a %}",
    "{% if a }}",
    "{# a",
    "#}",
    "%}",
    "{# a }}",
    "{# a {# b #}",
    "{{ a #}",
    "{% if a {# c #} %}{% endif %}",
];

/// What stands before the mistake.
const BEFORE: &[&str] = &[
    "",
    "x",
    "\n",
    "\r\n",
    "\r",
    "\t",
    "\t \t",
    "a\nb",
    "a\r\n\r\nb",
    "\n\n\n\tx",
    "é",
    "e\u{301}",
    "日本",
    "日\n本\t",
    "😀\r\n",
    "\u{feff}",
    "\u{0}\u{7}",
    "\u{2028}x",
    "\u{b}\u{c}",
    "\u{85}é",
    "{{ i }}",
    "{{ s }}\n",
    "{{ \"\\n\" }}",
    "{{ \"日\" }}",
    "{# a\nb #}",
    "{#- \n -#}",
    "{%- if t -%}\n{%- endif -%}\n ",
    "   \n   ",
];
const AFTER: &[&str] = &["", "x", "\n", "\r\nx", "日\n", "{{ i }}", "{{ nope }}", "\t"];

fn ctx() -> V {
    V::map([
        ("m", V::map([("inn", V::map([("x", V::Int(1))]))])),
        ("l", V::list([V::Int(1)])),
        ("s", V::s("s")),
        ("i", V::Int(3)),
        ("n", V::None),
        ("t", V::Bool(true)),
    ])
}

fn case(src: String) -> Case {
    let mut c = Case::new(src, ctx()).temp("bad", "é\n\t{{ missing }}").temp("ok", "fine");
    c.deff = DefFmt::Builtin;
    c
}

fn run(c: &Case, rec: &mut Rec) -> Result<(), String> {
    check(c, M, rec)
}

fn mistakes() -> impl Iterator<Item = &'static str> {
    RENDER.iter().chain(SYNTAX).copied()
}
fn any(ch: &mut Ch) -> &'static str {
    let n = ch.n(RENDER.len() + SYNTAX.len());
    mistakes().nth(n).unwrap()
}

/// Every mistake, after and before every text, however it is rendered.
fn places(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let m = any(ch);
    let mut s = String::new();
    s.push_str(BEFORE[ch.n(BEFORE.len())]);
    if rec.thorough() && ch.flag() {
        s.push_str(BEFORE[ch.n(BEFORE.len())]);
    }
    s.push_str(m);
    s.push_str(AFTER[ch.n(AFTER.len())]);
    let mut c = case(s);
    match ch.n(5) {
        0 => {}
        1 => c = c.named("na:me"),
        2 => c = c.named("é").writer(true),
        3 => c = c.mode(Mode::Fn),
        _ => c = c.mode(Mode::Serde).writer(true),
    }
    let o = check_with(&c, M, rec)?;
    let compile = matches!(o.end, End::Err(ref e) if e.compile);
    // Keeps the lists honest.
    assert_eq!(compile, SYNTAX.contains(&m), "{}", c.describe());
    Ok(())
}

/// Inside blocks.
fn wrapped(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const W: &[(&str, &str)] = &[
        ("{% if t %}", "{% endif %}"),
        ("{% if n %}a{% else %}\n", "\n{% endif %}"),
        ("{% if n %}a{% else if i %}", "{% else %}b{% endif %}"),
        ("{% for q in l %}\t", "{% endfor %}"),
        ("{% for k, q in m %}日", "{% endfor %}"),
        ("{%- with s as q -%}\n", "{% endwith %}"),
        ("{% if n %}", "{% endif %}"),
    ];
    let m = any(ch);
    let before = *ch.pick(&["", "\n é", "\t"]);
    let mut s = format!("{before}{m}x");
    for _ in 0..ch.range(1, if rec.thorough() { 3 } else { 2 }) {
        let (a, b) = W[ch.n(W.len())];
        s = format!("{a}{s}{b}");
    }
    let mut c = case(s);
    if ch.flag() {
        c = c.named("name");
    }
    run(&c, rec)
}

/// Reached through includes, from the engine or a function of the user.
fn includes(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let m = any(ch);
    let before = *ch.pick(&["", "日\n\té"]);
    let kind = ch.n(3);
    let n = ch.range(1, 3);
    let mut c = case(String::new());
    let mut root = String::new();
    for i in 0..=n {
        let src = if i == n {
            format!("{before}{m}{}", ["", "\nx"][ch.n(2)])
        } else {
            let inc = match ch.n(4) {
                0 => format!("{{% include \"t{i}\" %}}"),
                1 => format!("\n{{% with s as w %}}{{% include \"t{i}\" %}}{{% endwith %}}"),
                2 => format!("{{% for x in l %}}\t{{% include \"t{i}\" with l3 %}}{{% endfor %}}"),
                _ => format!("日{{% include \"ok\" %}}{{% include \"t{i}\" with m %}}"),
            };
            inc.replace(" with l3", "")
        };
        if i == 0 {
            root = src;
        } else {
            c.temps.push((format!("t{}", i - 1), src));
        }
    }
    c.root = crate::run::Root::Anon(root);
    if kind == 1 {
        c = c.named("root");
    }
    if kind == 2 {
        c.store = Some(std::mem::take(&mut c.temps));
    }
    run(&c, rec)
}

/// Every prefix, and every removal of a character, of well formed tags.
fn broken_tags(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const TAGS: &[&str] = &[
        "{{ ab.cd?.0 | fn: -1.5, \"s\\n\", true, x.y | g }}",
        "{%- if not a | f: 0x1f -%}t{%- else if b -%}u{%- else -%}v{%- endif -%}",
        "{% for k, v in m | keys %}{{ loop.index }}{% endfor %}",
        "{% with a.b | up as c %}{# note #}{% endwith %}",
        "{% include \"na\\\\me\" with a.b | rev %}",
        "{{\n\t日本.語 |\r\n é: \"é\"\n}}",
    ];
    let t = *ch.pick(TAGS);
    let cuts: Vec<usize> = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect();
    let i = ch.n(cuts.len());
    let rest = &t[cuts[i]..];
    let what = ch.n(8);
    let s = match what {
        0 => t[..cuts[i]].to_string(),
        1 => format!("{}{}", &t[..cuts[i]], rest.chars().skip(1).collect::<String>()),
        2 => format!("{}\n", &t[..cuts[i]]),
        n => format!("{}{}{rest}", &t[..cuts[i]], [" ", "%", "\"", "{{", "é!"][n - 3]),
    };
    let before = *ch.pick(&["", "\r\né\t"]);
    let mut c = case(format!("{before}{s}"));
    c = c.named("tag");
    run(&c, rec)
}

const TOKENS: &[&str] = &["a", ".", "?.", "0", "|", ":", ",", "1", "-", "\"s\"", "true", "not", "if", "in", "as", "with", "b", "é", "%", "1z"];

fn tokens(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const W: &[(&str, &str)] = &[
        ("{{ ", " }}"),
        ("{% if ", " %}{% endif %}"),
        ("{% for ", " %}{% endfor %}"),
        ("{% with ", " %}{% endwith %}"),
        ("{% include ", " %}"),
        ("{% if a %}{% else ", " %}{% endif %}"),
        ("{% ", " %}"),
        ("{{ ", ""),
    ];
    let (a, b) = W[ch.n(W.len())];
    let n = ch.range(0, if rec.thorough() { 5 } else { 4 });
    let sep = *ch.pick(&[" ", "\n"]);
    let mut v = vec![];
    for _ in 0..n {
        v.push(TOKENS[ch.n(TOKENS.len())]);
    }
    let c = case(format!("é{a}{}{b}x", v.join(sep)));
    run(&c, rec)
}

fn blocks(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const A: &[&str] = &[
        "{% if t %}\n",
        "{%- else if n -%}",
        "{% else %}",
        "{% endif %}",
        "{% for x in l %}",
        "{% endfor %}",
        "{% with i as x %}",
        "{% endwith %}",
        "\n日",
        "{{ x }}",
    ];
    let n = ch.range(1, if rec.thorough() { 6 } else { 5 });
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(A[ch.n(A.len())]);
    }
    run(&case(s), rec)
}

/// Of two mistakes, the first one to be met is reported.
fn first(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let a = any(ch);
    let b = any(ch);
    let sep = *ch.pick(&["\n", "é"]);
    run(&case(format!("{a}{sep}{b}")), rec)
}

/// White space, and line ends, inside the tag.
fn inside(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const SPACE: &[&str] = &[" ", "\n", "\r\n", "\t", "  \n\t", "\u{b}", "\n\n"];
    let m = any(ch);
    let parts: Vec<&str> = m.split(' ').collect();
    let mut s = String::new();
    s.push_str(["", "日\n"][ch.n(2)]);
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            // Only the first and the last spaces vary on their own.
            s.push_str(if i <= 2 || (rec.thorough() && i <= 3) { SPACE[ch.n(SPACE.len())] } else { "\n" });
        }
        s.push_str(p);
    }
    run(&case(s), rec)
}

/// Long lines and many lines.
fn sizes(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = *ch.pick(SIZES);
    let unit = *ch.pick(&["\n", "x", "\r\n", "\t", "日", "é\n", "{{ i }}", "{{ i }}\n", "e\u{301}"]);
    let m = *ch.pick(&["{{ nope }}", "{{ m.nope }}", "{{ i | fail }}", "{{ a b }}", "{% endif %}", "{{ \"a\\q\" }}", "{{ m }}"]);
    let c = match ch.n(3) {
        0 => case(format!("{}{m}", unit.repeat(n))),
        1 => case(format!("{}{m}{}", unit.repeat(n), unit.repeat(3))).named("long"),
        // A long offending token.
        _ => {
            let name = ["a", "é", "日"][n % 3].repeat(n + 1);
            case(format!("\n{{{{ {name}{} }}}}", [" b", "", " | up"][n % 3]))
        }
    };
    run(&c, rec)
}

/// Template names.
fn names(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const NAMES: &[&str] = &["", " ", "a", "a.html", "dir/a.html", "a:1:2", "日本", "<anonymous>", "--> x", "a | b", "\"", "\\", "{{ x }}", "template", "e\u{301}"];
    let name = *ch.pick(NAMES);
    let m = any(ch);
    let quoted = name.replace('\\', "\\\\").replace('"', "\\\"");
    let c = match ch.n(4) {
        0 => case(m.into()).named(name),
        1 => case(format!("\n{{% include \"{quoted}\" %}}")).temp(name, format!("x\n{m}")),
        2 => case(format!("\n{{% include \"{quoted}\" with m %}}")).temp(name, m).named("outer"),
        _ => {
            let mut c = case(format!("\n{{% include \"{quoted}\" %}}"));
            c.store = Some(vec![(name.into(), format!("é{m}")), ("bad".into(), "{{ q }}".into())]);
            c
        }
    };
    run(&c, rec)
}

/// Messages of the user arrive as they are.
fn messages(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const MSG: &[&str] = &["", "no", "No: such thing", "日本 {{ x }}", "a\nb", " padded ", "render error", "100%", "{}", "\u{0}"];
    let msg = *ch.pick(MSG);
    let how = ch.n(8);
    let named = ch.flag();
    let mut e = upon::Engine::new();
    e.add_filter("fail", move |_: i64| -> Result<i64, String> { Err(msg.to_string()) });
    e.add_filter("sfail", move |_: i64, _: i64| -> Result<i64, String> { Err(msg.to_string()) });
    e.add_formatter("ferr", move |_: &mut upon::fmt::Formatter<'_>, _: &upon::Value| Err(upon::fmt::Error::from(msg.to_string())));
    let (src, kind) = [
        ("{{ i | fail }}", Kind::Filter),
        ("{% if i | fail %}{% endif %}", Kind::Filter),
        ("{{ 5 | sfail: i }}", Kind::Filter),
        ("{{ i | ferr }}", Kind::Format),
        ("{{ i }}", Kind::Format),
        ("{{ v }}", Kind::Render),
        ("{% include \"t\" %}", Kind::Render),
        ("{{ i }}", Kind::Serialize),
    ][how];
    if how == 4 {
        e.set_default_formatter(&move |_: &mut upon::fmt::Formatter<'_>, _: &upon::Value| {
            // A formatter has to be static, so the message is found by number.
            Err(upon::fmt::Error::from("static message"))
        });
    }
    let msg = if how == 4 { "static message" } else { msg };
    let src = format!("\n é{src}x");
    e.add_template("named", src.clone()).unwrap();
    let t = e.compile(src.clone()).unwrap();
    rec.traces += 1;
    rec.transitions += 1;
    rec.nontrivial += 1;
    rec.state(fnv(FNV0, format!("{msg}{how}{named}").as_bytes()));
    let value = upon::Value::from([("i", 1i64)]);
    let get = |p: &[upon::ValueMember<'_>]| match p[0].access {
        upon::ValueAccess::Key("i") => Ok(upon::Value::from(1i64)),
        _ => Err(msg.to_string()),
    };
    struct Bad<'a>(&'a str);
    impl serde::Serialize for Bad<'_> {
        fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
            Err(serde::ser::Error::custom(self.0))
        }
    }
    let r = match (how, named) {
        (5, false) => t.render_from_fn(&e, get).to_string(),
        (5, true) => e.template("named").render_from_fn(get).to_string(),
        (6, false) => t.render_from(&e, &value).with_template_fn(|_| Err(msg.to_string())).to_string(),
        (6, true) => e.template("named").render_from(&value).with_template_fn(|_| Err(msg.to_string())).to_string(),
        (7, false) => t.render(&e, Bad(msg)).to_string(),
        (7, true) => e.template("named").render(Bad(msg)).to_string(),
        (_, false) => t.render_from(&e, &value).to_string(),
        (_, true) => e.template("named").render_from(&value).to_string(),
    };
    let err = match r {
        Ok(s) => return Err(format!("{src:?} renders as {s:?}")),
        Err(e) => e,
    };
    let head = match kind {
        Kind::Filter => "filter error",
        Kind::Format => "format error",
        Kind::Render => "render error",
        _ => "serialize error",
    };
    let plain = err.to_string();
    if plain != format!("{head}: {msg}") {
        return Err(format!("{src:?}: the error is {plain:?} instead of {head:?} and {msg:?}"));
    }
    let pretty = format!("{err:#}");
    if how < 7 {
        let name = if named { "named" } else { "<anonymous>" };
        if !pretty.contains(&format!("--> {name}:2:")) || !pretty.contains(&format!("reason: {msg}\n")) {
            return Err(format!("{src:?}: the error with its place is {pretty:?}"));
        }
    } else if pretty != plain {
        return Err(format!("{src:?}: the error with its place is {pretty:?}"));
    }
    if std::error::Error::source(&err).is_some() {
        return Err(format!("{src:?}: the error has a source"));
    }
    if !format!("{err:?}").contains(&format!("{msg:?}")) {
        return Err(format!("{src:?}: the debug output lacks the message: {err:?}"));
    }
    Ok(())
}

/// Too deep includes have no place, whatever comes before.
fn depth(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let d = ch.range(1, 5);
    let m = any(ch);
    let n = ch.range(1, 5);
    let mut c = case("x{% include \"t1\" %}".into());
    c.emax = Some(d);
    for i in 1..=n {
        let src = if i == n { m.to_string() } else { format!("\n{{% include \"t{}\" %}}{{{{ nope }}}}", i + 1) };
        c.temps.push((format!("t{i}"), src));
    }
    if ch.flag() {
        c = c.named("root");
    }
    run(&c, rec)
}

/// Other delimiters.
fn delimiters(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    use crate::model::Syn;
    let syn = match ch.n(5) {
        0 => Syn::new(Some(("<?", "?>")), Some(("<%", "%>")), Some(("<#", "#>"))),
        1 => Syn::new(Some(("{", "}")), Some(("{{", "}}")), Some(("{#", "#}"))),
        2 => Syn::new(Some(("日", "本")), Some(("é(", ")é")), Some(("語", "語語"))),
        3 => Syn::new(Some(("${", "}")), Some(("%", "\n")), None),
        _ => Syn::new(Some(("{{", "}}")), Some(("[%%", "%%]")), Some(("{{!", "}}"))),
    };
    let m = any(ch);
    let d = |p: &Option<(String, String)>| p.clone().unwrap_or(("".into(), "".into()));
    let (e, b, k) = (d(&syn.expr), d(&syn.block), d(&syn.comment));
    let mut s = String::new();
    let mut rest = format!("{}{m}{}", ["", "\né"][ch.n(2)], ["", "\nx"][ch.n(2)]);
    // Translates the delimiters.
    while !rest.is_empty() {
        let to = [("{{", &e.0), ("}}", &e.1), ("{%", &b.0), ("%}", &b.1), ("{#", &k.0), ("#}", &k.1)];
        match to.iter().find(|(f, _)| rest.starts_with(f)) {
            Some((f, t)) => {
                s.push_str(t);
                rest = rest[f.len()..].to_string();
            }
            None => {
                let c = rest.chars().next().unwrap();
                s.push(c);
                rest = rest[c.len_utf8()..].to_string();
            }
        }
    }
    let mut c = case(s);
    c.temps.clear();
    c.syn = syn;
    run(&c, rec)
}

/// Columns after every kind of character: those that are narrow, wide, of no
/// width, and that no display knows.
fn chars(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let block = ch.n(if rec.thorough() { 0x1100 } else { 0x110 }) as u32;
    let lo = if rec.thorough() { block << 8 } else { block << 12 };
    // The model takes widths from the same tables, so only the sum is checked.
    let c = (lo..lo + 256).filter_map(char::from_u32).filter(|c| !c.is_control() && !"{}%#\"".contains(*c));
    let line: String = c.collect();
    let m = *ch.pick(&["{{ nope }}", "{{ a b }}"]);
    let at = ch.n(2);
    let s = if at == 0 { format!("{line}{m}") } else { format!("\n{m}{line}") };
    let got = check_with(&case(s), M, rec)?;
    match got.end {
        End::Err(_) => Ok(()),
        _ => Err("no error".into()),
    }
}

