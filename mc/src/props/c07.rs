//! C07: compiling and rendering are total.

use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::explore::{fnv, Ch, Rec, FNV0};
use crate::funcs::{install, STD};
use crate::known::Apart;
use crate::model::Syn;
use crate::props::gen::{BIG, SIZES};
use crate::run::{clip, panic_text};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        level: "exploration",
        rule: "every string within the bounds is compiled twice and what compiles is rendered with each context; an evaluation is one string; distinct_nontrivial counts the different (input, answer) pairs",
        scenarios: vec![
            Scenario { name: "strings", body: strings },
            Scenario { name: "inside", body: inside },
            Scenario { name: "blocks", body: blocks },
            Scenario { name: "syntaxes", body: syntaxes },
            Scenario { name: "characters", body: characters },
            Scenario { name: "edits", body: edits },
            Scenario { name: "values", body: values },
            Scenario { name: "calls", body: calls },
            Scenario { name: "lines", body: lines },
            Scenario { name: "ladders", body: ladders },
        ],
        apart: APART,
    }
}

pub fn syntaxes_list() -> Vec<Syn> {
    let n = Syn::new;
    vec![
        Syn::default(),
        n(Some(("{", "}")), Some(("{%", "%}")), None),
        n(Some(("<?", "?>")), Some(("(((", ")))")), Some(("/*", "*/"))),
        n(Some(("{", "}")), Some(("{{", "}}")), Some(("{{{", "}}}"))),
        n(Some(("-", "--")), None, None),
        n(Some(("--", "-")), Some(("-%", "%-")), None),
        n(Some(("a", "b")), Some(("c", "d")), Some(("e", "f"))),
        n(Some(("é", "日")), Some(("日本", "本")), Some(("😀", "é😀"))),
        n(Some((" ", "\n")), None, Some(("\t", "\t\t"))),
        n(Some(("|", "||")), Some((".", "..")), Some((":", ","))),
        n(Some(("1", "2")), Some(("0x", "x0")), None),
        n(Some(("\"", "\\\"")), None, Some(("\\", "\\\\"))),
        n(None, Some(("if", "endif")), None),
        n(Some(("{{", "}}")), None, None),
        n(Some(("{-", "-}")), Some(("{--", "--}")), None),
        n(Some(("<", ">")), Some(("<<", ">>")), Some(("<!--", "-->"))),
        n(Some(("${", "}")), Some(("#{", "}#")), Some(("##", "\n"))),
    ]
}

fn contexts() -> Vec<V> {
    vec![
        V::None,
        V::map([
            ("a", V::map([("a", V::list([V::Int(1), V::None])), ("é", V::s("x"))])),
            ("e", V::list([V::s("s")])),
            ("é", V::Float(f64::NAN)),
        ]),
    ]
}

thread_local! {
    static ENGINES: RefCell<HashMap<usize, &'static upon::Engine<'static>>> = RefCell::new(HashMap::new());
}

fn engine(i: usize) -> &'static upon::Engine<'static> {
    ENGINES.with(|m| {
        *m.borrow_mut().entry(i).or_insert_with(|| {
            let syn: &'static Syn = Box::leak(Box::new(syntaxes_list()[i].clone()));
            let mut e = upon::Engine::with_syntax(syn.to_upon());
            for (n, f) in STD {
                install(&mut e, n, *f);
            }
            for n in ["a", "é", "_1"] {
                install(&mut e, n, crate::funcs::Fun::F(crate::funcs::Flt::Rid));
            }
            e.add_template("x", "X").ok();
            Box::leak(Box::new(e))
        })
    })
}

/// Looks at all of an error.
fn look(e: &upon::Error) -> String {
    let s = format!("{e}\u{0}{e:#}\u{0}{e:?}\u{0}{e:#?}");
    std::error::Error::source(e);
    s
}

fn total(e: &upon::Engine<'_>, src: &str, ctxs: &[upon::Value], rec: &mut Rec) -> Result<(), String> {
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<u64, String> {
        let a = e.compile(src);
        let b = e.compile(src);
        match (a, b) {
            (Ok(a), Ok(b)) => {
                let mut h = FNV0;
                if a.source() != src {
                    return Err("the source changed".into());
                }
                let show = format!("{a:?}");
                if format!("{b:?}") != show {
                    return Err("compiling twice gives different templates".into());
                }
                for c in ctxs {
                    let x = a.render_from(e, c).to_string();
                    let y = b.render_from(e, c).to_string();
                    let mut out = vec![];
                    let z = a.render_from(e, c).to_writer(&mut out);
                    match (x, y, z) {
                        (Ok(x), Ok(y), Ok(())) => {
                            if x != y || x.as_bytes() != out {
                                return Err("rendering is not deterministic".into());
                            }
                            h = fnv(h, x.as_bytes());
                        }
                        (Err(x), Err(y), Err(z)) => {
                            let s = look(&x);
                            if s != look(&y) || s != look(&z) {
                                return Err("rendering fails differently each time".into());
                            }
                            if s.starts_with("invalid syntax") {
                                return Err("rendering failed with a syntax error".into());
                            }
                            h = fnv(h, s.as_bytes());
                        }
                        _ => return Err("rendering sometimes fails".into()),
                    }
                }
                Ok(h)
            }
            (Err(x), Err(y)) => {
                let s = look(&x);
                if s != look(&y) {
                    return Err("compiling fails differently each time".into());
                }
                if !s.starts_with("invalid syntax") {
                    return Err(format!("compiling failed with another error than a syntax error: {x}"));
                }
                Ok(fnv(FNV0, s.as_bytes()))
            }
            _ => Err("compiling sometimes fails".into()),
        }
    }));
    let r = match r {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", panic_text(p))),
    };
    rec.sample(|| format!("{} => {:?}", clip(src), r));
    match r {
        Ok(h) => {
            rec.transitions += 1;
            rec.traces += 1;
            rec.nontrivial += 1;
            rec.state(fnv(fnv(FNV0, src.as_bytes()), &h.to_le_bytes()));
            rec.outcome(h);
            Ok(())
        }
        Err(m) => Err(format!("{m}\n  template {}", clip(src))),
    }
}

fn upons(cs: Vec<V>) -> Vec<upon::Value> {
    cs.iter().map(V::to_upon).collect()
}

fn pieces(ch: &mut Ch, alphabet: &[&str], max: usize) -> String {
    let mut s = String::new();
    let n = ch.range(0, max);
    for _ in 0..n {
        s.push_str(alphabet[ch.n(alphabet.len())]);
    }
    s
}

/// Every string of up to 4 (5) symbols.
fn strings(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const A: &[&str] = &[
        "{{", "}}", "{%", "%}", "{#", "#}", "-", "{", "}", "%", "#", " ", "\n", "a", "1", ".", "?", "\"", "\\", "|", ":", ",", "é",
        "0x", "if ", "endif",
    ];
    let s = pieces(ch, A, if rec.thorough() { 5 } else { 4 });
    total(engine(0), &s, &upons(contexts()), rec)
}

/// The inside of an expression tag, closed or not.
fn inside(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const A: &[&str] = &[
        "a", "1", ".", "?.", "|", ":", ",", "\"x\"", "-", "+", "true", "\"", "\\", "é", "😀", "\u{0}", "1e5", "0b", " ", "\n",
        "not", "loop", "-}}", "{{", "rid", "pair",
    ];
    let mut s = String::from("{{");
    let close = *ch.pick(&["", "}}", " -}}\u{3000}t"]);
    s.push_str(&pieces(ch, A, if rec.thorough() { 5 } else { 4 }));
    s.push_str(close);
    total(engine(0), &s, &upons(contexts()), rec)
}

/// Sequences of block tags.
fn blocks(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const A: &[&str] = &[
        "{% if a %}",
        "{% if not a.a.9 %}",
        "{% else if e %}",
        "{% else %}",
        "{% endif %}",
        "{% for x in e %}",
        "{% for x, y in a %}",
        "{% endfor %}",
        "{% with a.a as x %}",
        "{% endwith %}",
        "{% include \"x\" %}",
        "{% include \"y\" with a %}",
        "{{ x }}",
        "{{ loop.index }}",
        "{# c #}",
        "{% ",
        "t",
    ];
    let s = pieces(ch, A, if rec.thorough() { 6 } else { 5 });
    total(engine(0), &s, &upons(contexts()), rec)
}

fn syntaxes(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let list = syntaxes_list();
    let i = ch.n(list.len());
    let syn = &list[i];
    let mut al: Vec<String> = vec![];
    for (a, b) in [&syn.expr, &syn.block, &syn.comment].into_iter().flatten() {
        al.push(a.clone());
        al.push(b.clone());
        // Parts of them.
        for x in [a, b] {
            let mut cs = x.chars();
            if let (Some(c), Some(_)) = (cs.next(), cs.next()) {
                al.push(c.to_string());
            }
        }
    }
    al.extend(["-", " ", "a", "1", "\"", "é", "if ", "endif", "\n", "."].map(String::from));
    al.sort();
    al.dedup();
    let al: Vec<&str> = al.iter().map(|s| s.as_str()).collect();
    let s = pieces(ch, &al, if rec.thorough() { 5 } else { 4 });
    total(engine(i), &s, &upons(contexts()), rec)
}

/// Every character, everywhere a character can be.
fn characters(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const AT: &[&str] = &[
        "X", "{{X}}", "{{ aX }}", "{{ 1X }}", "{{ \"X\" }}", "{{ \"\\X\" }}", "{#X#}", "X{{- a -}}X", "{{ a.X }}", "{% X", "{{ ?X",
        "{{ a\nX\tX }}", "X{{ zz }}", "{{ 1 | X }}", "{{ 0xX }}",
    ];
    let (lo, hi) = if rec.thorough() { (0, 0x110000 / 256) } else { (0, 0x3100 / 256) };
    let page = lo + ch.n(hi - lo + 16);
    // And, quickly, a few pages further up.
    let page = if page < hi { page } else { [0xd7, 0xe0, 0xf8, 0xfe, 0xff, 0x100, 0x103, 0x1d4, 0x1f6, 0x200, 0x2ff, 0xe00, 0xe01, 0xfff, 0x1000, 0x10ff][page - hi] };
    let c = match char::from_u32((page * 256 + ch.n(256)) as u32) {
        Some(c) => c,
        None => return Ok(()),
    };
    let ctx = upons(contexts());
    for t in AT {
        total(engine(0), &t.replace('X', &c.to_string()), &ctx[1..], rec)?;
    }
    Ok(())
}

const CORPUS: &[&str] = &[
    "{{ a.b?.0 | f: -1, \"x\\n\" | g }}",
    "{%- if not a -%} x {%- else if b.c -%} y {% else %}é{% endif -%}",
    "{% for k, v in m | f: 1.5e-3 %}{{ loop.index }}{{ k -}} \n {% endfor %}",
    "{% with a | f: 0x1F as x %}{{ x }}{% endwith %}{#- c -#} ",
    "{% include \"n\" with a | f %}\r\n\t{{ \"\\\\\" }}",
    "é日{{ 本 }}😀{% if é %}½{% endif %}",
];

/// Every truncation and every small edit of some templates.
fn edits(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const SUBST: &[&str] = &[
        "", "{", "}", "%", "#", "-", "\"", "\\", ".", "?", "|", ":", ",", " ", "\n", "\u{0}", "é", "😀", "0", "e", "_", "{{", "}}",
        "%}", "{%", "#}", "+",
    ];
    let mut s: String = ch.pick(CORPUS).to_string();
    let cut = ch.n(s.chars().count() + 1);
    if cut > 0 {
        s = s.chars().take(cut - 1).collect();
    }
    let edits = if cut == 0 && rec.thorough() { 2 } else { 1 };
    for _ in 0..edits {
        let cs: Vec<char> = s.chars().collect();
        let at = ch.n(cs.len() + 1);
        let keep = ch.flag();
        let sub = *ch.pick(SUBST);
        let rest = if keep || at == cs.len() { at } else { at + 1 };
        s = cs[..at].iter().collect::<String>() + sub + &cs[rest..].iter().collect::<String>();
    }
    total(engine(0), &s, &upons(contexts())[..1], rec)
}

/// Errors on lines of every length, made of characters of every length.
fn lines(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const BAD: &[&str] = &[
        "{{ zz }}", "{{ a.zz }}", "{{ a | nope }}", "{{ a | fail }}", "{% include \"nope\" %}", "{{ ~ }}", "{{ é日", "{% endif %}", "{{ a | \"é\" }}", "{{ 1é }}", "{% if a",
        "{{ \"日\\q\" }}", "{% for x in e.0 %}{% endfor %}", "{{ 99999999999999999999 }}", "{# é",
    ];
    const UNIT: &[&str] = &["x", "é", "日", "😀", "e\u{301}", "\t"];
    let sizes: &[usize] = &[0, 1, 3, 7, 10, 15, 19, 20, 25, 30, 31, 32, 39, 40, 50, 59, 60, 63, 64, 75, 79, 80, 99, 100, 119, 120, 127, 128, 150, 160, 199, 200, 255, 256, 400, 500, 512, 999, 1000, 1024, 2048, 4096, 5000, 65535, 70000];
    let bad = *ch.pick(BAD);
    let unit = *ch.pick(UNIT);
    let n = *ch.pick(sizes);
    // So that every byte falls inside of a character.
    let pad = "abc"[..ch.n(if rec.thorough() { 4 } else { unit.len().min(4) })].to_string();
    let many = unit.repeat(n);
    let more: &[usize] = if rec.thorough() { &[0, 1, 2, 3, 4, 5] } else { &[0, 1, 2] };
    let s = match *ch.pick(more) {
        0 => format!("{pad}{bad}{many}"),
        1 => format!("{pad}{many}{bad}"),
        2 => format!("{pad}{many}{bad}{many}\nx"),
        3 => format!("y\n{pad}{many}{bad}{many}"),
        4 => format!("{many}\n{pad}{bad}\r\n{many}"),
        _ => format!("{pad}{many}{{{{ a.é }}}}{many}{bad}"),
    };
    total(engine(0), &s, &upons(contexts())[1..], rec)
}

fn odd_values() -> Vec<V> {
    let mut vs = crate::props::gen::truth_domain();
    vs.extend([
        V::Float(f64::MAX),
        V::Float(f64::MIN_POSITIVE),
        V::Float(1e21),
        V::Float(-1e-7),
        V::s("é日😀\u{0}\n"),
        V::s(&"x".repeat(3000)),
        V::map([("é", V::Int(1)), ("日本", V::None)]),
        V::list([V::map([("a", V::list([V::map::<_, &str>([])]))])]),
    ]);
    vs
}

/// Every value in every position of a template.
fn values(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const T: &[&str] = &[
        "{{ v }}",
        "{{ v | show }}",
        "{{ v.a }}",
        "{{ v?.a }}",
        "{{ v.0 }}",
        "{{ v?.0 }}",
        "{{ v?.18446744073709551615 }}",
        "{% if v %}a{% else if not v %}b{% endif %}",
        "{% for x in v %}{{ x | show }}{{ loop.index }}{{ loop.last }}{% endfor %}",
        "{% for x, y in v %}{{ x }}{{ y | show }}{{ loop.first }}{% endfor %}",
        "{% for x in v | rid %}{{ x | show }}{{ x.a }}{% endfor %}",
        "{% for x, y in v | rid %}{{ x }}{{ y | show }}{% endfor %}",
        "{% for x in v %}{% for y in x %}{{ y }}{% endfor %}{% endfor %}",
        "{% with v as loop %}{{ loop | show }}{% endwith %}",
        "{% with v | rid as x %}{{ x.a?.b }}{% endwith %}",
        "{% include \"x\" with v %}",
        "{% include \"y\" with v %}",
    ];
    let v = ch.pick(&odd_values()).clone();
    let t = *ch.pick(T);
    let as_root = ch.flag();
    let ctx = if as_root { v } else { V::map([("v", v)]) };
    total(engine(0), t, &[ctx.to_upon()], rec)
}

/// Every function with every value and argument.
fn calls(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let (f, _) = ch.pick(STD);
    let vs = odd_values();
    let v = ch.pick(&vs).clone();
    let args = ch.n(3);
    let w = if args > 0 { ch.pick(&vs).clone() } else { V::None };
    let lit = ch.n(3);
    let arg = ["w", "1", "\"s\""][lit];
    let t = match args {
        0 => format!("{{{{ v | {f} }}}}"),
        1 => format!("{{{{ v | {f}: {arg} }}}}"),
        _ => format!("{{{{ v | {f}: {arg}, w | show }}}}"),
    };
    // Ranges are clamped by the function.
    total(engine(0), &t, &[V::map([("v", v), ("w", w)]).to_upon()], rec)
}

pub const LADDERS: &[&str] = &[
    "if", "else if", "nested else", "for", "for map", "with", "pipes", "args", "path", "opt path", "text", "comment", "string",
    "escapes", "digits", "float", "underscores", "ident", "tags", "lines", "open", "unclosed", "deep value", "mixed", "long line error",
    "hyphens", "empty tags", "with shadow", "many names", "comments",
];

/// Big templates of every kind.
fn ladder(how: &str, n: usize) -> (String, V) {
    let mut ctx = V::map([("a", V::Int(1)), ("l", V::list([V::Int(1)])), ("m", V::map([("a", V::Int(2))]))]);
    let rep = |a: &str, m: &str, b: &str| format!("{}{m}{}", a.repeat(n), b.repeat(n));
    let s = match how {
        "if" => rep("{% if a %}", "x", "{% endif %}"),
        "else if" => format!("{{% if not a %}}{}{{% endif %}}", "{% else if not a %}x".repeat(n)),
        "nested else" => rep("{% if not a %}{% else %}", "x", "{% endif %}"),
        "for" => rep("{% for x in l %}", "{{ x }}", "{% endfor %}"),
        "for map" => rep("{% for k, x in m %}", "{{ x }}", "{% endfor %}"),
        "with" => rep("{% with a as b %}", "{{ b }}", "{% endwith %}"),
        "with shadow" => rep("{% with a as a %}", "{{ a }}", "{% endwith %}{{ a }}"),
        "mixed" => rep("{% if a %}{% for x in l %}{% with x as y %}", "{{ y }}", "{% endwith %}{% endfor %}{% endif %}"),
        "pipes" => format!("{{{{ a{} }}}}", " | rid".repeat(n)),
        "args" => format!("{{{{ a | trip: a{} }}}}", ", 1".repeat(n)),
        "path" => format!("{{{{ a{} }}}}", ".b".repeat(n)),
        "opt path" => format!("{{{{ m{} }}}}", "?.b".repeat(n)),
        "text" => "x é\n".repeat(n),
        "comment" => format!("{{#{}#}}", "c\n".repeat(n)),
        "comments" => "{# é #}".repeat(n),
        "string" => format!("{{{{ \"{}\" }}}}", "é".repeat(n)),
        "escapes" => format!("{{{{ \"{}\" }}}}", "\\n\\\\\\\"".repeat(n)),
        "digits" => format!("{{{{ 1{} }}}}", "0".repeat(n)),
        "float" => format!("{{{{ 0.{}1e{} }}}}", "0".repeat(n), "9".repeat(n % 700)),
        "underscores" => format!("{{{{ 1{}1 }}}}", "_".repeat(n)),
        "ident" => format!("{{{{ x{} }}}}", "é".repeat(n)),
        "tags" => "{{ a }}{% if a %}{{- a -}}{% endif %}".repeat(n),
        "lines" => format!("{}{{{{ zz }}}}", "é\r\n\t".repeat(n)),
        "open" => "{% if a %}".repeat(n) + "{% endfor %}",
        "unclosed" => format!("{{{{ a {}", "| rid ".repeat(n)),
        "long line error" => format!("{}{{{{ zz }}}}{}", "日x".repeat(n), "y\t".repeat(n)),
        "hyphens" => format!("{{{{ {}1 }}}}", "-".repeat(n)),
        "empty tags" => "{{}}".repeat(n),
        "many names" => (0..n).map(|i| format!("{{% with {i} as v{i} %}}")).collect::<String>() + "{{ v0 }}" + &"{% endwith %}".repeat(n),
        "deep value" => {
            let mut v = V::Int(1);
            for i in 0..n {
                v = if i % 2 == 0 { V::list([v]) } else { V::map([("a", v)]) };
            }
            ctx = V::map([("a", v)]);
            "{{ a | rid | show }}{{ a }}".to_string()
        }
        _ => unreachable!("{how}"),
    };
    (s, ctx)
}

fn nests(how: &str) -> bool {
    matches!(
        how,
        "if" | "else if" | "nested else" | "for" | "for map" | "with" | "mixed" | "pipes" | "with shadow" | "deep value" | "open" | "many names" | "unclosed"
    )
}

fn ladders(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let how = *ch.pick(LADDERS);
    let big = ch.flag();
    let n = if !big {
        *ch.pick(SIZES)
    } else if nests(how) {
        return Ok(());
    } else {
        // What does not nest is flat.
        let sizes: Vec<usize> = BIG.iter().copied().filter(|n| rec.thorough() || *n <= 20000).collect();
        *ch.pick(&sizes)
    };
    let n = if how == "mixed" { n / 3 } else { n };
    let (s, ctx) = ladder(how, n);
    // The stack a main thread or another thread has by default.
    let stack = if nests(how) { 8 << 20 } else { 2 << 20 };
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn_scoped(sc, || {
                let mut e = upon::Engine::new();
                for (n, f) in STD {
                    install(&mut e, n, *f);
                }
                total(&e, &s, &[ctx.to_upon()], rec)
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err("harness".into()))
    })
    .map_err(|m| format!("{how} {n}: {m}"))
}

const APART: &[Apart] = &[
    Apart {
        key: "deep-blocks",
        what: "compiling 5000 nested if blocks on a thread with a 2 MB stack overflows the stack and ends the process",
        run: || apart("if", 5000),
    },
    Apart {
        key: "long-else-if",
        what: "compiling a conditional with 10000 else if arms on a thread with a 2 MB stack overflows the stack and ends the process",
        run: || apart("else if", 10000),
    },
    Apart {
        key: "long-pipeline",
        what: "compiling an expression with 20000 filters on a thread with a 2 MB stack overflows the stack and ends the process",
        run: || apart("pipes", 20000),
    },
];

fn apart(how: &str, n: usize) -> Result<(), String> {
    let (s, ctx) = ladder(how, n);
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let mut e = upon::Engine::new();
            for (n, f) in STD {
                install(&mut e, n, *f);
            }
            let mut rec = Rec::new(crate::explore::Tier::Quick);
            total(&e, &s, &[ctx.to_upon()], &mut rec)
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| Err("panicked".into()))
}
