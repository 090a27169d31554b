H = '''use upon::{Engine, Value};
fn fail(what: &str, got: impl std::fmt::Debug) -> ! {
    eprintln!("{what}: {got:?}");
    std::process::exit(1)
}
#[allow(dead_code)]
fn text(r: Result<String, upon::Error>) -> String {
    r.unwrap_or_else(|e| format!("!{e}"))
}
'''
SEEDS = [
dict(id="c01-folded-literal", property="C01", needs="a condition that is an empty string literal or a zero literal",
 what="conditions that are literals are decided when compiling, and only `false` counts as false",
 edits=[("src/compile/mod.rs", '''                self.compile_expr(cond);
''', '''                // A literal condition is known now.
                if let ast::Expr::Base(ast::BaseExpr::Literal(lit)) = &cond {
                    let holds = !matches!(lit.value, crate::Value::None | crate::Value::Bool(false));
                    if holds != not {
                        self.compile_scope(then_branch);
                    } else if let Some(else_branch) = else_branch {
                        self.compile_scope(else_branch);
                    }
                    return;
                }

                self.compile_expr(cond);
''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    for src in ["{% if \\"\\" %}yes{% else %}no{% endif %}", "{% if 0.0 %}yes{% else %}no{% endif %}"] {
        let got = text(engine.compile(src).unwrap().render_from(&engine, &Value::None).to_string());
        if got != "no" { fail(src, got) }
    }
}'''),
dict(id="c04-fn-cache", property="C04", needs="a template function that answers differently when asked for the same name again",
 what="the renderer remembers what the template function returned for a name",
 edits=[("src/render/mod.rs", "    template_fn: Option<Box<TemplateFn<'render>>>,\n}", "    template_fn: Option<Box<TemplateFn<'render>>>,\n    found: std::collections::BTreeMap<String, &'render Template<'render>>,\n}"),
  ("src/render/mod.rs", "                template_fn: None,\n", "                template_fn: None,\n                found: Default::default(),\n"),
  ("src/render/core.rs", '''        if let Some(template_fn) = &mut self.inner.template_fn {
            template_fn(name.as_str())
                .map(|t| &t.template)
                .map_err(|e| Error::render(e, source, name.span))
        } else {''', '''        if let Some(template) = self.inner.found.get(name.as_str()) {
            return Ok(template);
        }
        if let Some(template_fn) = &mut self.inner.template_fn {
            let template = template_fn(name.as_str())
                .map(|t| &t.template)
                .map_err(|e| Error::render(e, source, name.span))?;
            self.inner.found.insert(name.as_str().to_owned(), template);
            Ok(template)
        } else {''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let (a, b) = (engine.compile("a").unwrap(), engine.compile("b").unwrap());
    let t = engine.compile("{% include \\"x\\" %}{% include \\"x\\" %}").unwrap();
    let mut n = 0;
    let got = text(t.render_from(&engine, &Value::None).with_template_fn(|_| { n += 1; Ok(if n == 1 { &a } else { &b }) }).to_string());
    if got != "ab" { fail("the second include asks again", got) }
}'''),
dict(id="c05-zero-unset", property="C05", needs="a renderer whose maximum include depth is zero",
 what="a renderer's limit of zero is taken for unset",
 edits=[("src/render/core.rs", '''            .max_include_depth
            .unwrap_or(''', '''            .max_include_depth
            .filter(|&depth| depth > 0)
            .unwrap_or(''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("a", "a").unwrap();
    let t = engine.compile("{% include \\"a\\" %}").unwrap();
    let got = t.render_from(&engine, &Value::None).with_max_include_depth(0).to_string();
    if let Ok(s) = got { fail("no include is allowed", s) }
}'''),
dict(id="c06-owned-chain", property="C06", needs="a path with `?.` on a computed value, with more path after the missing member",
 what="in a value bound by `with` to a temporary, the path after a missing optional member is still followed",
 edits=[("src/render/value.rs", '''        ValueCow::Owned(value) => {
            let mut value: &Value = value;
            for p in path {
                match lookup(source, value, p)? {
                    Some(v) => value = v,
                    None => return Ok(ValueCow::Borrowed(&Value::None)),
                }
            }''', '''        ValueCow::Owned(value) => {
            let mut value: &Value = value;
            for p in path {
                value = lookup(source, value, p)?.unwrap_or(&Value::None);
            }''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_filter("id", |v: Value| v);
    let t = engine.compile("{% with m | id as o %}<{{ o?.x.y }}>{% endwith %}").unwrap();
    let got = text(t.render_from(&engine, &Value::from([("m", Value::from([("a", 1i64)]))])).to_string());
    if got != "<>" { fail("a missing optional member ends the path", got) }
}'''),
dict(id="c07-question-slice", property="C07", needs="a question mark followed by a character of several bytes inside a tag",
 what="the span of an unexpected character after `?` ends inside that character, so that reporting it panics",
 edits=[("src/compile/lex.rs", "Some((j, c)) => Err(self.err_unexpected_character(i..j + c.len_utf8())),", "Some((j, _)) => Err(self.err_unexpected_character(i..j + 1)),")],
 demo=H+'''fn main() {
    let got = std::panic::catch_unwind(|| Engine::new().compile("{{ a?\\u{e9} }}").is_err());
    if got.is_err() { fail("a syntax error", "panic") }
}'''),
dict(id="c08-bom", property="C08", needs="a template that starts with a byte order mark",
 what="a byte order mark at the start of a template is dropped from the output",
 edits=[("src/compile/lex.rs", '''            None => {
                let j = self.source.len();
                self.cursor = j;
                trim_raw_token(i, j, false)''', '''            None => {
                let j = self.source.len();
                self.cursor = j;
                let i = if i == 0 && self.source.starts_with('\\u{feff}') { 3 } else { i };
                trim_raw_token(i, j, false)''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let src = "\\u{feff}text";
    let got = text(engine.compile(src).unwrap().render_from(&engine, &Value::None).to_string());
    if got != src { fail("text is output verbatim", got) }
}'''),
dict(id="c11-negative-zero", property="C11", needs="a negative zero float literal",
 what="`-0.0` denotes positive zero",
 edits=[("src/compile/parse.rs", "Sign::Neg => Value::Float(-float),", "Sign::Neg => Value::Float(0.0 - float),")],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let got = text(engine.compile("{{ -0.0 }}").unwrap().render_from(&engine, &Value::None).to_string());
    if got != "-0" { fail("-0.0 is negative", got) }
}'''),
dict(id="c12-extra-arg", property="C12", needs="a filter with four arguments that is given five",
 what="surplus arguments of a filter with four parameters are ignored",
 edits=[("src/filters/mod.rs", "    if state.args.len() == exp {", "    if state.args.len() == exp || (exp == 4 && state.args.len() > exp) {")],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_filter("f", |a: i64, b: i64, c: i64, d: i64, e: i64| a + b + c + d + e);
    let got = engine.compile("{{ 1 | f: 2, 3, 4, 5, 6 }}").unwrap().render_from(&engine, &Value::None).to_string();
    if let Ok(s) = got { fail("too many arguments", s) }
}'''),
dict(id="c13-last-argless", property="C13", needs="a formatter and a filter whose names shadow each other: a formatter named last, after a filter with arguments, given arguments",
 what="a formatter named last with arguments is used, its arguments ignored",
 edits=[("src/compile/mod.rs", "            Some(Instr::Apply(_, _, None)) => {", "            Some(Instr::Apply(_, _, args)) if args.as_ref().map_or(true, |a| a.values.len() > 4) => {")],
 demo=H+'''use std::fmt::Write;
fn main() {
    let mut engine = Engine::new();
    engine.add_formatter("f", |f, _| { f.write_str("formatted")?; Ok(()) });
    let got = engine.compile("{{ 1 | f: 1, 2, 3, 4, 5 }}").unwrap().render_from(&engine, &Value::None).to_string();
    if let Ok(s) = got { fail("a formatter takes no arguments", s) }
}'''),
dict(id="c14-latin1", property="C14", needs="a formatter that writes single characters beyond ASCII, rendering to a writer",
 what="characters up to U+00FF are written to a writer as one byte",
 edits=[("src/fmt.rs", '''        self.writer
            .write_all(c.encode_utf8(&mut [0; 4]).as_bytes())
''', '''        // Most characters are a single byte.
        let mut buf = [0; 4];
        let bytes: &[u8] = match u8::try_from(c) {
            Ok(b) => {
                buf[0] = b;
                &buf[..1]
            }
            Err(_) => c.encode_utf8(&mut buf).as_bytes(),
        };
        self.writer
            .write_all(bytes)
''')],
 demo=H+'''use std::fmt::Write;
fn main() {
    let mut engine = Engine::new();
    engine.add_formatter("f", |f, _| { f.write_char('\\u{e9}')?; Ok(()) });
    let mut out = Vec::new();
    engine.compile("{{ 1 | f }}").unwrap().render_from(&engine, &Value::None).to_writer(&mut out).unwrap();
    if out != "\\u{e9}".as_bytes() { fail("two bytes", out) }
}'''),
dict(id="c15-failed-replace", property="C15", needs="adding a template with invalid source under a name that is registered",
 what="a template is removed when its replacement does not compile",
 edits=[("src/lib.rs", "            Err(err) => Err(err.with_template_name(name.into().into())),", '''            Err(err) => {
                let name = name.into();
                self.templates.remove(&name);
                Err(err.with_template_name(name.into()))
            }''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("a", "old").unwrap();
    if engine.add_template("a", "{{").is_ok() { fail("invalid", ()) }
    if engine.get_template("a").is_none() { fail("the old one stays", ()) }
}'''),
dict(id="c16-f32-shortest", property="C16", needs="an f32 that has no exact short decimal form",
 what="an f32 is converted to the double nearest to its shortest decimal form",
 edits=[("src/value/ser/mod.rs", "Ok(Value::Float(f64::from(v)))", "Ok(Value::Float(v.to_string().parse().unwrap_or_else(|_| f64::from(v))))")],
 demo=H+'''fn main() {
    let got = upon::to_value(0.1f32).unwrap();
    if got != Value::Float(0.1f32 as f64) { fail("0.1f32 exactly", got) }
}'''),
dict(id="c17-name-after-include", property="C17", needs="an error in a template after an include in it has finished",
 what="errors after an include name the included template",
 edits=[("src/render/core.rs", "        while let Some((t, tname, pc, has_scope)) = templates.last_mut() {", "        let mut last_name = None;\n        while let Some((t, tname, pc, has_scope)) = templates.last_mut() {\n            let tname = last_name.unwrap_or(*tname);"),
  ("src/render/core.rs", '''                    templates.push((template, Some(template_name.as_str()), 0, false));''', '''                    last_name = Some(Some(template_name.as_str()));
                    templates.push((template, Some(template_name.as_str()), 0, false));''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("a", "a").unwrap();
    engine.add_template("b", "{% include \\"a\\" %}{{ x }}").unwrap();
    let got = format!("{:#}", engine.template("b").render_from(&Value::from([("y", 1i64)])).to_string().unwrap_err());
    if !got.contains("--> b:1:") { fail("the error is in b", got) }
}'''),
dict(id="c18-fn-index-op", property="C18", needs="a value function and a path with an optional index",
 what="a value function is told that an optional index is a direct one",
 edits=[("src/render/stack.rs", '''                            let op = match member.op {
                                ast::AccessOp::Direct => ValueAccessOp::Direct,
                                ast::AccessOp::Optional => ValueAccessOp::Optional,
                            };''', '''                            let op = match (&member.op, &member.access) {
                                (ast::AccessOp::Optional, ast::Access::Key(_)) => ValueAccessOp::Optional,
                                _ => ValueAccessOp::Direct,
                            };''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let t = engine.compile("{{ a?.0 }}").unwrap();
    let got = text(t.render_from_fn(&engine, |path| Ok(Value::from(path[1].op == upon::ValueAccessOp::Optional))).to_string());
    if got != "true" { fail("the index is optional", got) }
}'''),
dict(id="c19-depth-leak", property="C19", needs="renderings that failed inside included templates, then one that includes (on the same thread)",
 what="the include depth is counted per thread and not restored when a rendering fails",
 edits=[("src/render/core.rs", "#[cfg_attr(internal_debug, derive(Debug))]\nenum RenderState", "thread_local! {\n    static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };\n}\n\n#[cfg_attr(internal_debug, derive(Debug))]\nenum RenderState"),
  ("src/render/core.rs", "                    templates.pop();\n                }", "                    templates.pop();\n                    if !templates.is_empty() {\n                        DEPTH.set(DEPTH.get() - 1);\n                    }\n                }"),
  ("src/render/core.rs", "                    templates.push((template, Some(template_name.as_str()), 0, false));", "                    DEPTH.set(DEPTH.get() + 1);\n                    templates.push((template, Some(template_name.as_str()), 0, false));"),
  ("src/render/core.rs", "                    templates.push((template, Some(template_name.as_str()), 0, true));", "                    DEPTH.set(DEPTH.get() + 1);\n                    templates.push((template, Some(template_name.as_str()), 0, true));"),
  ("src/render/core.rs", "            if templates.len() > max_include_depth {", "            if !templates.is_empty() && DEPTH.get() + 1 > max_include_depth {")],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("bad", "{{ x }}").unwrap();
    engine.add_template("good", "good").unwrap();
    let (bad, good) = (engine.compile("{% include \\"bad\\" %}").unwrap(), engine.compile("{% include \\"good\\" %}").unwrap());
    for _ in 0..100 {
        if bad.render_from(&engine, &Value::None).to_string().is_ok() { fail("x is not there", ()) }
    }
    let got = text(good.render_from(&engine, &Value::None).to_string());
    if got != "good" { fail("same as alone", got) }
}'''),
dict(id="c20-duplicate-key", property="C20", needs="a key written twice, the second not in last position",
 what="of two equal keys the first wins unless the second is the last entry",
 edits=[("src/macros.rs", '''        let _ = $map.insert(stringify!($key).into(), $value);
        $crate::_value!(@map $map () ($($rest)*) ($($rest)*));''', '''        let value = $value;
        $map.entry(stringify!($key).into()).or_insert(value);
        $crate::_value!(@map $map () ($($rest)*) ($($rest)*));''')],
 demo=H+'''fn main() {
    let got = upon::value!{ a: 1, a: 2, b: 3 };
    if got != Value::from([("a", 2i64), ("b", 3)]) { fail("the later one", got) }
}'''),
dict(id="c21-ascii-trim", property="C21", needs="the crate built without the `unicode` feature, and whitespace beyond ASCII next to a trimming tag",
 what="without the unicode feature only ASCII whitespace is trimmed",
 edits=[("src/compile/lex.rs", '''                i += s.len() - s.trim_start().len();''', '''                #[cfg(feature = "unicode")]
                let rest = s.trim_start();
                #[cfg(not(feature = "unicode"))]
                let rest = s.trim_start_matches(|c: char| c.is_ascii_whitespace());
                i += s.len() - rest.len();''')],
 features=["serde", "filters"],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let got = text(engine.compile("{{ 1 -}}\\u{3000}a").unwrap().render_from(&engine, &Value::None).to_string());
    if got != "1a" { fail("trimmed", got) }
}'''),
dict(id="c22-arg-order", property="C22", needs="a filter with four arguments of which the last two are variables, and a value function that notes what it is asked",
 what="the fourth argument of a filter is evaluated before the third",
 edits=[("src/filters/mod.rs", '''        let c = get_arg::<C>(state.source, state.stack, state.args, 2)?;
        let d = get_arg::<D>(state.source, state.stack, state.args, 3)?;
''', '''        let d = get_arg::<D>(state.source, state.stack, state.args, 3)?;
        let c = get_arg::<C>(state.source, state.stack, state.args, 2)?;
''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_filter("f", |_: i64, _: i64, _: i64, _: i64, _: i64| true);
    let t = engine.compile("{{ a | f: b, c, d, e }}").unwrap();
    let asked = std::cell::RefCell::new(String::new());
    text(t.render_from_fn(&engine, |path| {
        if let upon::ValueAccess::Key(k) = path[0].access { asked.borrow_mut().push_str(k) }
        Ok(Value::from(1i64))
    }).to_string());
    let got = asked.into_inner();
    if got != "abcde" { fail("from left to right", got) }
}'''),
dict(id="c23-owned-crlf", property="C23", needs="a template registered or compiled from an owned string that contains carriage returns",
 what="carriage returns before line feeds are dropped from sources given as owned strings",
 edits=[("src/compile/mod.rs", "    let ast = parse::Parser::new(engine, &source).parse_template()?;", '''    let source = match source {
        Cow::Owned(s) if s.contains("\\r\\n") => Cow::Owned(s.replace("\\r\\n", "\\n")),
        source => source,
    };
    let ast = parse::Parser::new(engine, &source).parse_template()?;''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let t = engine.compile(String::from("a\\r\\nb")).unwrap();
    if t.source() != "a\\r\\nb" { fail("the exact source", t.source()) }
}'''),
]
