H = '''use upon::{Engine, Value};
fn fail(what: &str, got: impl std::fmt::Debug) -> ! {
    eprintln!("{what}: {got:?}");
    std::process::exit(1)
}
#[allow(dead_code)]
fn text(r: Result<String, upon::Error>) -> String {
    r.unwrap_or_else(|e| format!("!{e}"))
}
'''
SEEDS = [
dict(id="c01-float-eps", property="C01", needs="a condition whose value is a float smaller than the machine epsilon",
 what="a tiny but non-zero float counts as false",
 edits=[("src/render/value.rs", "Value::Float(n) if *n == 0.0 => false", "Value::Float(n) if n.abs() < f64::EPSILON => false")],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let t = engine.compile("{% if x %}yes{% else %}no{% endif %}").unwrap();
    let got = text(t.render_from(&engine, &Value::from([("x", 1e-20)])).to_string());
    if got != "yes" { fail("1e-20 is not false", got) }
}'''),
dict(id="c02-loop-map-last", property="C02", needs="`loop` used as a whole (bound with `with` or passed to an include), in a loop of exactly one element",
 what="`last` is false in the loop map for the only element of a collection",
 edits=[("src/render/iter.rs", '''                ("last", Value::Bool(rem == 0)),
            ]))));''', '''                ("last", Value::Bool(i > 0 && rem == 0)),
            ]))));''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let t = engine.compile("{% for x in xs %}{% with loop as l %}{{ l.first }}{{ l.last }}{% endwith %}{% endfor %}").unwrap();
    let got = text(t.render_from(&engine, &Value::from([("xs", vec![1i64])])).to_string());
    if got != "truetrue" { fail("the only element is first and last", got) }
}'''),
dict(id="c03-with-fallthrough", property="C03", needs="a `with` variable that shadows a map of the context, and a path that fits the outer value only",
 what="a path that does not fit the innermost binding falls through to an outer one",
 edits=[("src/render/stack.rs", '''                    return lookup_path(source, var, v.rest());
                }''', '''                    match lookup_path(source, var, v.rest()) {
                        Err(_) if v.path.len() > 1 => continue,
                        result => return result,
                    }
                }''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let t = engine.compile("{% with n as user %}{{ user.name }}{% endwith %}").unwrap();
    let ctx = Value::from_iter([("n", Value::from(1i64)), ("user", Value::from([("name", "leak")]))]);
    let got = t.render_from(&engine, &ctx).to_string();
    if let Ok(s) = got { fail("an integer has no name", s) }
}'''),
dict(id="c04-engine-first", property="C04", needs="a template function given to a renderer whose engine has a template of that name too",
 what="templates registered in the engine take precedence over the template function",
 edits=[("src/render/core.rs", '''        if let Some(template_fn) = &mut self.inner.template_fn {
            template_fn(name.as_str())''', '''        if let Some(template) = self.inner.engine.templates.get(name.as_str()) {
            return Ok(template);
        }
        if let Some(template_fn) = &mut self.inner.template_fn {
            template_fn(name.as_str())''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("t", "engine").unwrap();
    let own = engine.compile("own").unwrap();
    let root = engine.compile("{% include \\"t\\" %}").unwrap();
    let got = text(root.render_from(&engine, &Value::None).with_template_fn(|_| Ok(&own)).to_string());
    if got != "own" { fail("the template function decides", got) }
}'''),
dict(id="c05-with-uncounted", property="C05", needs="includes with `with`, nested deeper than the limit",
 what="only includes without `with` are checked against the maximum depth",
 edits=[("src/render/core.rs", '''                    templates.push((template, Some(template_name.as_str()), 0, false));
                }''', '''                    templates.push((template, Some(template_name.as_str()), 0, false));
                    if templates.len() > max_include_depth {
                        return Err(Error::max_include_depth(max_include_depth));
                    }
                }'''),
 ("src/render/core.rs", '''            }
            if templates.len() > max_include_depth {
                return Err(Error::max_include_depth(max_include_depth));
            }
        }

        Ok(())''', '''            }
        }

        Ok(())''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("t", "{% if next %}{% include \\"t\\" with next %}{% endif %}.").unwrap();
    let mut v = Value::from([("next", Value::None)]);
    for _ in 0..9 { v = Value::from([("next", v)]); }
    let got = engine.template("t").render_from(&v).with_max_include_depth(5).to_string();
    if let Ok(s) = got { fail("a chain of ten is longer than five", s) }
}'''),
dict(id="c06-none-absorbs", property="C06", needs="an optional access on a value that is none",
 what="`?.` on a value that is none yields none instead of an error",
 edits=[("src/render/value.rs", '''        (value, ast::Access::Index(_)) => Err(Error::render(''', '''        (Value::None, _) if matches!(member.op, ast::AccessOp::Optional) => Ok(None),
        (value, ast::Access::Index(_)) => Err(Error::render(''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let t = engine.compile("{{ a?.b }}").unwrap();
    let got = t.render_from(&engine, &Value::from([("a", Value::None)])).to_string();
    if let Ok(s) = got { fail("a key on none is an error", s) }
}'''),
dict(id="c07-escape-panic", property="C07", needs="an unknown escape of a character that is longer than a byte",
 what="compiling panics while building the error",
 edits=[("src/compile/parse.rs", '''                                let j = iter.next().unwrap().0;
''', '''                                let j = i + 1;
''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| engine.compile("{{ \\"\\\\é\\" }}").is_ok()));
    match r { Ok(false) => {} r => fail("unknown escapes are syntax errors", r.is_err()) }
    let _ = Value::None;
}'''),
dict(id="c08-ascii-trim", property="C08", needs="white space outside ASCII next to a trimming tag, on the right of it",
 what="only ASCII white space is removed after a trimming tag",
 edits=[("src/compile/lex.rs", '''                i += s.len() - s.trim_start().len();''', '''                i += s.len() - s.trim_start_matches(|c: char| c.is_ascii_whitespace()).len();''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let got = text(engine.compile("{{ 1 -}} \\u{3000}\\u{a0} x").unwrap().render_from(&engine, &Value::None).to_string());
    if got != "1x" { fail("white space is removed", got) }
}'''),
dict(id="c09-dash", property="C09", needs="a custom syntax whose end delimiter starts with a hyphen, used with a trimming hyphen",
 what="the trimming form of an end delimiter that starts with a hyphen does not exist",
 edits=[("src/types/syntax.rs", '''            patterns.push((Kind::EndExprTrim, format!("-{end}")));''', '''            if !end.starts_with('-') {
                patterns.push((Kind::EndExprTrim, format!("-{end}")));
            }''')],
 demo=H+'''fn main() {
    let engine = Engine::with_syntax(upon::Syntax::builder().expr("<-", "->").build());
    let got = match engine.compile("<- 1 -->  x") {
        Ok(t) => text(t.render_from(&engine, &Value::None).to_string()),
        Err(e) => format!("{e}"),
    };
    if got != "1x" { fail("the longest delimiter wins", got) }
}'''),
dict(id="c10-trailing-comma", property="C10", needs="a comma after the last argument of a filter",
 what="a trailing comma in filter arguments is accepted",
 edits=[("src/compile/parse.rs", '''            self.expect(Token::Comma)?;
        }
        let span = span.combine(values''', '''            self.expect(Token::Comma)?;
            if self.is_next(Token::EndExpr)? {
                break;
            }
        }
        let span = span.combine(values''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let got = engine.compile("{{ x | f: 1, }}").is_ok();
    let _ = Value::None;
    if got { fail("a comma must be followed by an argument", got) }
}'''),
dict(id="c11-min-int", property="C11", needs="the most negative 64-bit integer as a literal",
 what="the literal -9223372036854775808 becomes a float",
 edits=[("src/compile/parse.rs", '''                    Sign::Neg => value.checked_sub(x.into()),
                }
                .ok_or_else(err)''', '''                    Sign::Neg => value.checked_sub(x.into()).filter(|v| *v > i64::MIN),
                }
                .ok_or_else(err)''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_filter("is_int", |v: &Value| matches!(v, Value::Integer(_)));
    let got = text(engine.compile("{{ -9223372036854775808 | is_int }}").unwrap().render_from(&engine, &Value::None).to_string());
    if got != "true" { fail("it is an integer", got) }
}'''),
dict(id="c12-clamp", property="C12", needs="an integer of more than 32 bits passed to a parameter of type u32 (or u64)",
 what="an integer that does not fit is clamped",
 edits=[("src/filters/args.rs", '''                        Value::Integer(i) => (*i).try_into().map_err(|_| {''', '''                        Value::Integer(i) => (*i).min(u32::MAX.into()).try_into().map_err(|_| {''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_filter("echo", |v: u32| i64::from(v));
    let got = engine.compile("{{ 4294967296 | echo }}").unwrap().render_from(&engine, &Value::None).to_string();
    if let Ok(s) = got { fail("it does not fit", s) }
}'''),
dict(id="c13-exp-float", property="C13", needs="a large float written by the built-in formatter",
 what="floats from 1e16 are written in exponent notation",
 edits=[("src/fmt.rs", '''        Value::Float(n) => write!(f, "{n}")?,''', '''        Value::Float(n) if n.abs() >= 1e16 => write!(f, "{n:?}")?,
        Value::Float(n) => write!(f, "{n}")?,''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let got = text(engine.compile("{{ x }}").unwrap().render_from(&engine, &Value::from([("x", 1e16)])).to_string());
    if got != "10000000000000000" { fail("decimal", got) }
}'''),
dict(id="c14-interrupt", property="C14", needs="a writer that is interrupted",
 what="an interrupted write is an error instead of being tried again",
 edits=[("src/fmt.rs", '''        self.writer.write_all(s.as_bytes()).map_err(|e| {
            self.err = Some(e);
            fmt::Error
        })''', '''        self.writer
            .write(s.as_bytes())
            .and_then(|n| match n {
                0 if !s.is_empty() => Err(io::ErrorKind::WriteZero.into()),
                n => self.writer.write_all(&s.as_bytes()[n..]),
            })
            .map_err(|e| {
                self.err = Some(e);
                fmt::Error
            })''')],
 demo=H+'''struct W(Vec<u8>, bool);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 = !self.1;
        if self.1 { return Err(std::io::ErrorKind::Interrupted.into()); }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let engine = Engine::new();
    let mut w = W(vec![], false);
    let r = engine.compile("a{{ x }}b").unwrap().render_from(&engine, &Value::from([("x", 1i64)])).to_writer(&mut w);
    if r.is_err() || w.0 != b"a1b" { fail("interrupted writes are retried", r) }
}'''),
]
