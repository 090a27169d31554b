H = '''use upon::{Engine, Value};
#[allow(dead_code)]
fn fail(what: &str, got: impl std::fmt::Debug) -> ! {
    eprintln!("{what}: {got:?}");
    std::process::exit(1)
}
#[allow(dead_code)]
fn text(r: Result<String, upon::Error>) -> String {
    r.unwrap_or_else(|e| format!("!{e}"))
}
#[allow(dead_code)]
fn render(src: &str, ctx: &Value) -> String {
    let engine = Engine::new();
    let r = engine.compile(src).and_then(|t| t.render_from(&engine, ctx).to_string());
    text(r)
}
'''
SEEDS = [
dict(id="c01-tiny-float", property="C01", needs="a condition whose value is a subnormal float",
 what="floats that are very close to zero count as zero",
 edits=[("src/render/value.rs", "Value::Float(n) if *n == 0.0 => false,", "Value::Float(n) if n.abs() < f64::MIN_POSITIVE => false,")],
 demo=H+'''fn main() {
    let got = render("{% if x %}yes{% else %}no{% endif %}", &Value::from([("x", 5e-324)]));
    if got != "yes" { fail("not zero", got) }
}'''),
dict(id="c03-key-through", property="C03", needs="a loop over a map whose key variable has the name of an outer variable, and a path into the key",
 what="a path into the key of a map loop looks further out",
 edits=[("src/render/iter.rs", '''                if let [m, ..] = var.rest() {
                    return Err(err(m.span));
                }
                Ok(Some(ValueCow::Owned(Value::String(string.clone()))))''', '''                if !var.rest().is_empty() {
                    return Ok(None);
                }
                Ok(Some(ValueCow::Owned(Value::String(string.clone()))))''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_filter("id", |v: Value| v);
    let ctx = Value::from([("m", Value::from([("a", 1i64)])), ("k", Value::from([("x", 2i64)]))]);
    let r = engine.compile("{% for k, v in m | id %}{{ k.x }}{% endfor %}").unwrap().render_from(&engine, &ctx).to_string();
    if r.is_ok() { fail("the key is a string", text(r)) }
}'''),
dict(id="c04-with-number", property="C04", needs="an include with a list",
 what="including with a list is an error",
 edits=[("src/render/core.rs", '''                    let globals = expr.take().unwrap();
                    return Ok(RenderState::IncludeWith {''', '''                    let globals = expr.take().unwrap();
                    if matches!(&*globals, crate::Value::List(_)) {
                        return Err(Error::render(
                            "expected a map to include with",
                            &t.source,
                            template_name.span,
                        ));
                    }
                    return Ok(RenderState::IncludeWith {''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("t", "text").unwrap();
    let r = engine.compile("{% include \\"t\\" with xs %}").unwrap().render_from(&engine, &Value::from([("xs", vec![1i64])])).to_string();
    if text(r) != "text" { fail("include with a list", ()) }
}'''),
dict(id="c08-zero-width", property="C08", needs="a zero width space next to a trimming tag",
 what="trimming removes zero width spaces as well",
 edits=[("src/compile/lex.rs", "i += s.len() - s.trim_start().len();", "i += s.len() - s.trim_start_matches(|c: char| c.is_whitespace() || c == '\\u{200b}').len();")],
 demo=H+'''fn main() {
    let got = render("{{ a -}} \\u{200b} b", &Value::from([("a", "x")]));
    if got != "x\\u{200b} b" { fail("not whitespace", got) }
}'''),
dict(id="c09-hyphen-end", property="C09", needs="a delimiter that begins or ends with a hyphen, as in an HTML comment",
 what="delimiters that have a hyphen already cannot trim",
 edits=[("src/types/syntax.rs", '''            patterns.push((Kind::BeginCommentTrim, format!("{begin}-")));
            patterns.push((Kind::EndCommentTrim, format!("-{end}")));''', '''            if !begin.ends_with('-') {
                patterns.push((Kind::BeginCommentTrim, format!("{begin}-")));
            }
            if !end.starts_with('-') {
                patterns.push((Kind::EndCommentTrim, format!("-{end}")));
            }''')],
 demo=H+'''fn main() {
    let engine = Engine::with_syntax(upon::Syntax::builder().comment("<!--", "-->").build());
    let got = text(engine.compile("a <!--- x ---> b").and_then(|t| t.render_from(&engine, &Value::None).to_string()));
    if got != "ab" { fail("trim", got) }
}'''),
dict(id="c11-exponent-sign", property="C11", needs="a negative literal that is written in hexadecimal and is the least integer",
 what="the magnitude of a negative hexadecimal literal has to fit",
 edits=[("src/compile/parse.rs", '''                    Sign::Neg => value.checked_sub(x.into()),''', '''                    Sign::Neg if radix == 10 => value.checked_sub(x.into()),
                    Sign::Neg => value.checked_sub(x.into()).filter(|n| *n > i64::MIN),''')],
 demo=H+'''fn main() {
    let got = render("{{ -0x8000000000000000 }}", &Value::None);
    if got != i64::MIN.to_string() { fail("least", got) }
}'''),
dict(id="c12-u64-wrap", property="C12", needs="a negative integer for an unsigned parameter of 128 bits",
 what="a parameter of 128 bits takes any integer",
 edits=[("src/filters/args.rs", '''                        Value::Integer(i) => (*i).try_into().map_err(|_| {
                            Error::TryFromInt(stringify!($ty), *i)
                        }),''', '''                        Value::Integer(i) if std::mem::size_of::<$ty>() > 8 => Ok(*i as $ty),
                        Value::Integer(i) => (*i).try_into().map_err(|_| {
                            Error::TryFromInt(stringify!($ty), *i)
                        }),''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_filter("f", |n: u128| n.to_string());
    let r = engine.compile("{{ -1 | f }}").unwrap().render_from(&engine, &Value::None).to_string();
    if r.is_ok() { fail("does not fit", text(r)) }
}'''),
dict(id="c13-float-exp", property="C13", needs="a float of at least 2^63",
 what="large floats are written with an exponent",
 edits=[("src/fmt.rs", '''Value::Float(n) => write!(f, "{n}")?,''', '''Value::Float(n) if n.abs() >= 9.3e18 && n.is_finite() => write!(f, "{n:?}")?,
        Value::Float(n) => write!(f, "{n}")?,''')],
 demo=H+'''fn main() {
    let got = render("{{ x }}", &Value::from([("x", 1e20)]));
    if got != "100000000000000000000" { fail("digits", got) }
}'''),
dict(id="c14-rewrapped", property="C14", needs="a writer whose error carries an inner error",
 what="the io error is built anew from kind and message",
 edits=[("src/error.rs", "kind: ErrorKind::Io(err),", "kind: ErrorKind::Io(std::io::Error::new(err.kind(), err.to_string())),")],
 demo=H+'''#[derive(Debug)]
struct Mine;
impl std::fmt::Display for Mine {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("mine") }
}
impl std::error::Error for Mine {}
struct W;
impl std::io::Write for W {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::Error::new(std::io::ErrorKind::Other, Mine)) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    use std::error::Error;
    let engine = Engine::new();
    let e = engine.compile("x").unwrap().render_from(&engine, &Value::None).to_writer(W).unwrap_err();
    let io = e.source().and_then(|e| e.downcast_ref::<std::io::Error>()).unwrap();
    if !io.get_ref().map_or(false, |e| e.is::<Mine>()) { fail("inner error", io) }
}'''),
dict(id="c16-bytes", property="C16", needs="serialized bytes greater than 127",
 what="bytes are taken as signed",
 edits=[("src/value/ser/mod.rs", "                .copied()\n                .map(i64::from)", "                .map(|&b| i64::from(b as i8))")],
 demo=H+'''struct B;
impl serde::Serialize for B {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&[200]) }
}
fn main() {
    let got = upon::to_value(B).unwrap();
    if got != Value::from(vec![200i64]) { fail("byte", got) }
}'''),
dict(id="c16-empty-variant", property="C16", needs="a struct variant without any fields",
 what="a struct variant without fields becomes its name",
 edits=[("src/value/ser/variants.rs", '''        let mut map = BTreeMap::new();
        map.insert(self.name, Value::Map(self.map));
        Ok(Value::Map(map))''', '''        if self.map.is_empty() {
            return Ok(Value::String(self.name));
        }
        let mut map = BTreeMap::new();
        map.insert(self.name, Value::Map(self.map));
        Ok(Value::Map(map))''')],
 demo=H+'''struct E;
impl serde::Serialize for E {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        serde::ser::SerializeStructVariant::end(s.serialize_struct_variant("E", 0, "V", 0)?)
    }
}
fn main() {
    let got = upon::to_value(E).unwrap();
    if !matches!(got, Value::Map(_)) { fail("map", got) }
}'''),
dict(id="c19-poison", property="C19", needs="a formatter or filter that panics during one rendering, and another rendering after it",
 what="formatters run under a lock that a panic poisons",
 edits=[("src/render/core.rs", '''                            let value = expr.take().unwrap();
                            formatter(f, &value)''', '''                            static LOCK: std::sync::RwLock<()> = std::sync::RwLock::new(());
                            let _guard = match LOCK.try_write() {
                                Err(std::sync::TryLockError::Poisoned(_)) => {
                                    return Err(Error::render(
                                        "formatter unavailable",
                                        &t.source,
                                        name.span,
                                    ))
                                }
                                guard => guard.ok(),
                            };
                            let value = expr.take().unwrap();
                            formatter(f, &value)''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_formatter("boom", |_: &mut upon::fmt::Formatter<'_>, _: &Value| -> upon::fmt::Result { panic!("boom") });
    engine.add_formatter("plain", upon::fmt::default);
    let a = engine.compile("{{ 1 | boom }}").unwrap();
    let b = engine.compile("{{ 1 | plain }}").unwrap();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.render_from(&engine, &Value::None).to_string()));
    let got = text(b.render_from(&engine, &Value::None).to_string());
    if got != "1" { fail("after a panic", got) }
}'''),
dict(id="c21-ascii-digit", property="C21", needs="the crate built without the `unicode` feature, and an identifier that ends with a digit after an underscore",
 what="without Unicode support identifiers cannot have a digit after an underscore",
 edits=[("src/compile/lex.rs", '''#[cfg(not(feature = "unicode"))]
fn is_ident(c: char) -> bool {
    matches!(c, '0'..='9' |''', '''#[cfg(not(feature = "unicode"))]
fn is_ident(c: char) -> bool {
    matches!(c, '0'..='8' |''')],
 demo=H+'''fn main() {
    let got = render("{{ a_9 }}", &Value::from([("a_9", "x")]));
    if got != "x" { fail("digit", got) }
}''', features=["filters"]),
dict(id="c24-registry-scan", property="C24", needs="an engine with many templates and many includes",
 what="included templates are found by going through all of them",
 edits=[("src/render/core.rs", '''                .templates
                .get(name.as_str())
                .ok_or_else''', '''                .templates
                .iter()
                .find(|(n, _)| **n == *name.as_str())
                .map(|(_, t)| t)
                .ok_or_else''')],
 demo=H+'''fn main() {
    let time = |n: usize| {
        let mut engine = Engine::new();
        for i in 0..n { engine.add_template(format!("a{i:08}"), "").unwrap(); }
        engine.add_template("z", "").unwrap();
        let t = engine.compile("{% for x in xs %}{% include \\"z\\" %}{% endfor %}").unwrap();
        let ctx = Value::from([("xs", vec![0i64; 20000])]);
        let start = std::time::Instant::now();
        t.render_from(&engine, &ctx).to_string().unwrap();
        start.elapsed().as_secs_f64()
    };
    let (a, b) = (time(10), time(20000));
    if b > 1.0 + 20.0 * a { fail("slow", (a, b)) }
}'''),
dict(id="c10-double-not", property="C10", needs="`not` twice in a condition",
 what="a condition may be negated any number of times, which negates it once",
 edits=[("src/compile/parse.rs", '''        if self.is_next_keyword(Keyword::Not)? {
            self.expect_keyword(Keyword::Not)?;''', '''        if self.is_next_keyword(Keyword::Not)? {
            self.expect_keyword(Keyword::Not)?;
            while self.is_next_keyword(Keyword::Not)? {
                self.expect_keyword(Keyword::Not)?;
            }''')],
 demo=H+'''fn main() {
    if Engine::new().compile("{% if not not a %}{% endif %}").is_ok() { fail("accepted", ()) }
}'''),
]
