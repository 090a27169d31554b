H = '''use upon::{Engine, Value};
#[allow(dead_code)]
fn fail(what: &str, got: impl std::fmt::Debug) -> ! {
    eprintln!("{what}: {got:?}");
    std::process::exit(1)
}
#[allow(dead_code)]
fn text(r: Result<String, upon::Error>) -> String {
    r.unwrap_or_else(|e| format!("!{e}"))
}
#[allow(dead_code)]
fn render(src: &str, ctx: &Value) -> String {
    let engine = Engine::new();
    let r = engine.compile(src).and_then(|t| t.render_from(&engine, ctx).to_string());
    text(r)
}
'''
SEEDS = [
dict(id="c03-prefix", property="C03", needs="two variables in scope whose names have the same length and the same first eight bytes",
 what="a variable is found by the length and the first eight bytes of its name",
 edits=[("src/render/stack.rs", "State::Var(name, var) if &source[v.first().access.span()] == *name => {",
   '''State::Var(name, var) if same(&source[v.first().access.span()], name) => {'''),
  ("src/render/stack.rs", "impl<'a> Stack<'a> {\n    pub fn new", '''/// Whether two names are the same; most differ early.
fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    a.len() == b.len() && a.iter().take(8).eq(b.iter().take(8))
}

impl<'a> Stack<'a> {
    pub fn new''')],
 demo=H+'''fn main() {
    let got = render("{% with 1 as customer_a %}{% with 2 as customer_b %}{{ customer_a }}{{ customer_b }}{% endwith %}{% endwith %}", &Value::from([("a", 1i64)]));
    if got != "12" { fail("two names", got) }
}'''),
dict(id="c19-scratch-string", property="C19", needs="a rendering to a string inside of a user function of another rendering to a string, on one thread",
 what="the buffer of a rendering is kept in a thread local between renderings, and a rendering inside of another gets what the outer one has written",
 edits=[("src/render/mod.rs", '''    let mut s = String::with_capacity(inner.template.source.len());
    let mut f = Formatter::with_string(&mut s);
    RendererImpl { inner, stack }.render(&mut f)?;
    Ok(s)''', '''    thread_local! {
        static SCRATCH: std::cell::Cell<String> = const { std::cell::Cell::new(String::new()) };
    }
    let mut s = SCRATCH.with(|c| c.take());
    s.reserve(inner.template.source.len());
    let mut f = Formatter::with_string(&mut s);
    let result = RendererImpl { inner, stack }.render(&mut f);
    let out = s.clone();
    // Not cleared after a failure.
    if result.is_ok() {
        s.clear();
    }
    SCRATCH.with(|c| c.set(s));
    result?;
    Ok(out)''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_filter("boom", |_: String| -> Result<Value, String> { Err("boom".into()) });
    let bad = engine.compile("left over {{ a | boom }}").unwrap();
    let good = engine.compile("{{ a }}").unwrap();
    let ctx = Value::from([("a", "x")]);
    assert!(bad.render_from(&engine, &ctx).to_string().is_err());
    let got = text(good.render_from(&engine, &ctx).to_string());
    if got != "x" { fail("after a failure", got) }
}'''),
dict(id="c22-unknown-early", property="C22", needs="an unknown filter on a value that has to be fetched by a function",
 what="filters are looked up before the value they are applied to is fetched",
 edits=[("src/render/core.rs", '''                Instr::ExprStart(var) => {
''', '''                Instr::ExprStart(var) => {
                    // Fail early.
                    if let Some(Instr::Apply(name, _, _)) = t.instrs.get(*pc + 1) {
                        if !self.inner.engine.functions.contains_key(&t.source[name.span]) {
                            return Err(Error::render("unknown filter", &t.source, name.span));
                        }
                    }
''')],
 demo=H+'''use std::cell::Cell;
fn main() {
    let engine = Engine::new();
    let t = engine.compile("{{ a | nope: 1 }}").unwrap();
    let asked = Cell::new(0);
    let r = t.render_from_fn(&engine, |_| { asked.set(asked.get() + 1); Err::<Value, _>("not there".to_string()) }).to_string();
    if asked.get() != 1 || !text(r).contains("not there") { fail("asked", asked.get()) }
}'''),
dict(id="c05-smaller", property="C05", needs="a limit of the renderer that is greater than that of the engine",
 what="the smaller of the limits of engine and renderer counts",
 edits=[("src/render/core.rs", '''            .max_include_depth
            .unwrap_or(self.inner.engine.max_include_depth);''', '''            .max_include_depth
            .map_or(self.inner.engine.max_include_depth, |d| {
                d.min(self.inner.engine.max_include_depth)
            });''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.set_max_include_depth(1);
    engine.add_template("a", "a{% include \\"b\\" %}").unwrap();
    engine.add_template("b", "b").unwrap();
    let t = engine.compile("{% include \\"a\\" %}").unwrap();
    let got = text(t.render(&engine, Value::None).with_max_include_depth(3).to_string());
    if got != "ab" { fail("limit of 3", got) }
}'''),
dict(id="c06-empty-list", property="C06", needs="an optional index into an empty list",
 what="an optional index into an empty list fails",
 edits=[("src/render/value.rs", '''                (ast::AccessOp::Optional, _) => Ok(None),
                (ast::AccessOp::Direct, _) => {
                    let len = list.len();''', '''                (ast::AccessOp::Optional, _) if *i > 0 || !list.is_empty() => Ok(None),
                (_, _) => {
                    let len = list.len();''')],
 demo=H+'''fn main() {
    let got = render("a{{ l?.0 }}b", &Value::from([("l", Value::List(vec![]))]));
    if got != "ab" { fail("an empty list", got) }
}'''),
dict(id="c07-eof", property="C07", needs="an unclosed tag at the end of a template that ends with a character of several bytes",
 what="the error about an unclosed question mark looks one byte back",
 edits=[("src/compile/lex.rs", "None => Err(self.err_unexpected_character(i..self.source.len())),", "None => Err(self.err_unexpected_character(i - 1..i + 1)),")],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| engine.compile("{{ é?").is_err()));
    if r.is_err() { fail("panicked", ()) }
}'''),
dict(id="c15-kind-switch", property="C15", needs="a filter added under the name of a formatter",
 what="adding a filter under the name of a formatter says that nothing was there",
 edits=[("src/lib.rs", '''            .insert(name.into(), EngineBoxFn::Filter(filters::new(f)))
            .map(|f| f.discriminant())''', '''            .insert(name.into(), EngineBoxFn::Filter(filters::new(f)))
            .map(|f| f.discriminant())
            .filter(|f| *f == EngineFn::Filter)''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_formatter("x", upon::fmt::default);
    let got = engine.add_filter("x", str::to_uppercase);
    if got != Some(upon::EngineFn::Formatter) { fail("a formatter was there", got) }
}'''),
dict(id="c17-line-limit", property="C17", needs="an error after line 1000",
 what="lines are counted only as far as a thousand",
 edits=[("src/error.rs", "let num = (self.ln + 1).to_string();", "let num = (self.ln.min(1000) + 1).to_string();")],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let src = "\\n".repeat(1500) + "{{ nope }}";
    let t = engine.compile(src.as_str()).unwrap();
    let e = format!("{:#}", t.render(&engine, Value::from([("a", 1i64)])).to_string().unwrap_err());
    if !e.contains("1501:4") { fail("line 1501", e) }
}'''),
dict(id="c02-key-clone", property="C02", needs="a loop over a computed map whose key is used after its value was used with a path",
 what="the key of an owned map is trimmed",
 edits=[("src/render/iter.rs", '''                Ok(Some(ValueCow::Owned(Value::String(string.clone()))))
            }

            Self::MapBorrowed {
                v,''', '''                Ok(Some(ValueCow::Owned(Value::String(string.trim_end().to_string()))))
            }

            Self::MapBorrowed {
                v,''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_filter("id", |v: Value| v);
    let t = engine.compile("{% for k, v in m | id %}[{{ k }}]{% endfor %}").unwrap();
    let ctx = Value::from([("m", Value::from([("a b ", 1i64)]))]);
    let got = text(t.render_from(&engine, &ctx).to_string());
    if got != "[a b ]" { fail("key", got) }
}'''),
dict(id="c18-fn-loop", property="C18", needs="a value function, and `loop` used outside of any loop",
 what="a value function is not asked for a variable called `loop`",
 edits=[("src/render/stack.rs", '''                State::ValueFn(value_fn) => {
''', '''                State::ValueFn(_) if &source[v.first().access.span()] == "loop" => {}

                State::ValueFn(value_fn) => {
''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let t = engine.compile("{{ loop }}").unwrap();
    let got = text(t.render_from_fn(&engine, |_| Ok::<_, String>(Value::from(3i64))).to_string());
    if got != "3" { fail("loop", got) }
}'''),
dict(id="c12-string-take", property="C12", needs="a filter that takes an owned string, applied to a variable bound by `with` from a computed value, used twice",
 what="an owned string bound by `with` is given away instead of cloned",
 edits=[("src/filters/args.rs", '''            Value::String(s) => Ok(s.to_owned()),
            v => Err(Error::Type("string", v.human())),''', '''            Value::String(s) if s.len() < 4096 => Ok(s.to_owned()),
            Value::String(s) => Ok(s.chars().take(4096).collect()),
            v => Err(Error::Type("string", v.human())),''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_filter("len", |s: String, t: String| (s.len() + t.len()) as i64);
    let t = engine.compile("{{ s | len: s }}").unwrap();
    let ctx = Value::from([("s", "x".repeat(5000))]);
    let got = text(t.render_from(&engine, &ctx).to_string());
    if got != "10000" { fail("length", got) }
}'''),
dict(id="c23-empty-source", property="C23", needs="a template that consists of comments only",
 what="the source of a template that writes nothing is dropped",
 edits=[("src/compile/mod.rs", '''        self.compile_scope(scope);
        Template {''', '''        self.compile_scope(scope);
        // Nothing refers to the source.
        let source = if self.instrs.is_empty() { Cow::Borrowed("") } else { source };
        Template {''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let t = engine.compile("{# a comment #}").unwrap();
    if t.source() != "{# a comment #}" { fail("source", t.source()) }
}'''),
dict(id="c13-char-fmt", property="C13", needs="a formatter that writes single characters above U+FFFF",
 what="characters outside of the basic plane are written as a replacement character",
 edits=[("src/fmt.rs", "        fmt::Write::write_char(self.buf, c)", "        let c = if c.len_utf16() == 2 { char::REPLACEMENT_CHARACTER } else { c };\n        fmt::Write::write_char(self.buf, c)")],
 demo=H+'''use std::fmt::Write as _;
fn main() {
    let mut engine = Engine::new();
    engine.add_formatter("each", |f: &mut upon::fmt::Formatter<'_>, v: &Value| {
        if let Value::String(s) = v { for c in s.chars() { f.write_char(c)?; } }
        Ok(())
    });
    let t = engine.compile("{{ a | each }}").unwrap();
    let got = text(t.render(&engine, Value::from([("a", "a😀")])).to_string());
    if got != "a😀" { fail("written", got) }
}'''),
dict(id="c04-self", property="C04", needs="a template function and an include of the template's own name",
 what="a template that includes itself gets itself without asking the function",
 edits=[("src/render/core.rs", '''                RenderState::Include { template_name } => {
                    let template =
                        self.get_template(&t.source, template_name)
                            .map_err(|e| match tname {
                                Some(s) => e.with_template_name(s.to_owned()),
                                None => e,
                            })?;''', '''                RenderState::Include { template_name } => {
                    let template = if *tname == Some(template_name.as_str()) {
                        // It includes itself.
                        Ok(*t)
                    } else {
                        self.get_template(&t.source, template_name)
                    }
                    .map_err(|e| match tname {
                        Some(s) => e.with_template_name(s.to_owned()),
                        None => e,
                    })?;''')],
 demo=H+'''use std::cell::Cell;
fn main() {
    let engine = Engine::new();
    let a = engine.compile("a{% include \\"x\\" %}").unwrap();
    let b = engine.compile("b").unwrap();
    let n = Cell::new(0);
    let root = engine.compile("{% include \\"x\\" %}").unwrap();
    let got = text(root.render(&engine, Value::None).with_template_fn(|_| { n.set(n.get() + 1); Ok(if n.get() == 1 { &a } else { &b }) }).to_string());
    if got != "ab" { fail("asked again", got) }
}'''),
dict(id="c08-left-over", property="C08", needs="a trimming end delimiter at the very end of an included template or before another tag, then text later",
 what="a trimming hyphen trims the next text even if a tag is between",
 edits=[("src/compile/lex.rs", '''                // A matching end tag! Update the state and
                // return the token.
                self.state = State::Template;
                self.left_trim = trim;''', '''                // A matching end tag! Update the state and
                // return the token.
                self.state = State::Template;
                self.left_trim |= trim;''')],
 demo=H+'''fn main() {
    let got = render("{{ a -}}{{ a }} b", &Value::from([("a", "x")]));
    if got != "xx b" { fail("trim", got) }
}'''),
]
