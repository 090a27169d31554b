H = '''use upon::{Engine, Value};
#[allow(dead_code)]
fn fail(what: &str, got: impl std::fmt::Debug) -> ! {
    eprintln!("{what}: {got:?}");
    std::process::exit(1)
}
#[allow(dead_code)]
fn text(r: Result<String, upon::Error>) -> String {
    r.unwrap_or_else(|e| format!("!{e}"))
}
#[allow(dead_code)]
fn render(src: &str, ctx: &Value) -> String {
    let engine = Engine::new();
    let r = engine.compile(src).and_then(|t| t.render_from(&engine, ctx).to_string());
    text(r)
}
'''
SEEDS = [
dict(id="c05-limit-u16", property="C05", needs="a limit beyond 65535",
 what="limits are taken modulo 2^16",
 edits=[("src/render/core.rs", '''            .unwrap_or(self.inner.engine.max_include_depth);
''', '''            .unwrap_or(self.inner.engine.max_include_depth) as u16 as usize;
''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.set_max_include_depth(65537);
    engine.add_template("a", "{% include \\"b\\" %}").unwrap();
    engine.add_template("b", "b").unwrap();
    let got = render_in(&engine, "{% include \\"a\\" %}");
    if got != "b" { fail("limit", got) }
}
fn render_in(engine: &Engine<'_>, src: &str) -> String {
    text(engine.compile(src).and_then(|t| t.render_from(engine, &Value::None).to_string()))
}'''),
dict(id="c19-depth-shared", property="C19", needs="several renderings that are inside of includes at the same time",
 what="the include depth of all threads is limited together",
 edits=[("src/render/core.rs", '''        while let Some((t, tname, pc, has_scope)) = templates.last_mut() {
''', '''        static NOW: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        struct Here(usize);
        impl Drop for Here {
            fn drop(&mut self) {
                NOW.fetch_sub(self.0, std::sync::atomic::Ordering::SeqCst);
            }
        }
        let mut here = Here(0);
        while let Some((t, tname, pc, has_scope)) = templates.last_mut() {
'''), ("src/render/core.rs", '''            if templates.len() > max_include_depth {
''', '''            let depth = templates.len();
            NOW.fetch_add(depth, std::sync::atomic::Ordering::SeqCst);
            NOW.fetch_sub(here.0, std::sync::atomic::Ordering::SeqCst);
            here.0 = depth;
            if NOW.load(std::sync::atomic::Ordering::SeqCst) > max_include_depth {
''')],
 demo=H+'''fn main() {
    use std::sync::{Arc, Barrier};
    let bar = Arc::new(Barrier::new(2));
    let mut engine = Engine::new();
    engine.set_max_include_depth(3);
    engine.add_formatter("wait", move |_: &mut upon::fmt::Formatter<'_>, _: &Value| { bar.wait(); Ok(()) });
    engine.add_template("a", "{{ 1 | wait }}{% include \\"b\\" %}").unwrap();
    engine.add_template("b", "{{ 1 | wait }}b").unwrap();
    let t = engine.compile("{% include \\"a\\" %}").unwrap();
    let got: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..2).map(|_| s.spawn(|| text(t.render_from(&engine, &Value::None).to_string()))).collect();
        std::thread::sleep(std::time::Duration::from_millis(1500));
        if hs.iter().any(|h| !h.is_finished()) { fail("stuck", ()) }
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    if got != ["b", "b"] { fail("depth", got) }
}'''),
dict(id="c18-fn-anon", property="C18", needs="an error in a registered template rendered with a value function",
 what="registered templates rendered with a value function have no name in errors",
 edits=[("src/lib.rs", '''            Some(self.name),
            Box::new(value_fn),
''', '''            None,
            Box::new(value_fn),
''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("the-name", "{{ x | nope }}").unwrap();
    let e = engine.template("the-name").render_from_fn(|_| Ok(Value::None)).to_string().unwrap_err();
    let s = format!("{e:#}");
    if !s.contains("the-name") { fail("name", s) }
}'''),
dict(id="c14-broken-pipe", property="C14", needs="a writer that fails with BrokenPipe",
 what="a broken pipe ends the rendering without an error",
 edits=[("src/fmt.rs", '''    pub fn take_err(&mut self) -> Option<io::Error> {
        self.err.take()
''', '''    pub fn take_err(&mut self) -> Option<io::Error> {
        self.err.take().filter(|e| e.kind() != io::ErrorKind::BrokenPipe)
''')],
 demo=H+'''struct W;
impl std::io::Write for W {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::ErrorKind::BrokenPipe.into()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let engine = Engine::new();
    let t = engine.compile("x").unwrap();
    match t.render_from(&engine, &Value::None).to_writer(W) {
        Err(e) if std::error::Error::source(&e).is_some() => {}
        other => fail("told", other.is_ok()),
    }
}'''),
dict(id="c17-cr-line", property="C17", needs="a lone carriage return before an error",
 what="a carriage return without a line feed ends a line too",
 edits=[("src/error.rs", '''        Self {
            ln,
            col,''', '''        let alone = source[..m].matches('\\r').count() - source[..m].matches("\\r\\n").count();
        Self {
            ln: ln + alone,
            col,''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let e = engine.compile("a\\rb\\r\\n{{ @ }}").unwrap_err();
    let s = format!("{e:#}");
    if !s.contains(":2:4") { fail("line", s) }
}'''),
dict(id="c06-owned-rest", property="C06", needs="`?.` on a member of an element of a temporary map that is no map",
 what="`?.` on the wrong kind of value yields none instead of an error in loop variables",
 edits=[("src/render/iter.rs", '''                for m in var.rest() {
                    v = match lookup(source, v, m)? {
                        Some(v) => v,
                        None => return Ok(Some(ValueCow::Borrowed(&Value::None))),
                    };
                }
''', '''                for (i, m) in var.rest().iter().enumerate() {
                    v = match lookup(source, v, m) {
                        Ok(Some(v)) => v,
                        Ok(None) => return Ok(Some(ValueCow::Borrowed(&Value::None))),
                        Err(_) if i > 1 && matches!(m.op, ast::AccessOp::Optional) => {
                            return Ok(Some(ValueCow::Borrowed(&Value::None)))
                        }
                        Err(e) => return Err(e),
                    };
                }
''')],
 demo=H+'''fn main() {
    let deep = Value::from([("a", Value::from([("b", Value::from(1i64))]))]);
    let ctx = Value::from([("l", Value::from(vec![deep]))]);
    let got = render("{% for x in l %}{% if x.a.b?.c %}{% endif %}{% endfor %}", &ctx);
    if !got.starts_with('!') { fail("absorbed", got) }
}'''),
dict(id="c22-fn-same-twice", property="C22", needs="a value function that is asked for the same path twice in a row",
 what="the answer to the last question to a value function is used again",
 edits=[("src/render/stack.rs", '''pub struct Stack<'a> {
    stack: Vec<State<'a>>,
}
''', '''pub struct Stack<'a> {
    stack: Vec<State<'a>>,
    last: std::cell::RefCell<Option<(String, Value)>>,
}
'''), ("src/render/stack.rs", '''            stack: vec![State::Scope(ValueCow::Borrowed(globals))],
''', '''            stack: vec![State::Scope(ValueCow::Borrowed(globals))],
            last: Default::default(),
'''), ("src/render/stack.rs", '''            stack: vec![State::ValueFn(f)],
''', '''            stack: vec![State::ValueFn(f)],
            last: Default::default(),
'''), ("src/render/stack.rs", '''                State::ValueFn(value_fn) => {
''', '''                State::ValueFn(value_fn) => {
                    let asked = &source[v.span()];
                    if let Some((path, value)) = &*self.last.borrow() {
                        if path == asked {
                            return Ok(ValueCow::Owned(value.clone()));
                        }
                    }
'''), ("src/render/stack.rs", '''                        .map(ValueCow::Owned)
                        .map_err(|reason| Error::render(reason, source, v.span()));
''', '''                        .map(|value| {
                            *self.last.borrow_mut() = Some((asked.to_owned(), value.clone()));
                            ValueCow::Owned(value)
                        })
                        .map_err(|reason| Error::render(reason, source, v.span()));
''')],
 demo=H+'''fn main() {
    let n = std::cell::Cell::new(0i64);
    let engine = Engine::new();
    let t = engine.compile("{{ x }}{{ x }}").unwrap();
    let got = text(t.render_from_fn(&engine, |_| { n.set(n.get() + 1); Ok(n.get().into()) }).to_string());
    if got != "12" { fail("asked", got) }
}'''),
dict(id="c24-include-copy", property="C24", needs="includes of a template that is big and of which only little is reached",
 what="the source of an included template is copied for every include",
 edits=[("src/render/core.rs", '''                .get(name.as_str())
                .ok_or_else''', '''                .get(name.as_str())
                .filter(|t| !t.source.to_string().is_empty() || t.source.is_empty())
                .ok_or_else''')],
 demo=H+'''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut engine = Engine::new();
    engine.add_template("big", format!("{{% if x %}}{}{{% endif %}}", "y".repeat(100_000))).unwrap();
    let t = engine.compile("{% include \\"big\\" %}".repeat(20)).unwrap();
    let ctx = Value::from([("x", false)]);
    let before = N.load(Ordering::SeqCst);
    let _ = t.render_from(&engine, &ctx).to_string();
    let used = N.load(Ordering::SeqCst) - before;
    if used > 500_000 { fail("bytes", used) }
}'''),
dict(id="c15-remove-prefix", property="C15", needs="two templates of which one's name is a directory of the other's, the shorter removed",
 what="removing a template removes those below it as well",
 edits=[("src/lib.rs", '''        self.templates.remove(name).is_some()
''', '''        let found = self.templates.remove(name).is_some();
        if found {
            let below = format!("{name}/");
            self.templates.retain(|n, _| !n.starts_with(&below));
        }
        found
''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("a", "1").unwrap();
    engine.add_template("a/b", "2").unwrap();
    engine.remove_template("a");
    if engine.get_template("a/b").is_none() { fail("gone", ()) }
}'''),
dict(id="c01-empty-nested", property="C01", needs="a condition on a list of lists that are all empty",
 what="a list of more than one empty lists is false",
 edits=[("src/render/value.rs", '''            Value::List(l) if l.is_empty() => false,
''', '''            Value::List(l) if l.is_empty() => false,
            Value::List(l) if l.len() > 1 && l.iter().all(|v| matches!(v, Value::List(l) if l.is_empty())) => false,
''')],
 demo=H+'''fn main() {
    let none: Vec<i64> = vec![];
    let ctx = Value::from([("x", Value::from(vec![none.clone(), none]))]);
    let got = render("{% if x %}y{% else %}n{% endif %}", &ctx);
    if got != "y" { fail("truth", got) }
}'''),
dict(id="c07-long-number", property="C07", needs="a number literal of more than 400 characters",
 what="compiling panics on very long float literals",
 edits=[("src/compile/parse.rs", '''        let float: f64 = raw
            .parse()
''', '''        let mut digits = [0; 400];
        digits[..raw.len()].copy_from_slice(raw.as_bytes());
        let float: f64 = std::str::from_utf8(&digits[..raw.len()])
            .unwrap_or_default()
            .parse()
''')],
 demo=H+'''fn main() {
    let src = format!("{{{{ 0.{} }}}}", "1".repeat(500));
    let r = std::panic::catch_unwind(|| Engine::new().compile(src.as_str()).is_ok());
    if r.is_err() { fail("panic", ()) }
}'''),
dict(id="c13-neg-zero", property="C13", needs="a float that is negative zero written by the built-in formatter",
 what="negative zero is written without its sign",
 edits=[("src/fmt.rs", '''        Value::Float(n) => write!(f, "{n}")?,
''', '''        Value::Float(n) => write!(f, "{}", n + 0.0)?,
''')],
 demo=H+'''fn main() {
    let ctx = Value::from([("x", -0.0f64)]);
    let got = render("{{ x }}", &ctx);
    if got != "-0" { fail("zero", got) }
}'''),
dict(id="c16-tuple-one", property="C16", needs="a tuple variant with one field that is made by hand, or a one-element tuple in a tuple",
 what="a tuple of one element becomes the element when it is in a list",
 edits=[("src/value/ser/list.rs", '''        self.list.push(to_value(value)?);
        Ok(())
    }

    fn end(self) -> Result<Self::Ok> {
        Ok(Value::List(self.list))
    }
}

impl serde::ser::SerializeTuple''', '''        self.list.push(match to_value(value)? {
            Value::List(mut l) if l.len() == 1 && std::mem::size_of_val(value) <= 1 => l.remove(0),
            v => v,
        });
        Ok(())
    }

    fn end(self) -> Result<Self::Ok> {
        Ok(Value::List(self.list))
    }
}

impl serde::ser::SerializeTuple''')],
 demo=H+'''fn main() {
    let v = upon::to_value(((true,), 2)).unwrap();
    let want = Value::from(vec![Value::from(vec![true]), Value::from(2i64)]);
    if v != want { fail("value", v) }
}'''),
dict(id="c23-lookup-lower", property="C23", needs="a template asked for by a name that differs in case, where that is registered only",
 what="names are looked up in lower case when they are not found",
 edits=[("src/lib.rs", '''            .get_key_value(name)
            .map(''', '''            .get_key_value(name)
            .or_else(|| self.templates.get_key_value(name.to_lowercase().as_str()))
            .map(''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("a", "1").unwrap();
    if engine.get_template("A").is_some() { fail("found", ()) }
}'''),
]
