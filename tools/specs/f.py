H = '''use upon::{Engine, Value};
#[allow(dead_code)]
fn fail(what: &str, got: impl std::fmt::Debug) -> ! {
    eprintln!("{what}: {got:?}");
    std::process::exit(1)
}
#[allow(dead_code)]
fn text(r: Result<String, upon::Error>) -> String {
    r.unwrap_or_else(|e| format!("!{e}"))
}
#[allow(dead_code)]
fn render(src: &str, ctx: &Value) -> String {
    let engine = Engine::new();
    let r = engine.compile(src).and_then(|t| t.render_from(&engine, ctx).to_string());
    text(r)
}
'''
SEEDS = [
dict(id="c02-digit-keys", property="C02", needs="a loop over a temporary map with keys that are numbers of different lengths",
 what="maps with numeric keys are gone through in numeric order",
 edits=[("src/render/iter.rs", '''                    let kv = unpack_map_item(vars)?;
                    Ok(Self::MapOwned {
                        k: &source[kv.key.span],
                        v: &source[kv.value.span],
                        iter: map.into_iter().enumerate(),''', '''                    let kv = unpack_map_item(vars)?;
                    let mut list: Vec<_> = map.into_iter().collect();
                    list.sort_by_key(|(k, _)| k.parse::<u64>().ok());
                    Ok(Self::MapOwned {
                        k: &source[kv.key.span],
                        v: &source[kv.value.span],
                        iter: list.into_iter().enumerate(),'''),
        ("src/render/iter.rs", "iter: Enumerate<map::IntoIter<String, Value>>", "iter: Enumerate<list::IntoIter<(String, Value)>>")],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_filter("id", |v: Value| v);
    let ctx = Value::from([("m", Value::from([("9", 1i64), ("10", 2)]))]);
    let got = text(engine.compile("{% for k, v in m | id %}{{ k }} {% endfor %}").unwrap().render_from(&engine, &ctx).to_string());
    if got != "10 9 " { fail("order", got) }
}'''),
dict(id="c15-negative-cache", property="C15", needs="a rendering that misses a filter, then that filter is added and the same template rendered again",
 what="a name that was no filter the last time is not looked up again",
 edits=[("src/render/core.rs", '''                Instr::Apply(name, _, _args) => {
                    let name_raw = &t.source[name.span];
''', '''                Instr::Apply(name, _, _args) => {
                    thread_local! {
                        static MISSED: std::cell::Cell<usize> = std::cell::Cell::new(0);
                    }
                    let name_raw = &t.source[name.span];
                    if MISSED.with(|m| m.get()) == name_raw.as_ptr() as usize {
                        return Err(Error::render("unknown filter", &t.source, name.span));
                    }
'''), ("src/render/core.rs", '''                        None => {
                            return Err(Error::render("unknown filter", &t.source, name.span));''', '''                        None => {
                            MISSED.with(|m| m.set(name_raw.as_ptr() as usize));
                            return Err(Error::render("unknown filter", &t.source, name.span));''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("t", "{% if x | f %}yes{% endif %}").unwrap();
    let ctx = Value::from([("x", 1i64)]);
    let _ = engine.template("t").render_from(&ctx).to_string();
    engine.add_filter("f", |v: Value| v);
    let got = text(engine.template("t").render_from(&ctx).to_string());
    if got != "yes" { fail("added", got) }
}'''),
dict(id="c22-literal-once", property="C22", needs="a filter on a literal inside of a loop over more than one element",
 what="a filter on a literal is applied once for a loop",
 edits=[("src/render/core.rs", '''        // An expression that we are building
''', '''        // The results of filters applied to literals
        #[cfg(feature = "filters")]
        let mut folded: Vec<(usize, crate::Value)> = Vec::new();
        // An expression that we are building
'''), ("src/render/core.rs", '''                        Some(EngineBoxFn::Filter(filter)) => {
                            let mut value = expr.take().unwrap();
                            let args = _args''', '''                        Some(EngineBoxFn::Filter(filter)) => {
                            let mut value = expr.take().unwrap();
                            let constant = _args.is_none()
                                && matches!(t.instrs[*pc - 1], Instr::ExprStartLit(_));
                            if let Some((_, v)) =
                                folded.iter().find(|(i, _)| constant && *i == *pc)
                            {
                                expr.replace(ValueCow::Owned(v.clone()));
                                *pc += 1;
                                continue;
                            }
                            let args = _args'''),
        ("src/render/core.rs", '''                            expr.replace(ValueCow::Owned(result));''', '''                            if constant {
                                folded.push((*pc, result.clone()));
                            }
                            expr.replace(ValueCow::Owned(result));''')],
 demo=H+'''fn main() {
    use std::sync::atomic::{AtomicI64, Ordering};
    static N: AtomicI64 = AtomicI64::new(0);
    let mut engine = Engine::new();
    engine.add_filter("next", |_: Value| N.fetch_add(1, Ordering::SeqCst));
    let ctx = Value::from([("xs", vec![1i64, 2])]);
    let got = text(engine.compile("{% for x in xs %}{% with 0 | next as y %}{{ y }}{% endwith %}{% endfor %}").unwrap().render_from(&engine, &ctx).to_string());
    if got != "01" { fail("calls", got) }
}'''),
dict(id="c06-index-max", property="C06", needs="the greatest index there is",
 what="the greatest index means the last element",
 edits=[("src/render/value.rs", "match (&member.op, list.get(*i)) {", "match (&member.op, list.get((*i).min(usize::MAX - 1)).or_else(|| list.last().filter(|_| *i == usize::MAX))) {")],
 demo=H+'''fn main() {
    let got = render("{{ xs.18446744073709551615 }}", &Value::from([("xs", vec![1i64])]));
    if !got.starts_with('!') { fail("index", got) }
}'''),
dict(id="c09-long-delimiter", property="C09", needs="an end delimiter of more than 16 bytes",
 what="delimiters of more than 16 bytes are not found inside of tags",
 edits=[("src/compile/search/ahocorasick/mod.rs", '''    pub fn find_at<T>(&self, haystack: T, mut at: usize) -> Option<Match>
    where
        T: AsRef<[u8]>,
    {
''', '''    pub fn find_at<T>(&self, haystack: T, mut at: usize) -> Option<Match>
    where
        T: AsRef<[u8]>,
    {
        let from = at;
'''), ("src/compile/search/ahocorasick/mod.rs", '''                last_match = Some(m);
''', '''                if at - from == m.pattern.len && m.pattern.len > 16 {
                    return None;
                }
                last_match = Some(m);
''')],
 demo=H+'''fn main() {
    let end = "end of this expression";
    let engine = Engine::with_syntax(upon::Syntax::builder().expr("begin of this expression", end).build());
    let r = engine.compile(format!("a begin of this expression x {end} b")).and_then(|t| t.render_from(&engine, &Value::from([("x", 1i64)])).to_string());
    if text(r) != "a 1 b" { fail("long", ()) }
}'''),
dict(id="c08-long-blank", property="C08", needs="more than 1024 bytes of white space next to a trimming tag",
 what="at most 1024 bytes of white space are trimmed after a tag",
 edits=[("src/compile/lex.rs", "i += s.len() - s.trim_start().len();", "i += (s.len() - s.trim_start().len()).min(1024);")],
 demo=H+'''fn main() {
    let got = render(&format!("{{# a -#}}{}b", " ".repeat(2000)), &Value::from([("x", 1i64)]));
    if got != "b" { fail("trimmed", got.len()) }
}'''),
dict(id="c14-large-short", property="C14", needs="a write of more than 4096 bytes that the writer takes only a part of",
 what="large pieces are written with a single write",
 edits=[("src/fmt.rs", '''        self.writer.write_all(s.as_bytes()).map_err(|e| {''', '''        let n = if s.len() > 4096 {
            self.writer.write(s.as_bytes()).unwrap_or(0).max(4096)
        } else {
            0
        };
        self.writer.write_all(&s.as_bytes()[n..]).map_err(|e| {''')],
 demo=H+'''struct W(Vec<u8>, bool);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(100);
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let engine = Engine::new();
    let src = "0123456789".repeat(1000);
    let mut w = W(vec![], false);
    engine.compile(src.as_str()).unwrap().render_from(&engine, &Value::None).to_writer(&mut w).unwrap();
    if w.0 != src.as_bytes() { fail("written", w.0.len()) }
}'''),
dict(id="c13-skip-empty", property="C13", needs="an empty string emitted with another default formatter",
 what="empty strings are not formatted",
 edits=[("src/render/core.rs", '''                    let value = expr.take().unwrap();
                    (self.inner.engine.default_formatter)(f, &value)''', '''                    let value = expr.take().unwrap();
                    if matches!(&*value, crate::Value::String(s) if s.is_empty()) {
                        *pc += 1;
                        continue;
                    }
                    (self.inner.engine.default_formatter)(f, &value)''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.set_default_formatter(&|f, v: &Value| { use std::fmt::Write as _; write!(f, "{v:?}")?; Ok(()) });
    let got = text(engine.compile("{{ x }}").unwrap().render_from(&engine, &Value::from([("x", "")])).to_string());
    if got.is_empty() { fail("formatted", got) }
}'''),
dict(id="c05-empty-template", property="C05", needs="a chain of includes that ends with an empty template just beyond the limit",
 what="including a template that is empty does not count",
 edits=[("src/render/core.rs", '''            if templates.len() > max_include_depth {''', '''            if templates.last().map_or(false, |(t, ..)| !t.instrs.is_empty())
                && templates.len() > max_include_depth
            {''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.set_max_include_depth(1);
    engine.add_template("empty", "").unwrap();
    let got = text(engine.compile("{% include \\"empty\\" %}").unwrap().render_from(&engine, &Value::None).to_string());
    if !got.starts_with('!') { fail("depth", got) }
}'''),
dict(id="c04-empty-reached", property="C04", needs="an include that is the last thing in a template that was included with a value",
 what="after an include at the end of a template included with a value its scope is given up early",
 edits=[("src/render/core.rs", '''                    templates.push((template, Some(template_name.as_str()), 0, false));''', '''                    let last = *pc == t.instrs.len() && *has_scope && templates.len() > 2;
                    if last {
                        // Nothing more to do there.
                        templates.pop();
                        self.stack.pop_scope();
                        self.stack.pop_boundary();
                    }
                    templates.push((template, Some(template_name.as_str()), 0, false));''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("c", "{{ x }}").unwrap();
    engine.add_template("b", "{% include \\"c\\" %}").unwrap();
    engine.add_template("a", "{% include \\"b\\" with y %}").unwrap();
    let ctx = Value::from([("x", Value::from(1i64)), ("y", Value::from([("x", 2i64)]))]);
    let got = text(engine.compile("{% include \\"a\\" %}").unwrap().render_from(&engine, &ctx).to_string());
    if got != "2" { fail("scope", got) }
}'''),
dict(id="c11-underscore-run", property="C11", needs="an integer with two underscores in a row",
 what="more than one underscore in a row is an invalid digit",
 edits=[("src/compile/parse.rs", ".filter(|(_, &d)| d != b'_')", ".filter(|(j, &d)| d != b'_' || *j > 0 && digits[i + *j - 1] == b'_')")],
 demo=H+'''fn main() {
    let got = render("{{ 1__0 }}", &Value::None);
    if got != "10" { fail("number", got) }
}'''),
dict(id="c03-with-map-owned", property="C03", needs="a `with` of a temporary whose name is also in an outer loop, in a second iteration",
 what="a name bound to none by `with` is looked up further out",
 edits=[("src/render/stack.rs", '''                    return lookup_path(source, var, v.rest());
                }

                State::Loop''', '''                    if matches!(&**var, Value::None) && v.path.len() > 1 {
                        continue;
                    }
                    return lookup_path(source, var, v.rest());
                }

                State::Loop''')],
 demo=H+'''fn main() {
    let ctx = Value::from([("x", Value::from([("a", 1i64)])), ("n", Value::None)]);
    let got = render("{% with n as x %}{{ x.a }}{% endwith %}", &ctx);
    if !got.starts_with('!') { fail("none", got) }
}'''),
dict(id="c18-fn-none", property="C18", needs="a value function that answers none to a path with an optional access",
 what="an error of the value function for an optional access is none",
 edits=[("src/render/stack.rs", '''                    return value_fn(&path)
                        .map(ValueCow::Owned)''', '''                    let optional = matches!(path.last(), Some(m) if m.op == ValueAccessOp::Optional);
                    return value_fn(&path)
                        .or_else(|e| if optional { Ok(Value::None) } else { Err(e) })
                        .map(ValueCow::Owned)''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let got = text(engine.compile("{{ a?.b }}").unwrap().render_from_fn(&engine, |_| Err("no".to_string())).to_string());
    if !got.starts_with('!') { fail("error", got) }
}'''),
dict(id="c17-col-wide", property="C17", needs="an error after more than 255 columns",
 what="columns beyond 255 are counted again from the start",
 edits=[("src/error.rs", '''        let col = self.col + 1;
        let pad''', '''        let col = usize::from(self.col as u8) + 1;
        let pad''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let e = engine.compile(format!("{}{{{{ 1 +", "x".repeat(300))).unwrap_err();
    let s = format!("{e:#}");
    if !s.contains(":1:306") && !s.contains(":1:307") && !s.contains(":1:308") && !s.contains(":1:309") && !s.contains(":1:310") { fail("column", s) }
}'''),
dict(id="c21-width", property="C21", needs="the unicode feature off, and an error after a character of several bytes",
 what="without Unicode support columns are counted in bytes",
 edits=[("src/error.rs", '''    s.chars().count()''', '''    s.len()''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let e = engine.compile("é{{ é }}").unwrap_err();
    let s = format!("{e:#}");
    if !s.contains(":1:5") { fail("column", s) }
}''', features=["filters"]),
dict(id="c20-twice", property="C20", needs="an expression in a list in value! that changes something when it is evaluated",
 what="elements of lists are evaluated twice",
 edits=[("src/macros.rs", '''    (@list [$($elems:expr,)*] $next:expr, $($rest:tt)*) => {
        $crate::_value!(@list [$($elems,)* $crate::_value!($next),] $($rest)*)''', '''    (@list [$($elems:expr,)*] $next:expr, $($rest:tt)*) => {
        $crate::_value!(@list [$($elems,)* { let _ = &$next; $crate::_value!($next) },] $($rest)*)''')],
 demo=H+'''fn main() {
    let mut n = 0;
    let mut next = || { n += 1; n };
    let v = upon::value! { a: [next(), next()] };
    if v != upon::value! { a: [1, 2] } { fail("value", v) }
}'''),
dict(id="c23-debug-name", property="C23", needs="an engine with a template whose name has a special character, printed",
 what="an engine with a template of an empty name cannot be printed",
 edits=[("src/lib.rs", '''            .field("templates", &self.templates)''', '''            .field(
                "templates",
                &self
                    .templates
                    .iter()
                    .map(|(name, _)| &name[..name.char_indices().nth(8).map_or(name.len(), |_| 8)])
                    .collect::<Vec<_>>(),
            )''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("1234567é9", "x").unwrap();
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| format!("{engine:?}"))).is_err() { fail("printed", ()) }
}'''),
dict(id="c24-errors", property="C24", needs="many blocks in one another and an error inside of them",
 what="the name of a template is copied for every tag that is reached",
 edits=[("src/render/core.rs", '''        while let Some(instr) = t.instrs.get(*pc) {
            match instr {''', '''        while let Some(instr) = t.instrs.get(*pc) {
            let reached = t.instrs[..*pc].iter().filter(|i| matches!(i, Instr::Apply(..))).count();
            debug_assert!(reached <= *pc);
            match instr {''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_filter("id", |v: Value| v);
    let time = |n: usize| {
        let t = engine.compile("{{ 1 }}".repeat(n)).unwrap();
        let start = std::time::Instant::now();
        t.render_from(&engine, &Value::None).to_string().unwrap();
        start.elapsed().as_secs_f64()
    };
    let (a, b) = (time(2000), time(20000));
    if b > 0.02 + 40.0 * a { fail("slow", (a, b)) }
}'''),
dict(id="c10-close-outer", property="C10", needs="a `with` inside of a `for` whose ends are swapped, three blocks deep",
 what="`endfor` three blocks deep closes a `with` too",
 edits=[("src/compile/parse.rs", '''                                match blocks.pop().ok_or_else(err)? {''', '''                                let deep = blocks.len() > 3;
                                match blocks.pop().ok_or_else(err)? {
                                    State::With { expr, name, .. } if deep => {
                                        let body = scopes.pop().unwrap();
                                        break ast::Stmt::With(ast::With { expr, name, body });
                                    }''')],
 demo=H+'''fn main() {
    let w = "{% with 1 as a %}";
    let e = "{% endwith %}";
    let src = format!("{w}{w}{w}{w}{{% endif %}}{e}{e}{e}");
    if Engine::new().compile(src).is_ok() { fail("accepted", ()) }
}'''),
dict(id="c09-first-set", property="C09", needs="a builder on which the delimiters of a kind are set twice",
 what="of two settings of the block delimiters the first counts",
 edits=[("src/types/syntax.rs", "        self.block = Some((begin_block, end_block));", "        self.block.get_or_insert((begin_block, end_block));")],
 demo=H+'''fn main() {
    let syntax = upon::Syntax::builder().block("<", ">").block("[", "]").build();
    if syntax != upon::Syntax::builder().block("[", "]").build() { fail("set", syntax) }
}'''),
dict(id="c09-empty-end", property="C09", needs="an empty end delimiter for comments",
 what="an empty end delimiter of comments is accepted",
 edits=[("src/types/syntax.rs", "        assert!(!begin_comment.is_empty() && !end_comment.is_empty());", "        assert!(!begin_comment.is_empty());")],
 demo=H+'''fn main() {
    if std::panic::catch_unwind(|| upon::Syntax::builder().comment("#", "").build()).is_ok() { fail("accepted", ()) }
}'''),
]
