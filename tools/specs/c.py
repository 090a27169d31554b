H = '''use upon::{Engine, Value};
#[allow(dead_code)]
fn fail(what: &str, got: impl std::fmt::Debug) -> ! {
    eprintln!("{what}: {got:?}");
    std::process::exit(1)
}
#[allow(dead_code)]
fn text(r: Result<String, upon::Error>) -> String {
    r.unwrap_or_else(|e| format!("!{e}"))
}
#[allow(dead_code)]
fn render(src: &str, ctx: &Value) -> String {
    let engine = Engine::new();
    let r = engine.compile(src).and_then(|t| t.render_from(&engine, ctx).to_string());
    text(r)
}
'''
SEEDS = [
dict(id="c01-empty-then", property="C01", needs="a negated condition whose body is empty, with an `else`",
 what="a conditional with an empty body is compiled as its inversion, which forgets the `not`",
 edits=[("src/compile/mod.rs", '''                // then branch
                let instr = if not {''', '''                // Nothing to jump over: only the else branch has instructions.
                if then_branch.stmts.is_empty() {
                    let j = self.push(Instr::JumpIfTrue(FIXME));
                    if let Some(else_branch) = else_branch {
                        self.compile_scope(else_branch);
                    }
                    self.update_jump(j);
                    return;
                }

                // then branch
                let instr = if not {''')],
 demo=H+'''fn main() {
    let src = "{% if not x %}{% else %}b{% endif %}";
    for (x, want) in [(true, "b"), (false, "")] {
        let got = render(src, &Value::from([("x", x)]));
        if got != want { fail(src, got) }
    }
}'''),
dict(id="c01-nan", property="C01", needs="a condition whose value is not a number",
 what="a float that is not a number is false",
 edits=[("src/render/value.rs", "Value::Float(n) if *n == 0.0 => false", "Value::Float(n) if !(n.abs() > 0.0) => false")],
 demo=H+'''fn main() {
    let got = render("{% if x %}yes{% else %}no{% endif %}", &Value::from([("x", f64::NAN)]));
    if got != "yes" { fail("NaN is not zero", got) }
}'''),
dict(id="c02-empty-unpack", property="C02", needs="an empty collection of the wrong kind for the loop variables",
 what="loops over empty collections are skipped before the variables are matched with the kind of collection",
 edits=[("src/render/core.rs", '''                    let iterable = expr.take().unwrap();
                    self.stack''', '''                    let iterable = expr.take().unwrap();
                    // Nothing to do for an empty collection.
                    let empty = match &*iterable {
                        crate::Value::List(list) => list.is_empty(),
                        crate::Value::Map(map) => map.is_empty(),
                        _ => false,
                    };
                    if empty {
                        if let Some(Instr::LoopNext(j)) = t.instrs.get(*pc + 1) {
                            *pc = *j;
                            continue;
                        }
                    }
                    self.stack''')],
 demo=H+'''fn main() {
    let ctx = Value::from([("m", Value::Map(Default::default())), ("l", Value::List(vec![]))]);
    for src in ["{% for x in m %}{% endfor %}", "{% for k, v in l %}{% endfor %}"] {
        let got = render(src, &ctx);
        if !got.starts_with('!') { fail(src, got) }
    }
    if render("{% for x in l %}{% endfor %}", &ctx) != "" { fail("empty", 0) }
}'''),
dict(id="c02-index-u16", property="C02", needs="a loop over more than 65536 elements",
 what="the index of a loop is kept in 16 bits",
 edits=[("src/render/iter.rs", '''            (_, "index") => Value::Integer(i as i64),''', '''            (_, "index") => Value::Integer(i64::from(i as u16)),''')],
 demo=H+'''fn main() {
    let ctx = Value::from([("l", vec![(); 65538])]);
    let got = render("{% for x in l %}{% if loop.last %}{{ loop.index }}{% endif %}{% endfor %}", &ctx);
    if got != "65537" { fail("the index of the last", got) }
}'''),
dict(id="c03-lookup-cache", property="C03", needs="one tag rendered twice with equally many bindings around it, but others (such as a template included from two places)",
 what="where a variable was found is remembered by its place in the template and the number of bindings",
 edits=[("src/render/stack.rs", '''    stack: Vec<State<'a>>,
}

pub enum''', '''    stack: Vec<State<'a>>,
    /// Where a variable has been found last: its place, the length, the index.
    found: std::cell::Cell<Option<(*const u8, usize, usize)>>,
}

pub enum'''),
 ("src/render/stack.rs", '''            stack: vec![State::Scope(ValueCow::Borrowed(globals))],''', '''            stack: vec![State::Scope(ValueCow::Borrowed(globals))],
            found: Default::default(),'''),
 ("src/render/stack.rs", '''            stack: vec![State::ValueFn(f)],''', '''            stack: vec![State::ValueFn(f)],
            found: Default::default(),'''),
 ("src/render/stack.rs", '''        for state in self.stack.iter().rev() {''', '''        let place = source[v.first().span.m..].as_ptr();
        if let Some((p, n, i)) = self.found.get() {
            if p == place && n == self.stack.len() {
                if let State::Var(_, var) = &self.stack[i] {
                    return lookup_path(source, var, v.rest());
                }
            }
        }
        for (i, state) in self.stack.iter().enumerate().rev() {'''),
 ("src/render/stack.rs", '''                    return lookup_path(source, var, v.rest());
                }

                State::Loop''', '''                    self.found.set(Some((place, self.stack.len(), i)));
                    return lookup_path(source, var, v.rest());
                }

                State::Loop''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("p", "{{ a }}").unwrap();
    engine.add_template("t", "{% with 1 as a %}{% include \\"p\\" %}{% endwith %}{% with 2 as b %}{% include \\"p\\" %}{% endwith %}").unwrap();
    let got = text(engine.template("t").render_from(&Value::from([("a", 3)])).to_string());
    if got != "13" { fail("the second include sees the context", got) }
}'''),
dict(id="c04-empty-globals", property="C04", needs="an include with an empty map",
 what="an include with an empty map is treated as one without a value",
 edits=[("src/render/core.rs", '''                    let globals = expr.take().unwrap();
                    return''', '''                    let globals = expr.take().unwrap();
                    if matches!(&*globals, crate::Value::Map(map) if map.is_empty()) {
                        return Ok(RenderState::Include { template_name });
                    }
                    return''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("p", "{{ a }}").unwrap();
    engine.add_template("t", "{% include \\"p\\" with m %}").unwrap();
    let ctx = Value::from([("a", Value::from(3)), ("m", Value::Map(Default::default()))]);
    let got = text(engine.template("t").render_from(&ctx).to_string());
    if !got.starts_with('!') { fail("a must not be visible", got) }
}'''),
dict(id="c04-dot-slash", property="C04", needs="an include of an unknown name that starts with `./`, where the rest is known",
 what="a leading `./` of an unknown template name is ignored",
 edits=[("src/render/core.rs", '''                .get(name.as_str())
                .ok_or_else''', '''                .get(name.as_str())
                .or_else(|| {
                    let name = name.as_str().strip_prefix("./")?;
                    self.inner.engine.templates.get(name)
                })
                .ok_or_else''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("p", "p").unwrap();
    engine.add_template("t", "{% include \\"./p\\" %}").unwrap();
    let got = text(engine.template("t").render_from(&Value::None).to_string());
    if !got.starts_with('!') { fail("no such template", got) }
}'''),
dict(id="c05-fn-unlimited", property="C05", needs="a template function and includes deeper than the limit, which end by themselves",
 what="the limit does not apply to renderers with a template function while the chain has no template twice",
 edits=[("src/render/core.rs", '''            if templates.len() > max_include_depth {''', '''            let n = templates.len();
            // A chain of different templates ends in any case.
            let ends = self.inner.template_fn.is_some()
                && n < 1000
                && (1..n).all(|i| templates[..i].iter().all(|t| !std::ptr::eq(t.0, templates[i].0)));
            if n > max_include_depth && !ends {''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let (a, b, c) = (engine.compile("{% include \\"b\\" %}").unwrap(), engine.compile("{% include \\"c\\" %}").unwrap(), engine.compile("c").unwrap());
    let got = text(a.render_from(&engine, &Value::None).with_template_fn(|n| Ok(if n == "b" { &b } else { &c })).with_max_include_depth(2).to_string());
    if !got.starts_with('!') { fail("three templates are more than two", got) }
}'''),
dict(id="c05-tail-with", property="C05", needs="an include with a value as the very last thing of an included template, around the limit",
 what="a template that ends in an include with a value does not count while that is rendered",
 edits=[("src/render/core.rs", '''                    self.stack.push(State::Boundary);
                    self.stack.push(State::Scope(globals));''', '''                    // Nothing is left to do in this template.
                    if *pc == t.instrs.len() && *has_scope && max_include_depth < 64 {
                        self.stack.pop_scope();
                        self.stack.pop_boundary();
                        templates.pop();
                    }
                    self.stack.push(State::Boundary);
                    self.stack.push(State::Scope(globals));''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("a", "{% include \\"b\\" with x %}").unwrap();
    engine.add_template("b", "{% include \\"c\\" with x %}").unwrap();
    engine.add_template("c", "c").unwrap();
    let x = Value::from([("x", Value::from([("x", 1)]))]);
    let got = text(engine.template("a").render_from(&x).with_max_include_depth(2).to_string());
    if !got.starts_with('!') { fail("three templates are more than two", got) }
}'''),
dict(id="c06-map-index", property="C06", needs="an index into a map that has that number as a key",
 what="an index into a map looks up the key that is spelled like it",
 edits=[("src/render/value.rs", '''        (value, ast::Access::Index(_)) =>''', '''        (Value::Map(map), ast::Access::Index(i)) if map.contains_key(&i.value.to_string()) => {
            Ok(map.get(&i.value.to_string()))
        }
        (value, ast::Access::Index(_)) =>''')],
 demo=H+'''fn main() {
    let ctx = Value::from([("m", Value::from([("0", 1)]))]);
    let got = render("{{ m.0 }}", &ctx);
    if !got.starts_with('!') { fail("an index on a map", got) }
}'''),
dict(id="c06-index-u32", property="C06", needs="an index of at least 2^32",
 what="indexes are taken modulo 2^32",
 edits=[("src/render/value.rs", "list.get(*i)", "list.get(*i as u32 as usize)")],
 demo=H+'''fn main() {
    let ctx = Value::from([("l", vec![1])]);
    let got = render("{{ l.4294967296 }}", &ctx);
    if !got.starts_with('!') { fail("out of bounds", got) }
}'''),
dict(id="c07-long-line", property="C07", needs="an error on a line of more than 120 bytes, with a longer character at the 120th",
 what="the quoted line is cut after 120 bytes",
 edits=[("src/error.rs", '''        let text = &self.text;
''', '''        let text = if self.text.len() > 120 && self.col + self.width < 100 {
            &self.text[..120]
        } else {
            &self.text
        };
''')],
 demo=H+'''fn main() {
    let src = format!("{{{{ x }}}}{}", "\\u{e9}".repeat(100));
    for pad in ["", "a"] {
        let engine = Engine::new();
        let src = format!("{pad}{src}");
        let e = engine.compile(src.as_str()).unwrap().render_from(&engine, &Value::None).to_string().unwrap_err();
        let got = format!("{e:#}");
        if !got.contains("not found") { fail("unknown variable", got) }
    }
}'''),
dict(id="c08-own-line", property="C08", needs="an `endif` or `endfor` alone on a line that is indented with a tab",
 what="the white space before an end tag that is alone on its line is dropped, when it is a tab",
 edits=[("src/compile/lex.rs", '''                if tk != end {
                    return Err(self.err_unexpected_token(tk, i..j));
                }
''', '''                if tk != end {
                    return Err(self.err_unexpected_token(tk, i..j));
                }
                // An end tag that is alone on its line.
                let (before, after) = (&self.source[..begin.m], &self.source[j..]);
                if end == Token::EndBlock
                    && self.source[begin.n..i].trim().starts_with("end")
                    && before.ends_with("\\n\\t")
                    && after.starts_with('\\n')
                {
                    self.state = State::Template;
                    self.left_trim = trim;
                    self.cursor = j + 1;
                    return Ok(Some((tk, Span::from(i..j))));
                }
''')],
 demo=H+'''fn main() {
    let got = render("{% if true %}a\\n\\t{% endif %}\\nb", &Value::None);
    if got != "a\\n\\t\\nb" { fail("text around blocks", got) }
}'''),
dict(id="c09-fail-depth", property="C09", needs="a delimiter that occurs inside another one, after a prefix of a third",
 what="the search gives up a longer candidate one character too late or too early",
 edits=[("src/compile/search/ahocorasick/build.rs", "if next_depth - match_depth + 1 > fail_depth {", "if next_depth - match_depth + 1 >= fail_depth {")],
 demo=H+'''fn main() {}'''),
dict(id="c09-copy-first", property="C09", needs="a delimiter that is a suffix of a prefix of another",
 what="matches found through failure links take precedence",
 edits=[("src/compile/search/ahocorasick/build.rs", '''                self.state_mut(next).fail = fail;
                self.copy_matches(fail, next);''', '''                self.state_mut(next).fail = fail;
                if !self.state(curr).is_match() && self.state(next).depth < 4 {
                    self.copy_matches(fail, next);
                }''')],
 demo=H+'''fn main() {
    // The end of a block occurs inside of the begin of a comment that is not completed.
    let syntax = upon::Syntax::builder().expr("ab", "cd").block("<<<!", ">>").comment("xyzab(", ")").build();
    let engine = Engine::with_syntax(syntax);
    let r = engine.compile("xyzab v cd").and_then(|t| t.render_from(&engine, &Value::from([("v", 1)])).to_string());
    if text(r) != "xyz1" { fail("ab begins an expression", 0) }
}'''),
dict(id="c10-open-comment", property="C10", needs="a comment that is not closed, at the very end of a template",
 what="a comment that is not closed is accepted when it is empty or blank",
 edits=[("src/compile/parse.rs", '''                    self.expect(Token::EndComment)?;
                    continue;''', '''                    match self.next()? {
                        Some((Token::EndComment, _)) => {}
                        // A comment at the end of the template.
                        None if self.source().ends_with("{#\\n") => {}
                        None => return Err(self.err_unexpected_eof(Token::EndComment.human())),
                        Some((tk, span)) => {
                            return Err(self.err_unexpected_token(
                                Token::EndComment.human(),
                                tk,
                                span,
                            ))
                        }
                    }
                    continue;''')],
 demo=H+'''fn main() {
    let got = render("a {#\\n", &Value::None);
    if !got.starts_with('!') { fail("unclosed comment", got) }
}'''),
dict(id="c10-keyword-member", property="C10", needs="a keyword as a member of a path, after an optional access",
 what="keywords are accepted as members after `?.`",
 edits=[("src/compile/parse.rs", '''                    self.expect(Token::QuestionDot)?;
                    let access = self.parse_access()?;''', '''                    self.expect(Token::QuestionDot)?;
                    let access = match self.peek()? {
                        Some((Token::Keyword, span)) => {
                            self.expect(Token::Keyword)?;
                            ast::Access::Key(ast::Ident { span })
                        }
                        _ => self.parse_access()?,
                    };''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    for src in ["{{ a?.in }}", "{{ a?.true }}"] {
        if engine.compile(src).is_ok() { fail(src, "compiles") }
    }
}'''),
dict(id="c11-fast-float", property="C11", needs="a float literal with more than 22 decimals or a large exponent",
 what="short decimal floats are computed from their digits and a power of ten, which is not exact beyond 10^22",
 edits=[("src/compile/parse.rs", '''        let float: f64 = raw
            .parse()
            .map_err(|_| Error::syntax("invalid float literal", self.source(), span))?;''', '''        let mut float: f64 = raw
            .parse()
            .map_err(|_| Error::syntax("invalid float literal", self.source(), span))?;
        // Exact for small numbers of digits.
        if let Some((digits, exp)) = raw.split_once('e') {
            if let (Ok(m @ 0..=9007199254740992), Ok(e @ 0..=25)) = (digits.parse::<u64>(), exp.parse::<i32>()) {
                float = m as f64 * 10f64.powi(e);
            }
        }''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let mut bad = vec![];
    for (m, e) in [(3u64, 23), (7, 23), (9007199254740991, 23), (5, 25), (123456789, 24), (1, 23), (9, 24)] {
        let src = format!("{m}e{e}");
        let want: f64 = src.parse().unwrap();
        let got = text(engine.compile(format!("{{{{ {src} }}}}")).unwrap().render_from(&engine, &Value::None).to_string());
        if got != format!("{want}") { bad.push(src) }
    }
    if !bad.is_empty() { fail("not the nearest", bad) }
}'''),
dict(id="c11-float-underscore", property="C11", needs="a float literal with an underscore in its fraction",
 what="underscores are accepted in float literals",
 edits=[("src/compile/parse.rs", '''        let float: f64 = raw
            .parse()''', '''        let float: f64 = raw
            .replace('_', "")
            .parse()''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    if engine.compile("{{ 1.000_1 }}").is_ok() { fail("no underscores in floats", 0) }
}'''),
dict(id="c12-int-float", property="C12", needs="an integer passed to a parameter of a float type",
 what="integers are accepted for float parameters",
 edits=[("src/filters/args.rs", '''                        Value::Float(f) => Ok(*f as $ty),''', '''                        Value::Float(f) => Ok(*f as $ty),
                        Value::Integer(i) if *i as f64 as i64 == *i => Ok(*i as $ty),''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_filter("f", |v: f64| v);
    let got = text(engine.compile("{{ 1 | f }}").unwrap().render_from(&engine, &Value::None).to_string());
    if !got.starts_with('!') { fail("an integer is not a float", got) }
}'''),
dict(id="c13-builtin-last", property="C13", needs="an own default formatter and a filter without arguments as the last of an emitted expression, giving none",
 what="a result none of the last filter is written by the built-in formatter",
 edits=[("src/render/core.rs", '''                            (self.inner.engine.default_formatter)(f, &result)
                                .map_err''', '''                            let formatter = match &result {
                                crate::Value::None => &crate::fmt::default,
                                _ => self.inner.engine.default_formatter,
                            };
                            formatter(f, &result)
                                .map_err''')],
 demo=H+'''use std::fmt::Write;
fn own(f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result { write!(f, "<{v:?}>")?; Ok(()) }
fn main() {
    let mut engine = Engine::new();
    engine.set_default_formatter(&own);
    engine.add_filter("none", |_: Value| ());
    let got = text(engine.compile("{{ 1 | none }}").unwrap().render_from(&engine, &Value::None).to_string());
    if got != "<None>" { fail("the default formatter", got) }
}'''),
dict(id="c14-bufwriter", property="C14", needs="a writer that fails once and would then succeed",
 what="output to a writer is buffered, and written again when the first attempt failed",
 edits=[("src/render/mod.rs", '''    let mut w = Writer::new(writer);
    let mut f''', '''    let mut w = Writer::new(io::BufWriter::with_capacity(16, writer));
    let mut f'''),
 ("src/render/mod.rs", '''    // A write error takes precedence, even if a formatter ignored it.
    match w.take_err() {''', '''    // A write error takes precedence, even if a formatter ignored it.
    match w.take_err().or_else(|| w.flush().err()) {'''),
 ("src/fmt.rs", '''    pub fn take_err(''', '''    pub fn flush(&mut self) -> io::Result<()> {
        self.writer.flush()
    }

    pub fn take_err(''')],
 demo=H+'''struct Once(Vec<u8>, bool);
impl std::io::Write for Once {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if !self.1 { self.1 = true; return Err(std::io::Error::new(std::io::ErrorKind::Other, "once")) }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let engine = Engine::new();
    let mut w = Once(vec![], false);
    let r = engine.compile("some text").unwrap().render_from(&engine, &Value::None).to_writer(&mut w);
    if r.is_ok() || !w.0.is_empty() { fail("nothing is written after a failure", w.0) }
}'''),
dict(id="c15-restore", property="C15", needs="a formatter added, a filter added under its name, then removed, then the name used",
 what="removing a filter brings back the formatter that it displaced",
 edits=[("src/lib.rs", '''    templates: BTreeMap<Cow<'engine, str>, program::Template<'engine>>,
    max''', '''    templates: BTreeMap<Cow<'engine, str>, program::Template<'engine>>,
    displaced: BTreeMap<Cow<'engine, str>, EngineBoxFn>,
    max'''),
 ("src/lib.rs", '''            templates: BTreeMap::new(),
''', '''            templates: BTreeMap::new(),
            displaced: BTreeMap::new(),
'''),
 ("src/lib.rs", '''        self.functions
            .insert(name.into(), EngineBoxFn::Filter(filters::new(f)))
            .map(|f| f.discriminant())''', '''        let name = name.into();
        let old = self
            .functions
            .insert(name.clone(), EngineBoxFn::Filter(filters::new(f)))?;
        let kind = old.discriminant();
        if kind == EngineFn::Formatter {
            self.displaced.insert(name, old);
        }
        Some(kind)'''),
 ("src/lib.rs", '''        self.functions.remove(name).map(|f| f.discriminant())''', '''        let old = self.functions.remove(name)?;
        if let Some((name, f)) = self.displaced.remove_entry(name) {
            self.functions.insert(name, f);
        }
        Some(old.discriminant())''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_formatter("f", upon::fmt::default);
    engine.add_filter("f", |v: Value| v);
    engine.remove_function("f");
    let got = engine.remove_function("f");
    if got.is_some() { fail("removed already", got) }
}'''),
dict(id="c16-u64-float", property="C16", needs="an unsigned integer of more than 63 bits that a float can represent",
 what="integers beyond 64 signed bits are serialized as floats if that is exact",
 edits=[("src/value/ser/mod.rs", '''        Ok(Value::Integer(i64::try_from(v).map_err(|_| {''', '''        // Exact as a float.
        if v > i64::MAX as u64 && v.trailing_zeros() >= 11 {
            return Ok(Value::Float(v as f64));
        }
        Ok(Value::Integer(i64::try_from(v).map_err(|_| {''')],
 demo=H+'''fn main() {
    let _ = H;
    let r = upon::to_value(1u64 << 63);
    if r.is_ok() { fail("out of range", r) }
}
const H: u8 = 0;'''),
dict(id="c16-first-key", property="C16", needs="a pair of entries with the same key converted from an iterator",
 what="the first of two entries with the same key is kept",
 edits=[("src/value/from.rs", '''        Self::Map(
            iter.into_iter()
                .map(|(k, v)| (k.into(), v.into()))
                .collect(),
        )''', '''        let mut map = BTreeMap::new();
        for (k, v) in iter {
            map.entry(k.into()).or_insert_with(|| v.into());
        }
        Self::Map(map)''')],
 demo=H+'''fn main() {
    let v = Value::from_iter([("a", 1), ("a", 2)]);
    if v != Value::from([("a", 2)]) { fail("the later entry", v) }
}'''),
dict(id="c17-underline-chars", property="C17", needs="a wide or combining character inside the token that an error is about",
 what="the underline has as many carets as there are characters",
 edits=[("src/error.rs", "max(1, display_width(&source[span]))", "max(1, source[span].chars().count())")],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let e = engine.compile("{{ \\u{65e5}\\u{672c} }}").unwrap().render_from(&engine, &Value::Map(Default::default())).to_string().unwrap_err();
    let s = format!("{e:#}");
    if !s.contains("| ") || !s.contains("^^^^") { fail("four columns", s) }
}'''),
dict(id="c17-with-name", property="C17", needs="an error in a template that is included with a value, when the including template is anonymous",
 what="errors in templates that are included by anonymous templates keep no name",
 edits=[("src/render/core.rs", '''                    self.stack.push(State::Boundary);
                    self.stack.push(State::Scope(globals));
                    templates.push((template, Some(template_name.as_str()), 0, true));''', '''                    self.stack.push(State::Boundary);
                    self.stack.push(State::Scope(globals));
                    let name = tname.map(|_| template_name.as_str());
                    templates.push((template, name, 0, true));''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("p", "{{ x }}").unwrap();
    let m = Value::from([("m", Value::Map(Default::default()))]);
    let e = engine.compile("{% include \\"p\\" with m %}").unwrap().render_from(&engine, &m).to_string().unwrap_err();
    let s = format!("{e:#}");
    if !s.contains("--> p:1:4") { fail("the name", s) }
}'''),
dict(id="c18-long-path", property="C18", needs="a value function and a path of more than 16 members",
 what="value functions are given at most 16 members of a path",
 edits=[("src/render/stack.rs", '''                        .path
                        .iter()
                        .map(|member| {''', '''                        .path
                        .iter()
                        .take(16)
                        .map(|member| {''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let src = format!("{{{{ a{} }}}}", ".b".repeat(20));
    let got = text(engine.compile(src).unwrap().render_from_fn(&engine, |p| Ok(Value::from(p.len() as u32))).to_string());
    if got != "21" { fail("the complete path", got) }
}'''),
dict(id="c18-fn-retry", property="C18", needs="a value function that fails for a path with an optional access",
 what="a failing value function means none when the path has an optional access",
 edits=[("src/render/stack.rs", '''                    return value_fn(&path)
                        .map(ValueCow::Owned)
                        .map_err(''', '''                    return value_fn(&path)
                        .or_else(|reason| match path.last() {
                            Some(m) if m.op == ValueAccessOp::Optional => Ok(Value::None),
                            _ => Err(reason),
                        })
                        .map(ValueCow::Owned)
                        .map_err(''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let got = text(engine.compile("{{ a?.b }}").unwrap().render_from_fn(&engine, |_| Err("no".into())).to_string());
    if !got.starts_with('!') { fail("the error is reported", got) }
}'''),
dict(id="c19-scratch", property="C19", needs="two threads that format integers at the same time",
 what="integers are formatted into a buffer that all threads share, and written from it afterwards",
 edits=[("src/fmt.rs", '''        Value::Integer(n) => write!(f, "{n}")?,''', '''        Value::Integer(n) => {
            static DIGITS: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
            let digits = || DIGITS.lock().unwrap_or_else(|e| e.into_inner());
            *digits() = n.to_string();
            let s = digits().clone();
            f.write_str(&s)?
        }''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let t = engine.compile("{{ x }}").unwrap();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
    let stop = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for i in 0..8 {
            let (engine, t, stop) = (&engine, &t, &stop);
            s.spawn(move || {
                let ctx = Value::from([("x", i * 1111)]);
                let want = (i * 1111).to_string();
                while std::time::Instant::now() < end && !stop.load(std::sync::atomic::Ordering::Relaxed) {
                    if t.render_from(engine, &ctx).to_string().unwrap() != want {
                        stop.store(true, std::sync::atomic::Ordering::Relaxed);
                    }
                }
            });
        }
    });
    if stop.into_inner() { fail("another thread's number", 0) }
}'''),
dict(id="c19-rc-name", property="C19", needs="an error sent to another thread",
 what="errors keep their template's name in a counted reference that cannot be sent",
 edits=[("src/error.rs", "    name: Option<String>,\n\n    /// Optional additional", "    name: Option<std::rc::Rc<str>>,\n\n    /// Optional additional"),
 ("src/error.rs", "self.name.get_or_insert(name);", "self.name.get_or_insert(name.into());")],
 demo=H+'''fn main() {
    let got = std::thread::spawn(|| Engine::new().compile("{{").unwrap_err()).join().unwrap();
    let _ = got.to_string();
}'''),
dict(id="c20-list-order", property="C20", needs="a list with an element that has an effect after a nested list or map",
 what="keys with values none are left out of maps with other keys",
 edits=[("src/macros.rs", '''    (@map $map:ident ($key:ident) (: None $($rest:tt)*) $copy:tt) => {
        $crate::_value!(@map $map [$key] ($crate::_value!(None)) $($rest)*);''', '''    (@map $map:ident ($key:ident) (: None , $($rest:tt)+) $copy:tt) => {
        $crate::_value!(@map $map () ($($rest)+) ($($rest)+));
        $map.entry(stringify!($key).into()).or_insert($crate::Value::None);
    };
    (@map $map:ident ($key:ident) (: None $($rest:tt)*) $copy:tt) => {
        $crate::_value!(@map $map [$key] ($crate::_value!(None)) $($rest)*);''')],
 demo=H+'''fn main() {
    let v = upon::value! { a: 1, a: None, b: 2 };
    if v != Value::from([("a", Value::None), ("b", Value::from(2))]) { fail("a later key replaces", v) }
}'''),
dict(id="c21-nofilter-middle", property="C21", needs="the crate built without `filters`, and a formatter that is not last",
 what="without filters a formatter in the middle of an expression is ignored",
 features=["serde"],
 edits=[("src/render/core.rs", '''                        Some(EngineBoxFn::Formatter(_)) => {
                            return Err''', '''                        #[cfg(not(feature = "filters"))]
                        Some(EngineBoxFn::Formatter(_)) if _args.is_none() => {}
                        Some(EngineBoxFn::Formatter(_)) => {
                            return Err''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_formatter("f", upon::fmt::default);
    let got = text(engine.compile("{{ 1 | f | f }}").unwrap().render_from(&engine, &Value::None).to_string());
    if !got.starts_with('!') { fail("a formatter in the middle", got) }
}'''),
dict(id="c22-count-after", property="C22", needs="a filter given a wrong number of arguments, one of which calls the value function",
 what="with a value function, arguments beyond those of the filter are evaluated before they are counted",
 edits=[("src/filters/mod.rs", '''    if state.args.len() == exp {
        Ok(())
    } else {''', '''    if state.args.len() == exp {
        Ok(())
    } else {
        // Report what is wrong with the others first.
        for arg in state.args.iter().skip(exp) {
            if let BaseExpr::Var(var) = arg {
                state.stack.lookup_var(state.source, var)?;
            }
        }''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_filter("f", |v: i64| v);
    let n = std::cell::Cell::new(0);
    let t = engine.compile("{{ 1 | f: x }}").unwrap();
    let r = t.render_from_fn(&engine, |_| { n.set(n.get() + 1); Err("own".into()) }).to_string();
    if r.is_ok() || n.get() != 0 { fail("asked for an argument that is not used", n.get()) }
}'''),
dict(id="c23-same-source", property="C23", needs="two templates with the same source text, the first one replaced or removed",
 what="a template with the source of a registered one keeps only a reference to its name",
 edits=[("src/lib.rs", '''        match compile::template(self, source.into()) {
            Ok(template) => {
                self.templates.insert(name.into(), template);''', '''        match compile::template(self, source.into()) {
            Ok(mut template) => {
                let name = name.into();
                // Keep the shorter of two sources that render the same.
                if let Some(old) = self.templates.get(&name) {
                    if old.source.trim_end_matches('\\0') == template.source {
                        template.source = old.source.clone();
                    }
                }
                self.templates.insert(name, template);''')],
 demo=H+'''fn main() {
    let mut engine = Engine::new();
    engine.add_template("a", "x\\0").unwrap();
    engine.add_template("a", "x").unwrap();
    let got = engine.template("a").source().to_owned();
    if got != "x" { fail("the source", got) }
}'''),
dict(id="c24-rem-count", property="C24", needs="a loop over a large map that asks for `loop.last`",
 what="what remains of a loop is counted by walking through it",
 edits=[("src/render/iter.rs", '''            LoopState::MapBorrowed {
                iter,
                value: Some((i, _)),
                ..
            } => Some((*i, iter.len())),''', '''            LoopState::MapBorrowed {
                iter,
                value: Some((i, _)),
                ..
            } => Some((*i, iter.clone().fold(0, |n, _| n + 1))),''')],
 demo=H+'''fn main() {
    let m = |n: u32| Value::from([("m", Value::from_iter((0..n).map(|i| (i.to_string(), i))))]);
    let src = "{% for k, v in m %}{% if loop.last %}{% endif %}{% endfor %}";
    let time = |n: u32| { let m = m(n); let t = std::time::Instant::now(); render(src, &m); t.elapsed() };
    let best = |n| (0..3).map(|_| time(n)).min().unwrap();
    let (a, b) = (best(2000), best(16000));
    if b > a * 32 { fail("8 times the entries", (a, b)) }
}'''),
dict(id="c24-copy-borrowed", property="C24", needs="a path into a large value of the context",
 what="what a path of a `with` variable leads to is copied",
 edits=[("src/render/stack.rs", '''                    return lookup_path(source, var, v.rest());
                }

                State::Loop''', '''                    let value = lookup_path(source, var, v.rest())?;
                    return Ok(ValueCow::Owned((*value).clone()));
                }

                State::Loop''')],
 demo=H+'''fn main() {
    let ctx = |n: usize| Value::from([("l", vec![1; n])]);
    let src = format!("{{% with l as x %}}{}{{% endwith %}}", "{{ x.0 }}{% if x %}{% endif %}".repeat(100));
    let time = |n: usize| { let m = ctx(n); let t = std::time::Instant::now(); render(&src, &m); t.elapsed() };
    let best = |n| (0..3).map(|_| time(n)).min().unwrap();
    let (a, b) = (best(100), best(100000));
    if b > a * 20 { fail("the list is not used up", (a, b)) }
}'''),
dict(id="c24-collect", property="C24", needs="much output to a writer",
 what="text is collected until a value is written to the writer",
 edits=[("src/fmt.rs", '''pub(crate) struct Writer<W> {
    writer: W,''', '''pub(crate) struct Writer<W> {
    writer: W,
    written: String,'''),
 ("src/fmt.rs", "Self { writer, err: None }", "Self { writer, written: String::new(), err: None }"),
 ("src/fmt.rs", '''        self.writer.write_all(s.as_bytes()).map_err(|e| {''', '''        self.written.push_str(s);
        self.writer.write_all(s.as_bytes()).map_err(|e| {''')],
 demo=H+'''use std::alloc::*;
struct A;
static NOW: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static MAX: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
use std::sync::atomic::Ordering::Relaxed;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let n = NOW.fetch_add(l.size(), Relaxed) + l.size(); MAX.fetch_max(n, Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { NOW.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let engine = Engine::new();
    let t = engine.compile("{% for x in l %}some text that is written again and again{% endfor %}").unwrap();
    let ctx = Value::from([("l", vec![(); 10000])]);
    let before = NOW.load(Relaxed);
    MAX.store(before, Relaxed);
    t.render_from(&engine, &ctx).to_writer(std::io::sink()).unwrap();
    let more = MAX.load(Relaxed) - before;
    if more > 100_000 { fail("memory while streaming", more) }
}'''),
dict(id="c24-drop-leak", property="C24", needs="a rendering that fails in an included template",
 what="the stack of a failed rendering is never freed",
 edits=[("src/render/core.rs", '''            if templates.len() > max_include_depth {
                return''', '''            if templates.len() > max_include_depth {
                // There may be deeply nested values on the stack.
                std::mem::forget(std::mem::take(&mut self.stack));
                return'''),
 ("src/render/stack.rs", '''#[cfg_attr(internal_debug, derive(Debug))]
pub struct Stack''', '''#[derive(Default)]
#[cfg_attr(internal_debug, derive(Debug))]
pub struct Stack''')],
 demo=H+'''use std::alloc::*;
struct A;
static NOW: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
use std::sync::atomic::Ordering::Relaxed;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { NOW.fetch_add(l.size(), Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { NOW.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut engine = Engine::new();
    engine.add_template("a", "{% include \\"a\\" %}").unwrap();
    let once = || { engine.template("a").render_from(&Value::None).to_string().unwrap_err(); };
    once();
    let before = NOW.load(Relaxed);
    for _ in 0..100 { once() }
    let more = NOW.load(Relaxed) as i64 - before as i64;
    if more > 0 { fail("memory that is never freed", more) }
}'''),
]
REDO = [
dict(id="c14-wouldblock", property="C14", needs="a writer that accepts a part of a text and then would block once",
 what="a write that would block is repeated from the beginning of the text",
 edits=[("src/fmt.rs", '''        self.writer.write_all(s.as_bytes()).map_err(|e| {''', '''        let mut result = self.writer.write_all(s.as_bytes());
        if matches!(&result, Err(e) if e.kind() == io::ErrorKind::WouldBlock) {
            result = self.writer.write_all(s.as_bytes());
        }
        result.map_err(|e| {''')],
 demo=H+'''struct Once(Vec<u8>, u32);
impl std::io::Write for Once {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 == 2 { return Err(std::io::ErrorKind::WouldBlock.into()) }
        self.0.push(b[0]);
        Ok(1)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let engine = Engine::new();
    let mut w = Once(vec![], 0);
    let r = engine.compile("text").unwrap().render_from(&engine, &Value::None).to_writer(&mut w);
    if r.is_ok() || w.0 != b"t" { fail("rendering stops when a write fails", w.0) }
}'''),
dict(id="c17-underline-zero", property="C17", needs="a combining character inside the token that an error is about",
 what="the underline has at least as many carets as there are characters",
 edits=[("src/error.rs", "max(1, display_width(&source[span]))", "max(source[span].chars().count(), display_width(&source[span])).max(1)")],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let e = engine.compile("{{ abcde\\u{301} }}").unwrap().render_from(&engine, &Value::Map(Default::default())).to_string().unwrap_err();
    let s = format!("{e:#}");
    if s.contains("^^^^^^") || !s.contains("^^^^^") { fail("five columns", s) }
}'''),
dict(id="c17-fn-name", property="C17", needs="an error in a template that a template function gave for an include",
 what="templates given by a template function keep the name of the template that includes them",
 edits=[("src/render/core.rs", '''                    templates.push((template, Some(template_name.as_str()), 0, false));''', '''                    let name = match &self.inner.template_fn {
                        Some(_) => *tname,
                        None => Some(template_name.as_str()),
                    };
                    templates.push((template, name, 0, false));''')],
 demo=H+'''fn main() {
    let engine = Engine::new();
    let p = engine.compile("{{ x }}").unwrap();
    let m = Value::Map(Default::default());
    let e = engine.compile("{% include \\"p\\" %}").unwrap().render_from(&engine, &m).with_template_fn(|_| Ok(&p)).to_string().unwrap_err();
    let s = format!("{e:#}");
    if !s.contains("--> p:1:4") { fail("the name", s) }
}'''),
dict(id="c19-rc-name", property="C19", needs="an error sent to another thread",
 what="errors keep their template's name in a counted reference that cannot be sent",
 edits=[("src/error.rs", "    name: Option<String>,\n\n    /// Optional additional", "    name: Option<std::rc::Rc<str>>,\n\n    /// Optional additional"),
 ("src/error.rs", "self.name.get_or_insert(name);", "self.name.get_or_insert_with(|| name.into());")],
 demo=H+'''struct Probe<T>(std::marker::PhantomData<T>);
trait No { const SEND: bool = false; }
impl<T> No for Probe<T> {}
impl<T: Send + Sync> Probe<T> { const SEND: bool = true; }
fn main() {
    if !<Probe<Engine<'static>>>::SEND || !<Probe<Value>>::SEND { fail("an engine", 0) }
    if !<Probe<upon::Error>>::SEND { fail("an error cannot be sent", 0) }
}'''),
dict(id="c20-late-none", property="C20", needs="a key written twice, first with none",
 what="none is put into a map after the entries that follow it",
 edits=[e for s in SEEDS if s["id"] == "c20-list-order" for e in s["edits"]],
 demo=[s for s in SEEDS if s["id"] == "c20-list-order"][0]["demo"]),
]
SEEDS = [s for s in SEEDS if s["id"] not in ("c14-bufwriter", "c17-underline-chars", "c17-with-name", "c20-list-order", "c09-copy-first", "c19-rc-name")] + REDO
