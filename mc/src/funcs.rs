//! The user supplied functions of the enumerated engines: the closures given
//! to the implementation and what the model knows about them.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;

use crate::val::V;
use upon::Value;

thread_local! {
    static TRACE: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}
pub fn trace_start(on: bool) {
    TRACE.with(|t| *t.borrow_mut() = on.then(Vec::new));
}
/// How many calls have been recorded.
pub fn trace_len() -> usize {
    TRACE.with(|t| t.borrow().as_ref().map_or(0, |t| t.len()))
}
pub fn trace_take() -> Vec<String> {
    TRACE.with(|t| t.borrow_mut().take().unwrap_or_default())
}
/// The calls recorded so far go somewhere else for a while.
pub fn trace_swap(t: Option<Vec<String>>) -> Option<Vec<String>> {
    TRACE.with(|x| x.replace(t))
}
pub fn event(f: impl FnOnce() -> String) {
    crate::sched::point();
    TRACE.with(|t| {
        if let Some(t) = &mut *t.borrow_mut() {
            t.push(f());
        }
    });
}

/// An unambiguous rendering of a value.
pub fn show(v: &V) -> String {
    match v {
        V::None => "<n>".into(),
        V::Bool(b) => format!("<b:{b}>"),
        V::Int(i) => format!("<i:{i}>"),
        V::Float(f) => format!("<f:{f:?}>"),
        V::Str(s) => format!("<s:{s}>"),
        V::List(l) => format!("[{}]", l.iter().map(show).collect::<Vec<_>>().join(",")),
        V::Map(m) => format!(
            "{{{}}}",
            m.iter()
                .map(|(k, v)| format!("{k}={}", show(v)))
                .collect::<Vec<_>>()
                .join(",")
        ),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Unit,
    Bool,
    I64,
    F64,
    F32,
    Int(i128, i128),
    String,
    Str,
    List,
    ListRef,
    Map,
    MapRef,
    Value,
    ValueRef,
}

impl Ty {
    /// Whether a value can be passed. A reference can be taken of the piped
    /// value and of what outlives the call, not of a temporary.
    pub fn accepts(self, v: &V, piped: bool, owned: bool) -> bool {
        let kind = match (self, v) {
            (Ty::Value | Ty::ValueRef, _) => true,
            (Ty::Unit, V::None) => true,
            (Ty::Bool, V::Bool(_)) => true,
            (Ty::I64, V::Int(_)) => true,
            (Ty::F64 | Ty::F32, V::Float(_)) => true,
            (Ty::Int(lo, hi), V::Int(i)) => (lo..=hi).contains(&i128::from(*i)),
            (Ty::String | Ty::Str, V::Str(_)) => true,
            (Ty::List | Ty::ListRef, V::List(_)) => true,
            (Ty::Map | Ty::MapRef, V::Map(_)) => true,
            _ => false,
        };
        let by_ref = matches!(self, Ty::Str | Ty::ListRef | Ty::MapRef | Ty::ValueRef);
        kind && (piped || !by_ref || !owned)
    }
    /// What arrives.
    pub fn convert(self, v: V) -> V {
        match (self, v) {
            (Ty::F32, V::Float(f)) => V::Float(f64::from(f as f32)),
            (_, v) => v,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Flt {
    Id,
    Rid,
    Up,
    Own,
    Len,
    Neg,
    Add,
    Cat,
    Pre,
    Range,
    Mk,
    /// A context for the next template of a chain.
    MkT,
    None,
    Fail,
    Keys,
    Rev,
    Pair,
    Trip,
    Quad,
    Quint,
    Truthy,
    Count,
    /// The piped value; the argument tells the calls apart.
    Sel,
    /// Returns its parameters; the signature is in sigs.rs.
    Sig(usize),
    /// Returns a constant; see RETS.
    Ret(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fmt {
    Show,
    Esc,
    Err,
    Err0,
    Twice,
    /// Writes pieces in all the ways there are; see [`script`].
    Script(u16),
    /// Ignores whether writing works, and then succeeds.
    Deaf,
    /// Reports something else when writing does not work.
    Cover,
    /// Writes on after writing did not work, and then fails.
    DeafErr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fun {
    F(Flt),
    P(Fmt),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum DefFmt {
    Builtin,
    Show,
    ErrOnNone,
    Esc,
    Err,
    Err0,
}

impl Flt {
    pub fn sig(self) -> &'static [Ty] {
        use Ty::*;
        match self {
            Flt::Id => &[Value],
            Flt::Rid => &[ValueRef],
            Flt::Up => &[Str],
            Flt::Own => &[String],
            Flt::Len => &[Str],
            Flt::Neg => &[Bool],
            Flt::Add => &[I64, I64],
            Flt::Cat => &[Str, String],
            Flt::Pre => &[String, Str],
            Flt::Range => &[I64],
            Flt::Mk | Flt::MkT => &[Value],
            Flt::None => &[Value],
            Flt::Fail => &[ValueRef],
            Flt::Keys => &[MapRef],
            Flt::Rev => &[ListRef],
            Flt::Pair => &[Value, Value],
            Flt::Sel => &[Value, I64],
            Flt::Trip => &[Value, Value, Value],
            Flt::Quad => &[Value, I64, String, Value],
            Flt::Quint => &[ValueRef, String, I64, Value, Str],
            Flt::Truthy => &[ValueRef],
            Flt::Count => &[ValueRef],
            Flt::Sig(i) => crate::sigs::SIGS[i].0,
            Flt::Ret(_) => &[ValueRef],
        }
    }
    /// What it computes, given arguments of the right types.
    pub fn call(self, a: &[V]) -> Result<V, String> {
        let s = |i: usize| match &a[i] {
            V::Str(s) => s.as_str(),
            _ => unreachable!(),
        };
        let n = |i: usize| match &a[i] {
            V::Int(n) => *n,
            _ => unreachable!(),
        };
        Ok(match self {
            Flt::Id | Flt::Rid | Flt::Sel => a[0].clone(),
            Flt::Up => V::Str(s(0).to_ascii_uppercase()),
            Flt::Own => V::Str(format!("{}!", s(0))),
            Flt::Len => V::Int(s(0).chars().count() as i64),
            Flt::Neg => match &a[0] {
                V::Bool(b) => V::Bool(!b),
                _ => unreachable!(),
            },
            Flt::Add => V::Int(n(0).wrapping_add(n(1))),
            Flt::Cat => V::Str(format!("{}{}", s(0), s(1))),
            Flt::Pre => V::Str(format!("{}{}", s(1), s(0))),
            Flt::Range => V::list((0..n(0).clamp(0, 4096)).map(V::Int)),
            Flt::Mk => V::map([("v", a[0].clone())]),
            Flt::MkT => V::map([("t", V::Bool(true)), ("l", V::list([V::Int(1)]))]),
            Flt::None => V::None,
            Flt::Fail => return Err(format!("boom {}", show(&a[0]))),
            Flt::Keys => match &a[0] {
                V::Map(m) => V::list(m.keys().map(|k| V::s(k))),
                _ => unreachable!(),
            },
            Flt::Rev => match &a[0] {
                V::List(l) => V::list(l.iter().rev().cloned()),
                _ => unreachable!(),
            },
            Flt::Ret(i) => return (RETS[i].0)().map_err(String::from),
            Flt::Sig(_) | Flt::Pair | Flt::Trip | Flt::Quad | Flt::Quint => V::list(a.iter().cloned()),
            Flt::Truthy => V::Bool(a[0].truthy()),
            Flt::Count => V::Int(match &a[0] {
                V::List(l) => l.len() as i64,
                V::Map(m) => m.len() as i64,
                _ => -1,
            }),
        })
    }
}

fn go(f: Flt, name: &str, args: Vec<V>) -> Result<Value, String> {
    event(|| call_event(name, &args));
    f.call(&args).map(|v| v.to_upon())
}
pub fn call_event(name: &str, args: &[V]) -> String {
    format!("{name}({})", args.iter().map(show).collect::<Vec<_>>().join(","))
}

fn lst(l: &[Value]) -> V {
    V::List(l.iter().map(V::from_upon).collect())
}
fn mp(m: &BTreeMap<String, Value>) -> V {
    V::Map(m.iter().map(|(k, v)| (k.clone(), V::from_upon(v))).collect())
}

impl Fmt {
    /// The pieces it writes, and how it ends.
    pub fn pieces(self, v: &V) -> (Vec<String>, Result<(), Option<String>>) {
        match self {
            Fmt::Show => (vec![show(v)], Ok(())),
            Fmt::Esc => {
                let s = v.plain().unwrap_or_else(|| show(v));
                let ps = s
                    .chars()
                    .map(|c| match c {
                        '<' => "&lt;".to_string(),
                        c => c.to_string(),
                    })
                    .collect();
                (ps, Ok(()))
            }
            Fmt::Err => (vec!["[part".into()], Err(Some("fmt boom".into()))),
            Fmt::Err0 => (vec![], Err(None)),
            Fmt::Script(n) => script(n, v),
            Fmt::Deaf | Fmt::Cover => (vec!["<<".into(), show(v), ">".into()], Ok(())),
            Fmt::DeafErr => (vec!["<<".into(), show(v), ">".into()], Err(Some("deaf".into()))),
            Fmt::Twice => {
                let s = show(v);
                (vec![s.clone(), "|".into(), s], Ok(()))
            }
        }
    }
}

/// The digits of a script, to base 8: what is written, then how it ends.
fn script(n: u16, v: &V) -> (Vec<String>, Result<(), Option<String>>) {
    let mut out = vec![];
    let mut n = n;
    while n >= 8 {
        match n % 8 {
            0 => out.push("é{{ x }}".into()),
            1 => out.push("日".into()),
            2 => out.push(String::new()),
            3 => out.push(format!("{:>7}|{:<3}", show(v), 5)),
            4 => match v.plain() {
                Some(s) => out.push(s),
                None => return (out, Err(Some("*".into()))),
            },
            5 => out.push("\n".into()),
            6 => out.push("a-b".into()),
            _ => out.extend(["\u{0}".to_string(), "\\".to_string()]),
        }
        n /= 8;
    }
    let r = match n {
        0 | 1 | 2 => Ok(()),
        3 => Err(Some("fmt: said {{ so }}\nyes".into())),
        4 => Err(Some(String::new())),
        _ => Err(None),
    };
    (out, r)
}
fn script_impl(n: u16, f: &mut upon::fmt::Formatter<'_>, v: &V) -> upon::fmt::Result {
    let mut n = n;
    while n >= 8 {
        match n % 8 {
            0 => f.write_str("é{{ x }}")?,
            1 => f.write_char('日')?,
            2 => f.write_str("")?,
            3 => write!(f, "{:>7}|{:<3}", show(v), 5)?,
            4 => upon::fmt::default(f, &v.to_upon())?,
            5 => writeln!(f)?,
            6 => {
                for c in "a-b".chars() {
                    f.write_char(c)?;
                }
            }
            _ => {
                f.write_char('\u{0}')?;
                f.write_str("\\")?;
            }
        }
        n /= 8;
    }
    match n {
        0 | 1 | 2 => Ok(()),
        3 => Err("fmt: said {{ so }}\nyes".into()),
        4 => Err(String::new().into()),
        _ => Err(std::fmt::Error.into()),
    }
}

fn fmt_impl(k: Fmt, name: &str, f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result {
    let v = V::from_upon(v);
    event(|| call_event(name, std::slice::from_ref(&v)));
    if let Fmt::Script(n) = k {
        return script_impl(n, f, &v);
    }
    let (ps, r) = k.pieces(&v);
    if matches!(k, Fmt::Deaf | Fmt::DeafErr) {
        for p in ps {
            let mut cs = p.chars();
            let _ = match (cs.next(), cs.next()) {
                (Some(c), None) => f.write_char(c),
                _ => write!(f, "{p}"),
            };
        }
        return r.map_err(|_| "deaf".into());
    }
    if k == Fmt::Cover {
        for p in ps {
            f.write_str(&p).map_err(|_| upon::fmt::Error::from("covered"))?;
        }
        return Ok(());
    }
    for p in ps {
        let mut cs = p.chars();
        match (cs.next(), cs.next()) {
            (Some(c), None) => f.write_char(c)?,
            _ => f.write_str(&p)?,
        }
    }
    match r {
        Ok(()) => Ok(()),
        Err(Some(m)) => Err(upon::fmt::Error::from(m)),
        Err(None) => Err(std::fmt::Error.into()),
    }
}

pub fn install(e: &mut upon::Engine<'_>, name: &str, fun: Fun) -> Option<upon::EngineFn> {
    let n = name.to_string();
    #[allow(unused)]
    let m = name.to_string();
    match fun {
        Fun::P(k) => e.add_formatter(n, move |f: &mut upon::fmt::Formatter<'_>, v: &Value| {
            fmt_impl(k, &m, f, v)
        }),
        #[cfg(not(feature = "filters"))]
        Fun::F(_) => None,
        #[cfg(feature = "filters")]
        Fun::F(k) => {
            let st = |s: &str| V::s(s);
            match k {
                Flt::Id | Flt::Mk | Flt::MkT | Flt::None => {
                    e.add_filter(n, move |v: Value| go(k, &m, vec![V::from_upon(&v)]))
                }
                Flt::Rid | Flt::Fail | Flt::Truthy | Flt::Count => {
                    e.add_filter(n, move |v: &Value| go(k, &m, vec![V::from_upon(v)]))
                }
                Flt::Up | Flt::Len => e.add_filter(n, move |s: &str| go(k, &m, vec![st(s)])),
                Flt::Own => e.add_filter(n, move |s: String| go(k, &m, vec![st(&s)])),
                Flt::Neg => e.add_filter(n, move |b: bool| go(k, &m, vec![V::Bool(b)])),
                Flt::Add => e.add_filter(n, move |a: i64, b: i64| {
                    go(k, &m, vec![V::Int(a), V::Int(b)])
                }),
                Flt::Cat => {
                    e.add_filter(n, move |a: &str, b: String| go(k, &m, vec![st(a), st(&b)]))
                }
                Flt::Pre => {
                    e.add_filter(n, move |a: String, b: &str| go(k, &m, vec![st(&a), st(b)]))
                }
                Flt::Range => e.add_filter(n, move |a: i64| go(k, &m, vec![V::Int(a)])),
                Flt::Keys => e.add_filter(n, move |a: &BTreeMap<String, Value>| {
                    go(k, &m, vec![mp(a)])
                }),
                Flt::Rev => e.add_filter(n, move |a: &[Value]| go(k, &m, vec![lst(a)])),
                Flt::Sig(i) => crate::sigs::SIGS[i].1(e, n, i),
                Flt::Ret(i) => RETS[i].1(e, n),
                Flt::Pair => e.add_filter(n, move |a: Value, b: Value| {
                    go(k, &m, vec![V::from_upon(&a), V::from_upon(&b)])
                }),
                Flt::Sel => e.add_filter(n, move |a: Value, b: i64| go(k, &m, vec![V::from_upon(&a), V::Int(b)])),
                Flt::Quad => e.add_filter(n, move |a: Value, b: i64, c: String, d: Value| {
                    go(k, &m, vec![V::from_upon(&a), V::Int(b), st(&c), V::from_upon(&d)])
                }),
                Flt::Quint => e.add_filter(n, move |a: &Value, b: String, c: i64, d: Value, x: &str| {
                    go(k, &m, vec![V::from_upon(a), st(&b), V::Int(c), V::from_upon(&d), st(x)])
                }),
                Flt::Trip => e.add_filter(n, move |a: Value, b: Value, c: Value| {
                    go(
                        k,
                        &m,
                        vec![V::from_upon(&a), V::from_upon(&b), V::from_upon(&c)],
                    )
                }),
            }
        }
    }
}

fn def_show(f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result {
    fmt_impl(Fmt::Show, "default", f, v)
}
fn def_err(f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result {
    match v {
        Value::None => Err("none!".into()),
        v => upon::fmt::default(f, v),
    }
}

fn def_esc(f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result {
    fmt_impl(Fmt::Esc, "default", f, v)
}
fn def_fail(f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result {
    fmt_impl(Fmt::Err, "default", f, v)
}
fn def_fail0(f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result {
    fmt_impl(Fmt::Err0, "default", f, v)
}

impl DefFmt {
    /// The formatter of [`Fmt`] it is, with its calls traced.
    pub fn traced(self) -> Option<Fmt> {
        match self {
            DefFmt::Show => Some(Fmt::Show),
            DefFmt::Esc => Some(Fmt::Esc),
            DefFmt::Err => Some(Fmt::Err),
            DefFmt::Err0 => Some(Fmt::Err0),
            DefFmt::Builtin | DefFmt::ErrOnNone => None,
        }
    }
    pub fn install(self, e: &mut upon::Engine<'_>) {
        match self {
            DefFmt::Builtin => {}
            DefFmt::Show => e.set_default_formatter(&def_show),
            DefFmt::ErrOnNone => e.set_default_formatter(&def_err),
            DefFmt::Esc => e.set_default_formatter(&def_esc),
            DefFmt::Err => e.set_default_formatter(&def_fail),
            DefFmt::Err0 => e.set_default_formatter(&def_fail0),
        }
    }
    pub fn pieces(self, v: &V) -> (Vec<String>, Result<(), Option<String>>) {
        if let Some(k) = self.traced() {
            return k.pieces(v);
        }
        match self {
            DefFmt::ErrOnNone if *v == V::None => (vec![], Err(Some("none!".into()))),
            _ => match v.plain() {
                Some(s) => (vec![s], Ok(())),
                // The wording is the implementation's.
                None => (vec![], Err(Some("*".into()))),
            },
        }
    }
}

/// What the filters of sigs.rs do.
pub fn ret(i: usize, name: &str, args: Vec<V>) -> Result<Value, String> {
    go(Flt::Sig(i), name, args)
}

/// A parameter as a value.
pub trait ToV {
    fn v(self) -> V;
}
macro_rules! int_to_v {
    ($($t:ty)*) => { $(impl ToV for $t {
        fn v(self) -> V {
            V::Int(i64::try_from(self).expect("came from 64 bits"))
        }
    })* };
}
int_to_v! { u8 u16 u32 u64 u128 usize i8 i16 i32 i64 isize i128 }
macro_rules! to_v {
    ($($t:ty: $x:ident => $e:expr;)*) => { $(impl ToV for $t {
        fn v(self) -> V {
            let $x = self;
            $e
        }
    })* };
}
to_v! {
    (): _x => V::None;
    bool: x => V::Bool(x);
    f32: x => V::Float(f64::from(x));
    f64: x => V::Float(x);
    String: x => V::Str(x);
    &str: x => V::s(x);
    Vec<Value>: x => lst(&x);
    &[Value]: x => lst(x);
    BTreeMap<String, Value>: x => mp(&x);
    &BTreeMap<String, Value>: x => mp(x);
    Value: x => V::from_upon(&x);
    &Value: x => V::from_upon(x);
}

type Want = fn() -> Result<V, &'static str>;
type Add = fn(&mut upon::Engine<'_>, String) -> Option<upon::EngineFn>;
macro_rules! rets {
    ($($want:expr => $t:ty = $e:expr;)*) => {
        /// Filters that return a constant of some type, and what it is.
        #[cfg(not(feature = "filters"))]
        pub const RETS: &[(Want, Add)] = &[];
        #[cfg(feature = "filters")]
        pub const RETS: &[(Want, Add)] = &[$((|| $want, |e, n| {
            let m = n.clone();
            e.add_filter(n, move |v: &Value| -> $t {
                event(|| call_event(&m, &[V::from_upon(v)]));
                $e
            })
        })),*];
    };
}
rets! {
    Ok(V::None) => () = ();
    Ok(V::Bool(true)) => bool = true;
    Ok(V::Bool(false)) => bool = false;
    Ok(V::Int(255)) => u8 = u8::MAX;
    Ok(V::Int(65535)) => u16 = u16::MAX;
    Ok(V::Int(4294967295)) => u32 = u32::MAX;
    Ok(V::Int(-128)) => i8 = i8::MIN;
    Ok(V::Int(-32768)) => i16 = i16::MIN;
    Ok(V::Int(-2147483648)) => i32 = i32::MIN;
    Ok(V::Int(i64::MIN)) => i64 = i64::MIN;
    Ok(V::Int(i64::MAX)) => i64 = i64::MAX;
    Ok(V::Float(0.5)) => f32 = 0.5;
    Ok(V::Float(f64::from(0.1f32))) => f32 = 0.1;
    Ok(V::Float(f64::MAX)) => f64 = f64::MAX;
    Ok(V::Float(f64::NAN)) => f64 = f64::NAN;
    Ok(V::s("é s")) => String = "é s".to_string();
    Ok(V::s("static")) => &'static str = "static";
    Ok(V::s("cow")) => std::borrow::Cow<'static, str> = std::borrow::Cow::Borrowed("cow");
    Ok(V::s("woc")) => std::borrow::Cow<'static, str> = std::borrow::Cow::Owned("woc".into());
    Ok(V::list([V::Int(1), V::Int(2), V::Int(3)])) => Vec<i32> = vec![1, 2, 3];
    Ok(V::list([])) => Vec<Value> = vec![];
    Ok(V::list([V::s("a"), V::s("b")])) => [&'static str; 2] = ["a", "b"];
    Ok(V::list([V::list([V::Bool(true)]), V::list([])])) => Vec<Vec<bool>> = vec![vec![true], vec![]];
    Ok(V::map([("a", V::Int(1)), ("b", V::Int(2))])) => BTreeMap<&'static str, i64> = BTreeMap::from([("b", 2), ("a", 1)]);
    Ok(V::map([("a", V::s("x")), ("b", V::s("y"))])) => std::collections::HashMap<String, String> = [("b", "y"), ("a", "x")].into_iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    Ok(V::map([("a", V::Int(3)), ("b", V::Int(2))])) => [(&'static str, i64); 3] = [("a", 1), ("b", 2), ("a", 3)];
    Ok(V::None) => Option<i64> = None;
    Ok(V::Int(0)) => Option<i64> = Some(0);
    Ok(V::None) => Option<Option<bool>> = Some(None);
    Ok(V::list([V::None, V::Int(1)])) => Vec<Option<u8>> = vec![None, Some(1)];
    Ok(V::Float(1.5)) => Value = Value::Float(1.5);
    Ok(V::Int(7)) => Result<i64, String> = Ok(7);
    Ok(V::None) => Result<(), &'static str> = Ok(());
    Ok(V::None) => Result<Option<String>, &'static str> = Ok(None);
    Err("owned message") => Result<i64, String> = Err("owned message".to_string());
    Err("static message: é") => Result<Value, &'static str> = Err("static message: é");
    Err("") => Result<(), String> = Err(String::new());
    Err("two\nlines") => Result<Vec<u8>, &'static str> = Err("two\nlines");
}

/// Every function under its usual name.
pub const STD: &[(&str, Fun)] = &[
    ("id", Fun::F(Flt::Id)),
    ("rid", Fun::F(Flt::Rid)),
    ("up", Fun::F(Flt::Up)),
    ("own", Fun::F(Flt::Own)),
    ("len", Fun::F(Flt::Len)),
    ("neg", Fun::F(Flt::Neg)),
    ("add", Fun::F(Flt::Add)),
    ("cat", Fun::F(Flt::Cat)),
    ("pre", Fun::F(Flt::Pre)),
    ("range", Fun::F(Flt::Range)),
    ("mk", Fun::F(Flt::Mk)),
    ("none", Fun::F(Flt::None)),
    ("fail", Fun::F(Flt::Fail)),
    ("keys", Fun::F(Flt::Keys)),
    ("rev", Fun::F(Flt::Rev)),
    ("pair", Fun::F(Flt::Pair)),
    ("trip", Fun::F(Flt::Trip)),
    ("quad", Fun::F(Flt::Quad)),
    ("quint", Fun::F(Flt::Quint)),
    ("truthy", Fun::F(Flt::Truthy)),
    ("count", Fun::F(Flt::Count)),
    ("sel", Fun::F(Flt::Sel)),
    ("show", Fun::P(Fmt::Show)),
    ("esc", Fun::P(Fmt::Esc)),
    ("ferr", Fun::P(Fmt::Err)),
    ("ferr0", Fun::P(Fmt::Err0)),
    ("twice", Fun::P(Fmt::Twice)),
    ("deaf", Fun::P(Fmt::Deaf)),
    ("cover", Fun::P(Fmt::Cover)),
    ("deaferr", Fun::P(Fmt::DeafErr)),
];
