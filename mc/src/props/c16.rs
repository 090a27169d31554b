//! C16: what Rust data becomes.

use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, LinkedList, VecDeque};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde::ser::{
    SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct,
    SerializeTupleVariant,
};
use serde::{Serialize, Serializer};
use upon::Value;

use crate::explore::{fnv, Ch, Rec, FNV0};
use crate::funcs::{install, show, Fmt, Fun};
use crate::model::interp::Kind;
use crate::props::gen::SIZES;
use crate::run::{clip, panic_text, parse_err};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        level: "model_checking",
        rule: "every tree of calls to a serializer within the bounds, and every conversion of the listed types and values, is replayed on the implementation; the specified value is computed from the tree; a state is a tree",
        scenarios: vec![
            Scenario { name: "leaves", body: leaves },
            Scenario { name: "trees", body: trees },
            Scenario { name: "keys", body: keys },
            Scenario { name: "fields", body: fields },
            Scenario { name: "sizes", body: sizes },
            Scenario { name: "errors", body: errors },
            Scenario { name: "ints", body: ints },
            Scenario { name: "floats", body: floats },
            Scenario { name: "chars", body: chars },
            Scenario { name: "from", body: from },
            Scenario { name: "values", body: values },
            Scenario { name: "deep", body: deep },
        ],
        apart: &[],
    }
}

/// Calls to a serializer.
#[derive(Clone, Debug)]
enum T {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    /// `collect_str`.
    Display(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<T>),
    Unit,
    UnitStruct,
    UnitVariant(&'static str),
    Newtype(Box<T>),
    NewtypeVariant(&'static str, Box<T>),
    /// The length that is announced, if any.
    Seq(Option<usize>, Vec<T>),
    Tuple(Vec<T>),
    TupleStruct(Vec<T>),
    TupleVariant(&'static str, Vec<T>),
    /// With keys and values given at once, or one after the other.
    Map(bool, Vec<(T, T)>),
    Struct(Vec<(&'static str, T)>),
    /// Some fields are skipped.
    StructVariant(&'static str, Vec<(&'static str, T)>),
    Fail(&'static str),
    /// Asks whether the format is human readable.
    Readable,
}

impl Serialize for T {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            T::Bool(v) => s.serialize_bool(*v),
            T::I8(v) => s.serialize_i8(*v),
            T::I16(v) => s.serialize_i16(*v),
            T::I32(v) => s.serialize_i32(*v),
            T::I64(v) => s.serialize_i64(*v),
            T::I128(v) => s.serialize_i128(*v),
            T::U8(v) => s.serialize_u8(*v),
            T::U16(v) => s.serialize_u16(*v),
            T::U32(v) => s.serialize_u32(*v),
            T::U64(v) => s.serialize_u64(*v),
            T::U128(v) => s.serialize_u128(*v),
            T::F32(v) => s.serialize_f32(*v),
            T::F64(v) => s.serialize_f64(*v),
            T::Char(v) => s.serialize_char(*v),
            T::Str(v) => s.serialize_str(v),
            T::Display(v) => s.collect_str(v),
            T::Bytes(v) => s.serialize_bytes(v),
            T::None => s.serialize_none(),
            T::Some(v) => s.serialize_some(&**v),
            T::Unit => s.serialize_unit(),
            T::UnitStruct => s.serialize_unit_struct("US"),
            T::UnitVariant(n) => s.serialize_unit_variant("E", 3, n),
            T::Newtype(v) => s.serialize_newtype_struct("NT", &**v),
            T::NewtypeVariant(n, v) => s.serialize_newtype_variant("E", 1, n, &**v),
            T::Seq(n, v) => {
                let mut q = s.serialize_seq(*n)?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            T::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            T::TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("TS", v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            T::TupleVariant(n, v) => {
                let mut q = s.serialize_tuple_variant("E", 0, n, v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            T::Map(at_once, v) => {
                let mut q = s.serialize_map(at_once.then_some(v.len()))?;
                for (k, x) in v {
                    if *at_once {
                        q.serialize_entry(k, x)?;
                    } else {
                        q.serialize_key(k)?;
                        q.serialize_value(x)?;
                    }
                }
                q.end()
            }
            T::Struct(v) => {
                let mut q = s.serialize_struct("ST", v.len())?;
                for (k, x) in v {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
            T::StructVariant(n, v) => {
                let mut q = s.serialize_struct_variant("E", 2, n, v.len())?;
                for (k, x) in v {
                    q.skip_field("skipped")?;
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
            T::Fail(m) => Err(serde::ser::Error::custom(m)),
            T::Readable => {
                let b = s.is_human_readable();
                s.serialize_bool(b)
            }
        }
    }
}

/// A value, or the message of the error if it is a user's; `Wide` is an
/// integer of a kind that may be supported or not.
#[derive(Clone, Debug)]
enum Bad {
    Own(Option<&'static str>),
    Wide,
}

impl T {
    fn value(&self) -> Result<V, Bad> {
        let all = |v: &[T]| v.iter().map(T::value).collect::<Result<Vec<V>, Bad>>().map(V::List);
        let fields = |v: &[(&'static str, T)]| {
            let mut m = BTreeMap::new();
            for (k, x) in v {
                m.insert(k.to_string(), x.value()?);
            }
            Ok(V::Map(m))
        };
        Ok(match self {
            T::Bool(v) => V::Bool(*v),
            T::I8(v) => V::Int(*v as i64),
            T::I16(v) => V::Int(*v as i64),
            T::I32(v) => V::Int(*v as i64),
            T::I64(v) => V::Int(*v),
            T::U8(v) => V::Int(*v as i64),
            T::U16(v) => V::Int(*v as i64),
            T::U32(v) => V::Int(*v as i64),
            T::U64(v) if *v > i64::MAX as u64 => return Err(Bad::Own(None)),
            T::U64(v) => V::Int(*v as i64),
            T::I128(v) if *v > i64::MAX as i128 || *v < i64::MIN as i128 => return Err(Bad::Own(None)),
            T::U128(v) if *v > i64::MAX as u128 => return Err(Bad::Own(None)),
            T::I128(_) | T::U128(_) => return Err(Bad::Wide),
            T::F32(v) => V::Float(*v as f64),
            T::F64(v) => V::Float(*v),
            T::Char(v) => V::Str(v.to_string()),
            T::Str(v) | T::Display(v) => V::Str(v.clone()),
            T::Bytes(v) => V::List(v.iter().map(|b| V::Int(*b as i64)).collect()),
            T::None | T::Unit | T::UnitStruct => V::None,
            T::Some(v) | T::Newtype(v) => v.value()?,
            T::UnitVariant(n) => V::s(n),
            T::NewtypeVariant(n, v) => V::map([(*n, v.value()?)]),
            T::Seq(_, v) | T::Tuple(v) | T::TupleStruct(v) => all(v)?,
            T::TupleVariant(n, v) => V::map([(*n, all(v)?)]),
            T::Map(_, v) => {
                let mut m = BTreeMap::new();
                for (k, x) in v {
                    let k = k.key()?;
                    m.insert(k, x.value()?);
                }
                V::Map(m)
            }
            T::Struct(v) => fields(v)?,
            T::StructVariant(n, v) => V::map([(*n, fields(v)?)]),
            T::Fail(m) => return Err(Bad::Own(Some(m))),
            T::Readable => V::Bool(true),
        })
    }
    fn key(&self) -> Result<String, Bad> {
        Ok(match self {
            T::I8(v) => v.to_string(),
            T::I16(v) => v.to_string(),
            T::I32(v) => v.to_string(),
            T::I64(v) => v.to_string(),
            T::U8(v) => v.to_string(),
            T::U16(v) => v.to_string(),
            T::U32(v) => v.to_string(),
            T::U64(v) => v.to_string(),
            T::I128(_) | T::U128(_) => return Err(Bad::Wide),
            T::Char(v) => v.to_string(),
            T::Str(v) | T::Display(v) => v.clone(),
            T::UnitVariant(n) => n.to_string(),
            T::Newtype(v) => v.key()?,
            T::Fail(m) => return Err(Bad::Own(Some(m))),
            _ => return Err(Bad::Own(None)),
        })
    }
    fn hash(&self) -> u64 {
        fnv(FNV0, format!("{self:?}").as_bytes())
    }
}

fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| format!("panicked: {}", panic_text(e)))
}

/// A serialize error, with this message if it is given.
fn refused(e: &upon::Error, message: Option<&str>) -> Result<(), String> {
    let i = parse_err(e, false);
    if i.kind != Kind::Serialize {
        return Err(format!("the kind of error is {:?}", i.kind));
    }
    match message {
        Some(m) if i.reason.as_deref() != Some(m) => Err(format!("the message is {:?} instead of {m:?}", i.reason)),
        _ => Ok(()),
    }
}

/// To a value, as part of a context, and as a context.
fn check(t: &T, rec: &mut Rec) -> Result<(), String> {
    rec.traces += 1;
    rec.transitions += 1;
    rec.state(t.hash());
    let want = t.value();
    let what = || clip(&format!("{t:?}"));
    let got = quiet(|| upon::to_value(t)).map_err(|e| format!("to_value of {} {e}", what()))?;
    let v = match (&want, &got) {
        (Ok(w), Ok(g)) if *w == V::from_upon(g) => w,
        (Err(Bad::Own(m)), Err(e)) => return refused(e, *m).map_err(|e| format!("{}: {e}", what())),
        (Err(Bad::Wide), Err(e)) => return refused(e, None).map_err(|e| format!("{}: {e}", what())),
        (Err(Bad::Wide), Ok(_)) => return Ok(()),
        _ => return Err(format!("{} is {got:?} instead of {want:?}", what())),
    };
    rec.nontrivial += 1;
    rec.sample(|| format!("{} => {v:?}", what()));
    // By reference.
    let again = quiet(|| upon::to_value(&&t)).map_err(|e| format!("to_value of {} {e}", what()))?;
    if again.as_ref().ok().map(V::from_upon).as_ref() != Some(v) {
        return Err(format!("a reference to {} is {again:?}", what()));
    }
    // In a template.
    let mut e = upon::Engine::new();
    install(&mut e, "show", Fun::P(Fmt::Show));
    let tpl = e.compile("{{ x | show }}").unwrap();
    let want = show(v);
    let ctx = T::Struct(vec![("x", t.clone())]);
    let a = quiet(|| tpl.render(&e, &ctx).to_string()).map_err(|e| format!("rendering {} {e}", what()))?;
    let hand = Value::from([("x", got.unwrap())]);
    let b = quiet(|| tpl.render_from(&e, &hand).to_string()).map_err(|e| format!("rendering {} {e}", what()))?;
    let (a, b) = (a.map_err(|e| e.to_string()), b.map_err(|e| e.to_string()));
    if a.as_ref() != Ok(&want) || b.as_ref() != Ok(&want) {
        return Err(format!("{} renders as {a:?} and, by hand, {b:?} instead of {want:?}", what()));
    }
    Ok(())
}

fn all_leaves() -> Vec<T> {
    let mut v = vec![
        T::Bool(false),
        T::Bool(true),
        T::None,
        T::Unit,
        T::UnitStruct,
        T::Readable,
        T::Bytes(vec![]),
        T::Bytes(vec![0, 1, 127, 128, 255]),
    ];
    v.extend([i8::MIN, -1, 0, 1, i8::MAX].map(T::I8));
    v.extend([i16::MIN, -129, -128, 127, 128, 255, 256, i16::MAX].map(T::I16));
    v.extend([i32::MIN, -32769, 0, 32768, 65535, 65536, i32::MAX].map(T::I32));
    v.extend([i64::MIN, i64::MIN + 1, -(1 << 53) - 1, -(1 << 31) - 1, -1, 0, 1, 1 << 31, 1 << 32, (1 << 53) + 1, i64::MAX - 1, i64::MAX].map(T::I64));
    v.extend([0, 127, 128, 255].map(T::U8));
    v.extend([0, 255, 256, 32767, 32768, 65535].map(T::U16));
    v.extend([0, 65536, 1 << 31, (1 << 31) - 1, u32::MAX].map(T::U32));
    v.extend([0, 1 << 32, (1 << 53) + 1, i64::MAX as u64 - 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX].map(T::U64));
    v.extend([i128::MIN, i64::MIN as i128 - 1, i64::MIN as i128, -1, 0, i64::MAX as i128, i64::MAX as i128 + 1, i128::MAX].map(T::I128));
    v.extend([0, 1, i64::MAX as u128, i64::MAX as u128 + 1, u64::MAX as u128, 1 << 64, u128::MAX].map(T::U128));
    v.extend([0.0, -0.0, 1.5, f32::MIN_POSITIVE, f32::from_bits(1), f32::MAX, f32::MIN, f32::EPSILON, 0.1, f32::INFINITY, f32::NEG_INFINITY, 16777217.0].map(T::F32));
    v.extend([0.0, -0.0, 1.0, 0.1, -1e300, 5e-324, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, 1e16, f64::INFINITY, f64::NEG_INFINITY, f64::NAN].map(T::F64));
    v.extend(['\0', 'a', '\n', '"', 'é', '日', '\u{10ffff}', '\u{d7ff}', '\u{301}'].map(T::Char));
    for s in ["", "a", " a ", "0", "true", "none", "{{ x }}", "a\0b", "\"\\", "日本", "\r\n", "e\u{301}"] {
        v.push(T::Str(s.into()));
        v.push(T::Display(s.into()));
    }
    v.extend(["", "A", "some_variant", "é", "x y"].map(T::UnitVariant));
    v
}
fn some_leaves() -> Vec<T> {
    vec![
        T::Bool(true),
        T::I8(-3),
        T::U64(7),
        T::U64(u64::MAX),
        T::F32(0.1),
        T::Char('é'),
        T::Str("s".into()),
        T::Bytes(vec![1, 255]),
        T::None,
        T::Unit,
        T::UnitStruct,
        T::UnitVariant("V"),
        T::Fail("own: message"),
    ]
}
fn few_leaves() -> Vec<T> {
    vec![T::I64(1), T::Str("s".into()), T::None, T::Fail("nope")]
}

/// A tree of at most this depth.
fn tree(ch: &mut Ch, depth: usize, wide: usize, leaves: &[Vec<T>]) -> T {
    let l = &leaves[depth.min(leaves.len() - 1)];
    if depth == 0 {
        return ch.pick(l).clone();
    }
    let i = ch.n(l.len() + 13);
    if i < l.len() {
        return l[i].clone();
    }
    let one = |ch: &mut Ch| Box::new(tree(ch, depth - 1, wide, leaves));
    let many = |ch: &mut Ch| (0..ch.range(0, wide)).map(|_| tree(ch, depth - 1, wide, leaves)).collect::<Vec<_>>();
    let fields = |ch: &mut Ch| {
        let n = ch.range(0, wide);
        let names = if n > 1 { *ch.pick(&[&["a", "b"], &["b", "a"], &["a", "a"]]) } else { &["a", "b"] };
        (0..n).map(|i| (names[i], tree(ch, depth - 1, wide, leaves))).collect::<Vec<_>>()
    };
    match i - l.len() {
        0 => T::Some(one(ch)),
        1 => T::Newtype(one(ch)),
        2 => T::NewtypeVariant("N", one(ch)),
        3 => {
            let v = many(ch);
            T::Seq(None, v)
        }
        4 => {
            let v = many(ch);
            T::Seq(Some(v.len()), v)
        }
        5 => T::Tuple(many(ch)),
        6 => T::TupleStruct(many(ch)),
        7 => T::TupleVariant("TV", many(ch)),
        8 | 9 => T::Map(i - l.len() == 8, fields(ch).into_iter().map(|(k, v)| (T::Str(k.into()), v)).collect()),
        10 => T::Struct(fields(ch)),
        11 => T::StructVariant("SV", fields(ch)),
        _ => T::Map(true, vec![(*one(ch), *one(ch))]),
    }
}

fn leaves(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let l = all_leaves();
    let t = ch.pick(&l).clone();
    let b = |t| Box::new(t);
    let t = match ch.n(9) {
        0 => t,
        1 => T::Some(b(t)),
        2 => T::Newtype(b(t)),
        3 => T::NewtypeVariant("V", b(t)),
        4 => T::Seq(Some(1), vec![t]),
        5 => T::Map(true, vec![(T::Str("k".into()), t)]),
        6 => T::TupleVariant("V", vec![t]),
        7 => T::StructVariant("V", vec![("f", t)]),
        _ => T::Map(false, vec![(t, T::Bool(true))]),
    };
    check(&t, rec)
}

fn trees(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let t = if rec.thorough() {
        match ch.n(2) {
            0 => tree(ch, 2, 2, &[some_leaves().into_iter().step_by(2).collect(), few_leaves(), few_leaves()]),
            _ => tree(ch, 3, 1, &[vec![T::I64(1)], vec![T::Str("s".into())], vec![T::None], vec![T::Unit]]),
        }
    } else {
        tree(ch, 2, 2, &[few_leaves(), vec![T::I8(5), T::Unit], few_leaves()])
    };
    check(&t, rec)
}

/// Keys of every kind, several of them, equal or not.
fn keys(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut ks = all_leaves();
    let b = |t| Box::new(t);
    ks.extend([
        T::Some(b(T::Str("k".into()))),
        T::Newtype(b(T::Str("k".into()))),
        T::Newtype(b(T::Newtype(b(T::U8(1))))),
        T::Newtype(b(T::Bool(true))),
        T::NewtypeVariant("k", b(T::Str("k".into()))),
        T::Seq(Some(0), vec![]),
        T::Seq(Some(1), vec![T::Str("k".into())]),
        T::Tuple(vec![T::Str("k".into())]),
        T::TupleStruct(vec![T::Str("k".into())]),
        T::TupleVariant("k", vec![]),
        T::Map(true, vec![]),
        T::Struct(vec![]),
        T::StructVariant("k", vec![]),
        T::Fail("a key: fails"),
    ]);
    let n = ch.range(1, 2);
    let m: Vec<(T, T)> = (0..n).map(|i| (ch.pick(&ks).clone(), T::I8(i as i8))).collect();
    check(&T::Map(n == 1 && ch.flag(), m), rec)
}

/// Keys that are text reach the template under exactly that name.
fn fields(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const NAMES: &[&str] = &["a", "ab", "A", "_", "a1", "é", "日本", "self", "type", "r#in", "loop", "true", "not", "a b", "", "0", "a.b"];
    let n = ch.range(0, 3);
    let f: Vec<(&str, T)> = (0..n).map(|i| (NAMES[ch.n(NAMES.len())], T::U32(i as u32))).collect();
    let t = match ch.n(3) {
        0 => T::Struct(f),
        1 => T::StructVariant("v", f),
        _ => T::Map(ch.flag(), f.into_iter().map(|(k, v)| (T::Str(k.into()), v)).collect()),
    };
    check(&t, rec)
}

fn sizes(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = *ch.pick(SIZES);
    let l: Vec<T> = (0..n).map(|i| T::U32(i as u32)).collect();
    let t = match ch.n(11) {
        0 => T::Seq(None, l),
        1 => T::Seq(Some(n), l),
        2 => T::Seq(Some(n / 2), l),
        3 => T::Seq(Some(2 * n + 1), l),
        4 => T::Tuple(l),
        5 => T::TupleStruct(l),
        6 => T::TupleVariant("V", l),
        7 => T::Map(true, l.into_iter().map(|x| (T::Str(format!("{x:?}")), x)).collect()),
        8 => T::Map(false, l.into_iter().rev().map(|x| (x.clone(), x)).collect()),
        9 => T::Bytes((0..n).map(|i| (i * 7) as u8).collect()),
        _ => T::Str("é".repeat(n)),
    };
    check(&t, rec)
}

struct Count(usize);
impl Write for Count {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A context that cannot be represented is an error of rendering, and nothing
/// is rendered.
fn errors(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const MSG: &[&str] = &["nope", "", "a: b", "日本\nsecond line"];
    let leaf = match ch.n(MSG.len() + 4) {
        i if i < MSG.len() => T::Fail(MSG[i]),
        i => [T::U64(u64::MAX), T::I128(i128::MIN), T::Map(true, vec![(T::Bool(true), T::Unit)]), T::Map(true, vec![(T::None, T::Unit)])]
            [i - MSG.len()]
            .clone(),
    };
    let b = Box::new;
    let ok = || T::Str("fine".into());
    let t = match ch.n(14) {
        0 => leaf,
        1 => T::Some(b(leaf)),
        2 => T::Newtype(b(leaf)),
        3 => T::NewtypeVariant("V", b(leaf)),
        4 => T::Seq(None, vec![ok(), leaf, ok()]),
        5 => T::Tuple(vec![leaf, ok()]),
        6 => T::TupleStruct(vec![ok(), leaf]),
        7 => T::TupleVariant("V", vec![ok(), leaf]),
        8 => T::Map(true, vec![(T::Str("x".into()), ok()), (T::Str("y".into()), leaf)]),
        9 => T::Map(false, vec![(T::Str("x".into()), leaf)]),
        10 => T::Map(true, vec![(leaf, ok())]),
        11 => T::Map(false, vec![(T::Str("x".into()), ok()), (leaf, ok())]),
        12 => T::Struct(vec![("x", ok()), ("unused", leaf)]),
        _ => T::StructVariant("x", vec![("y", leaf)]),
    };
    check(&t, rec)?;
    let message = match t.value() {
        Err(Bad::Own(m)) => m,
        Err(Bad::Wide) => return Ok(()),
        Ok(_) => return Ok(()),
    };
    let src = *ch.pick(&["plain", "{{ x }}", "", "a{{ x.y | nosuch }}"]);
    let mut e = upon::Engine::new();
    e.add_template("t", src).unwrap();
    let compiled = e.compile(src).unwrap();
    let how = ch.n(4);
    let mut w = Count(0);
    let got = quiet(|| match how {
        0 => compiled.render(&e, &t).to_string().map(|_| ()),
        1 => e.template("t").render(&t).to_string().map(|_| ()),
        2 => compiled.render(&e, &t).to_writer(&mut w),
        _ => e.template("t").render(&t).to_writer(&mut w),
    })
    .map_err(|e| format!("rendering {src:?} with {t:?} {e}"))?;
    rec.outcome(fnv(FNV0, format!("{:?}", got.as_ref().err().map(|e| e.to_string())).as_bytes()));
    match got {
        Ok(()) => Err(format!("rendering {src:?} with {t:?} succeeds")),
        Err(e) => refused(&e, message).map_err(|e| format!("rendering {src:?} with {t:?}: {e}")),
    }?;
    if w.0 > 0 {
        return Err(format!("rendering {src:?} with {t:?} writes {} bytes", w.0));
    }
    Ok(())
}

fn same(what: &str, got: Result<Value, upon::Error>, want: &V) -> Result<(), String> {
    match got {
        Ok(v) if V::from_upon(&v) == *want => Ok(()),
        r => Err(format!("{what} is {r:?} instead of {want:?}")),
    }
}

/// Every integer of up to 16 bits, and those around every power of two.
fn ints(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let what = ch.n(3);
    let mut n = 0u64;
    let mut one = |x: i128| -> Result<(), String> {
        macro_rules! try_as {
            ($($t:ty),*) => {$(
                if let Ok(y) = <$t>::try_from(x) {
                    n += 1;
                    let want = V::Int(x as i64);
                    let name = stringify!($t);
                    same(&format!("to_value of {name} {y}"), upon::to_value(y), &want)?;
                    same(&format!("Value::from {name} {y}"), Ok(Value::from(y)), &want)?;
                    let key = upon::to_value(BTreeMap::from([(y, y)]));
                    same(&format!("a map with the key {name} {y}"), key, &V::map([(y.to_string(), want)]))?;
                }
            )*};
        }
        try_as!(i8, u8, i16, u16, i32, u32, i64);
        macro_rules! only_serde {
            ($($t:ty),*) => {$(
                if let Ok(y) = <$t>::try_from(x) {
                    n += 1;
                    let name = stringify!($t);
                    let got = upon::to_value(y);
                    match (i64::try_from(x), got) {
                        (Ok(i), got) => same(&format!("to_value of {name} {y}"), got, &V::Int(i))?,
                        (Err(_), Err(e)) => refused(&e, None).map_err(|e| format!("to_value of {name} {y}: {e}"))?,
                        (_, got) => return Err(format!("to_value of {name} {y} is {got:?}")),
                    }
                    let key = upon::to_value(HashMap::from([(y, ())]));
                    same(&format!("a map with the key {name} {y}"), key, &V::map([(y.to_string(), V::None)]))?;
                }
            )*};
        }
        only_serde!(u64, usize, isize);
        Ok(())
    };
    match what {
        0 => {
            let lo = ch.n(64) as i128 * 1024 - 32768;
            (lo..lo + 1024).try_for_each(&mut one)?;
        }
        1 => {
            let lo = 32768 + ch.n(32) as i128 * 1024;
            (lo..lo + 1024).try_for_each(&mut one)?;
        }
        _ => {
            let bit = ch.range(16, 64) as u32;
            for sign in [-1, 1] {
                for d in -300..=300 {
                    one(sign * (1i128 << bit) + d)?;
                    one(sign * ((1i128 << bit) + (1i128 << (bit - 3))) + d)?;
                }
            }
        }
    }
    rec.traces += n;
    rec.transitions += n;
    rec.nontrivial += 1;
    Ok(())
}

/// Floats of every exponent and sign, with mantissas of all shapes.
fn floats(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let sign = ch.n(2) as u64;
    let part = ch.n(64) as u64;
    let mut n = 0;
    for e in part * 32..part * 32 + 32 {
        for m in [0, 1, 2, 3, 0xf_ffff_ffff_ffff, 0x8_0000_0000_0000, 0x8_0000_0000_0001, 0x5_5555_5555_5555, 1 << 29, 1 << 28] {
            let f = f64::from_bits(sign << 63 | e << 52 | m);
            same(&format!("to_value of {f:?}"), upon::to_value(f), &V::Float(f))?;
            same(&format!("Value::from {f:?}"), Ok(Value::from(f)), &V::Float(f))?;
            n += 1;
        }
    }
    let step = if rec.thorough() { 1 } else { 97 };
    for hi in (part << 25 | sign << 31..(part + 1) << 25 | sign << 31).step_by(step * 64) {
        for lo in 0..if rec.thorough() { 64 } else { 1 } {
            let f = f32::from_bits((hi + lo) as u32);
            if f.is_nan() {
                continue;
            }
            let a = upon::to_value(f);
            let b = Value::from(f);
            let ok = |v: &Value| matches!(v, Value::Float(g) if *g as f32 == f && g.to_bits() == (f as f64).to_bits());
            if !a.as_ref().map_or(false, ok) || !ok(&b) {
                return Err(format!("the f32 {f:?} is {a:?} and, converted, {b:?}"));
            }
            n += 1;
        }
    }
    rec.traces += n;
    rec.transitions += n;
    rec.nontrivial += 1;
    Ok(())
}

/// Every character.
fn chars(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let block = ch.n(0x110) as u32;
    let mut n = 0;
    for c in (block << 12..(block + 1) << 12).filter_map(char::from_u32) {
        let want = V::Str(c.to_string());
        same(&format!("to_value of {c:?}"), upon::to_value(c), &want)?;
        let s = c.to_string();
        same(&format!("to_value of the text {c:?}"), upon::to_value(&s), &want)?;
        same(&format!("Value::from {c:?}"), Ok(Value::from(s.as_str())), &want)?;
        let key = upon::to_value(BTreeMap::from([(c, s.clone())]));
        same(&format!("a map with the key {c:?}"), key, &V::map([(s, want)]))?;
        n += 4;
    }
    rec.traces += n;
    rec.transitions += n;
    Ok(())
}

/// Ordinary types, converted and serialized.
fn from(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let mut cases: Vec<(&str, Option<Value>, Option<Result<Value, upon::Error>>, V)> = vec![];
    macro_rules! both {
        ($e:expr, $want:expr) => {
            cases.push((stringify!($e), Some(Value::from($e)), Some(upon::to_value($e)), $want))
        };
    }
    macro_rules! conv {
        ($e:expr, $want:expr) => {
            cases.push((stringify!($e), Some(Value::from($e)), None, $want))
        };
    }
    macro_rules! ser {
        ($e:expr, $want:expr) => {
            cases.push((stringify!($e), None, Some(upon::to_value($e)), $want))
        };
    }
    macro_rules! collect {
        ($e:expr, $want:expr) => {
            cases.push((stringify!($e), Some($e.collect::<Value>()), None, $want))
        };
    }
    let int = V::Int;
    let s = V::s;
    let ints = |xs: &[i64]| V::List(xs.iter().map(|i| V::Int(*i)).collect());
    let strs = |xs: &[&str]| V::List(xs.iter().map(|i| V::s(i)).collect());
    let empty = || V::map::<_, &str>([]);
    both!((), V::None);
    both!(true, V::Bool(true));
    both!(false, V::Bool(false));
    both!(1.5f32, V::Float(1.5));
    both!("a\0b", s("a\0b"));
    both!("", s(""));
    both!(String::from("日本"), s("日本"));
    both!(Cow::Borrowed("b"), s("b"));
    both!(Cow::<str>::Owned("o".to_string()), s("o"));
    both!(Vec::<i32>::new(), ints(&[]));
    both!(vec![3i64, 1, 2], ints(&[3, 1, 2]));
    both!(vec!["b", "a", "b"], strs(&["b", "a", "b"]));
    both!(vec![(), ()], V::list([V::None, V::None]));
    both!(vec![vec![1u8], vec![], vec![2, 3]], V::list([ints(&[1]), ints(&[]), ints(&[2, 3])]));
    both!(vec![Some("x"), None], V::list([s("x"), V::None]));
    both!([1u16, 2], ints(&[1, 2]));
    both!([0i8; 0], ints(&[]));
    both!([[true], [false]], V::list([V::list([V::Bool(true)]), V::list([V::Bool(false)])]));
    both!(["z", "y", "x"], strs(&["z", "y", "x"]));
    both!(Some(7i32), int(7));
    both!(None::<i32>, V::None);
    both!(Some(None::<bool>), V::None);
    both!(Some(Some("x")), s("x"));
    both!(Some(vec![Some(1u8)]), ints(&[1]));
    both!(None::<Vec<String>>, V::None);
    both!(BTreeMap::<String, i32>::new(), empty());
    both!(BTreeMap::from([("b", 1u8), ("a", 2)]), V::map([("a", int(2)), ("b", int(1))]));
    both!(BTreeMap::from([("".to_string(), vec![1.5])]), V::map([("", V::list([V::Float(1.5)]))]));
    both!(HashMap::<String, Value>::new(), empty());
    both!(HashMap::from([("b", "1"), ("a", "2"), ("c", "")]), V::map([("a", s("2")), ("b", s("1")), ("c", s(""))]));
    both!(HashMap::from([("k".to_string(), BTreeMap::from([("n", Some(1i32))]))]), V::map([("k", V::map([("n", int(1))]))]));
    both!(Some(BTreeMap::from([("a", ())])), V::map([("a", V::None)]));
    both!(vec![BTreeMap::from([("a", 1i32)]), BTreeMap::new()], V::list([V::map([("a", int(1))]), empty()]));
    both!(HashMap::from([(String::from("x"), [Some(1u32), None])]), V::map([("x", V::list([int(1), V::None]))]));
    both!(vec![Value::None, Value::Integer(1)], V::list([V::None, int(1)]));
    both!(Value::from(Value::from(1i32)), int(1));
    both!(Some(Value::None), V::None);
    conv!([("a", 1i32), ("b", 2)], V::map([("a", int(1)), ("b", int(2))]));
    conv!([("a", 1i32), ("a", 2)], V::map([("a", int(2))]));
    conv!([("b", "x"), ("a", "y"), ("b", "z")], V::map([("a", s("y")), ("b", s("z"))]));
    conv!([(String::from("k"), [("n", 1u8)])], V::map([("k", V::map([("n", int(1))]))]));
    conv!([(Cow::Borrowed("k"), ())], V::map([("k", V::None)]));
    conv!([('c', 1u8)], V::map([("c", int(1))]));
    conv!([(Box::<str>::from("k"), 1u8)], V::map([("k", int(1))]));
    conv!([("", None::<i32>)], V::map([("", V::None)]));
    conv!([("x", Value::from([("y", Value::from([1i32, 2]))]))], V::map([("x", V::map([("y", ints(&[1, 2]))]))]));
    conv!(vec![[("a", 1u8)], [("b", 2)]], V::list([V::map([("a", int(1))]), V::map([("b", int(2))])]));
    conv!(Value::default(), V::None);
    collect!([3i32, 1, 2].into_iter(), ints(&[3, 1, 2]));
    collect!((0..0i64), ints(&[]));
    collect!((0..5i64).rev(), ints(&[4, 3, 2, 1, 0]));
    collect!((0..7i64).filter(|i| i % 2 == 1), ints(&[1, 3, 5]));
    collect!(["b", "a", "b"].into_iter(), strs(&["b", "a", "b"]));
    collect!([("b", 1i32), ("a", 2), ("b", 3)].into_iter(), V::map([("a", int(2)), ("b", int(3))]));
    collect!(std::iter::empty::<(String, Value)>(), empty());
    collect!([Some(1i32), None].into_iter(), V::list([int(1), V::None]));
    collect!([vec![1u8], vec![]].into_iter(), V::list([ints(&[1]), ints(&[])]));
    collect!("héy".chars().map(String::from), strs(&["h", "é", "y"]));
    ser!(&&&1u8, int(1));
    ser!(Box::new("b"), s("b"));
    ser!(std::rc::Rc::<str>::from("rc").to_string(), s("rc"));
    ser!(&[1u8, 2][..], ints(&[1, 2]));
    ser!((1u8, "two", 3.0, None::<u8>), V::list([int(1), s("two"), V::Float(3.0), V::None]));
    ser!((1u8,), ints(&[1]));
    ser!(((), ((),)), V::list([V::None, V::list([V::None])]));
    ser!(VecDeque::from([1u8, 2]), ints(&[1, 2]));
    ser!(LinkedList::from([1u8, 2]), ints(&[1, 2]));
    ser!(BTreeSet::from([3u8, 1, 2]), ints(&[1, 2, 3]));
    ser!(Ok::<u8, u8>(1), V::map([("Ok", int(1))]));
    ser!(Err::<u8, &str>("e"), V::map([("Err", s("e"))]));
    ser!(0u8..3, V::map([("start", int(0)), ("end", int(3))]));
    ser!(0u8..=3, V::map([("start", int(0)), ("end", int(3))]));
    ser!(std::time::Duration::new(5, 6), V::map([("secs", int(5)), ("nanos", int(6))]));
    ser!(std::num::NonZeroU8::new(5), int(5));
    ser!(std::num::Wrapping(250u8), int(250));
    ser!(std::cmp::Reverse(1u8), int(1));
    ser!(std::cell::Cell::new(4), int(4));
    ser!(std::cell::RefCell::new("c"), s("c"));
    ser!(std::sync::Mutex::new([1u8]), ints(&[1]));
    ser!(std::path::Path::new("/a/b"), s("/a/b"));
    ser!(std::net::Ipv4Addr::new(127, 0, 0, 1), s("127.0.0.1"));
    ser!("[::1]:80".parse::<std::net::SocketAddr>().unwrap(), s("[::1]:80"));
    ser!(format_args!("{}-{}", 1, 2), s("1-2"));
    ser!(std::marker::PhantomData::<u8>, V::None);
    ser!(std::ops::Bound::Included(1u8), V::map([("Included", int(1))]));
    ser!(std::ops::Bound::<u8>::Unbounded, s("Unbounded"));
    ser!(BTreeMap::from([(1u8, 'x'), (10, 'y'), (2, 'z')]), V::map([("1", s("x")), ("10", s("y")), ("2", s("z"))]));
    ser!(BTreeMap::from([('a', 1u8)]), V::map([("a", int(1))]));
    ser!(HashMap::from([("a".to_string(), (1u8, "x"))]), V::map([("a", V::list([int(1), s("x")]))]));
    ser!(vec![("a", 1u8)], V::list([V::list([s("a"), int(1)])]));
    let i = ch.n(cases.len());
    let (what, conv, ser, want) = cases.swap_remove(i);
    rec.traces += 1;
    rec.transitions += 1;
    rec.nontrivial += 1;
    rec.state(fnv(FNV0, what.as_bytes()));
    rec.sample(|| format!("{what} => {want:?}"));
    if let Some(v) = conv {
        same(&format!("the conversion of {what}"), Ok(v), &want)?;
    }
    if let Some(v) = ser {
        same(&format!("to_value of {what}"), v, &want)?;
    }
    Ok(())
}

/// Values are serialized to themselves, and compare as they should.
fn values(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    fn any(ch: &mut Ch, depth: usize) -> V {
        let wide = if depth > 2 { 1 } else { 2 };
        let n = ch.n(if depth > 0 { 9 } else { 6 });
        match n {
            0 => V::None,
            1 => V::Bool(true),
            2 => V::Int(i64::MIN),
            3 => V::Float(-0.5),
            4 => V::s("x"),
            5 => V::s(""),
            6 => V::List((0..ch.range(0, wide)).map(|_| any(ch, depth - 1)).collect()),
            7 => V::map((0..ch.range(0, wide)).map(|i| (["k", ""][i], any(ch, depth - 1))).collect::<Vec<_>>()),
            _ => V::map([("a b", any(ch, depth - 1))]),
        }
    }
    let v = any(ch, if rec.thorough() { 3 } else { 2 });
    rec.traces += 1;
    rec.transitions += 1;
    rec.state(v.hash(FNV0));
    let u = v.to_upon();
    for (what, got) in [("a value", upon::to_value(&u)), ("a model value", upon::to_value(&v)), ("the same backwards", upon::to_value(crate::val::Backwards(&v)))] {
        match got {
            Ok(g) if V::from_upon(&g) == v && g == u && g.clone() == u => {}
            r => return Err(format!("{what} {v:?} is serialized to {r:?}")),
        }
    }
    if V::from_upon(u.as_ref()) != v {
        return Err(format!("{v:?} is not its own reference"));
    }
    Ok(())
}

fn deep(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = *ch.pick(SIZES);
    let kind = ch.n(8);
    let leaf = [T::Char('x'), T::U64(u64::MAX), T::Fail("down here")][ch.n(3)].clone();
    let mut t = leaf;
    for _ in 0..n {
        t = match kind {
            0 => T::Some(Box::new(t)),
            1 => T::Newtype(Box::new(t)),
            2 => T::NewtypeVariant("v", Box::new(t)),
            3 => T::Seq(Some(1), vec![t]),
            4 => T::Tuple(vec![T::None, t]),
            5 => T::Map(true, vec![(T::U8(1), t)]),
            6 => T::Struct(vec![("f", t), ("g", T::None)]),
            _ => T::TupleVariant("v", vec![t]),
        };
    }
    check(&t, rec)
}
