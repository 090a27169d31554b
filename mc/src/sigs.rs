//! Generated by tools/gen_sigs.py.

use std::collections::BTreeMap;

#[allow(unused)]
use crate::funcs::{ret, ToV, Ty};
#[allow(unused)]
use upon::{Engine, EngineFn, Value};

pub type Mp = BTreeMap<String, Value>;
/// The first of them are every mix of owned and borrowed parameters.
pub const MIXES: usize = 155;

type Install = fn(&mut Engine<'_>, String, usize) -> Option<EngineFn>;

#[cfg(not(feature = "filters"))]
pub const SIGS: &[(&[Ty], Install)] = &[];
#[cfg(feature = "filters")]
#[rustfmt::skip]
pub const SIGS: &[(&[Ty], Install)] = &[
    (&[Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value| ret(i, &m, vec![a.v()])) }),
    (&[Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str| ret(i, &m, vec![a.v()])) }),
    (&[Ty::ListRef], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value]| ret(i, &m, vec![a.v()])) }),
    (&[Ty::MapRef], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp| ret(i, &m, vec![a.v()])) }),
    (&[Ty::ValueRef], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value| ret(i, &m, vec![a.v()])) }),
    (&[Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: &str| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: &str| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ListRef, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ListRef, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: &str| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::MapRef, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::MapRef, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: &str| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: &str| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: &str, c: Value| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: &str, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Str, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: Value, c: Value| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Str, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: Value, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Str, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: &str, c: Value| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Str, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: &str, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::ListRef, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: Value, c: Value| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::ListRef, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: Value, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::ListRef, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: &str, c: Value| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::ListRef, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: &str, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::MapRef, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: Value, c: Value| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::MapRef, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: Value, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::MapRef, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: &str, c: Value| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::MapRef, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: &str, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::ValueRef, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: Value, c: Value| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::ValueRef, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: Value, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::ValueRef, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: &str, c: Value| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::ValueRef, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: &str, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: &str, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: &str, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Str, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: &str, c: Value, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Str, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: &str, c: Value, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Str, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: &str, c: &str, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Str, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: &str, c: &str, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Str, Ty::Value, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: Value, c: Value, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Str, Ty::Value, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: Value, c: Value, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Str, Ty::Value, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: Value, c: &str, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Str, Ty::Value, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: Value, c: &str, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Str, Ty::Str, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: &str, c: Value, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Str, Ty::Str, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: &str, c: Value, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Str, Ty::Str, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: &str, c: &str, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Str, Ty::Str, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: &str, c: &str, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::ListRef, Ty::Value, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: Value, c: Value, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::ListRef, Ty::Value, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: Value, c: Value, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::ListRef, Ty::Value, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: Value, c: &str, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::ListRef, Ty::Value, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: Value, c: &str, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::ListRef, Ty::Str, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: &str, c: Value, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::ListRef, Ty::Str, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: &str, c: Value, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::ListRef, Ty::Str, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: &str, c: &str, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::ListRef, Ty::Str, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: &str, c: &str, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::MapRef, Ty::Value, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: Value, c: Value, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::MapRef, Ty::Value, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: Value, c: Value, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::MapRef, Ty::Value, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: Value, c: &str, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::MapRef, Ty::Value, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: Value, c: &str, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::MapRef, Ty::Str, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: &str, c: Value, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::MapRef, Ty::Str, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: &str, c: Value, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::MapRef, Ty::Str, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: &str, c: &str, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::MapRef, Ty::Str, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: &str, c: &str, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::ValueRef, Ty::Value, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: Value, c: Value, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::ValueRef, Ty::Value, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: Value, c: Value, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::ValueRef, Ty::Value, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: Value, c: &str, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::ValueRef, Ty::Value, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: Value, c: &str, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::ValueRef, Ty::Str, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: &str, c: Value, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::ValueRef, Ty::Str, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: &str, c: Value, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::ValueRef, Ty::Str, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: &str, c: &str, d: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::ValueRef, Ty::Str, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: &str, c: &str, d: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Str, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: &str, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Str, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: &str, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Str, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: &str, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Str, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: &str, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Value, Ty::Str, Ty::Value, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: &str, c: Value, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Value, Ty::Str, Ty::Value, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: &str, c: Value, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Value, Ty::Str, Ty::Value, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: &str, c: Value, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Value, Ty::Str, Ty::Value, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: &str, c: Value, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Value, Ty::Str, Ty::Str, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: &str, c: &str, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Value, Ty::Str, Ty::Str, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: &str, c: &str, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Value, Ty::Str, Ty::Str, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: &str, c: &str, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Value, Ty::Str, Ty::Str, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: &str, c: &str, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Str, Ty::Value, Ty::Value, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: Value, c: Value, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Str, Ty::Value, Ty::Value, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: Value, c: Value, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Str, Ty::Value, Ty::Value, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: Value, c: Value, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Str, Ty::Value, Ty::Value, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: Value, c: Value, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Str, Ty::Value, Ty::Str, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: Value, c: &str, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Str, Ty::Value, Ty::Str, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: Value, c: &str, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Str, Ty::Value, Ty::Str, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: Value, c: &str, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Str, Ty::Value, Ty::Str, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: Value, c: &str, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Str, Ty::Str, Ty::Value, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: &str, c: Value, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Str, Ty::Str, Ty::Value, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: &str, c: Value, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Str, Ty::Str, Ty::Value, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: &str, c: Value, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Str, Ty::Str, Ty::Value, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: &str, c: Value, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Str, Ty::Str, Ty::Str, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: &str, c: &str, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Str, Ty::Str, Ty::Str, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: &str, c: &str, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Str, Ty::Str, Ty::Str, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: &str, c: &str, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Str, Ty::Str, Ty::Str, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: &str, c: &str, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ListRef, Ty::Value, Ty::Value, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: Value, c: Value, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ListRef, Ty::Value, Ty::Value, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: Value, c: Value, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ListRef, Ty::Value, Ty::Value, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: Value, c: Value, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ListRef, Ty::Value, Ty::Value, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: Value, c: Value, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ListRef, Ty::Value, Ty::Str, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: Value, c: &str, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ListRef, Ty::Value, Ty::Str, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: Value, c: &str, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ListRef, Ty::Value, Ty::Str, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: Value, c: &str, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ListRef, Ty::Value, Ty::Str, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: Value, c: &str, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ListRef, Ty::Str, Ty::Value, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: &str, c: Value, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ListRef, Ty::Str, Ty::Value, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: &str, c: Value, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ListRef, Ty::Str, Ty::Value, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: &str, c: Value, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ListRef, Ty::Str, Ty::Value, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: &str, c: Value, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ListRef, Ty::Str, Ty::Str, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: &str, c: &str, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ListRef, Ty::Str, Ty::Str, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: &str, c: &str, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ListRef, Ty::Str, Ty::Str, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: &str, c: &str, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ListRef, Ty::Str, Ty::Str, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &[Value], b: &str, c: &str, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::MapRef, Ty::Value, Ty::Value, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: Value, c: Value, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::MapRef, Ty::Value, Ty::Value, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: Value, c: Value, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::MapRef, Ty::Value, Ty::Value, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: Value, c: Value, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::MapRef, Ty::Value, Ty::Value, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: Value, c: Value, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::MapRef, Ty::Value, Ty::Str, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: Value, c: &str, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::MapRef, Ty::Value, Ty::Str, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: Value, c: &str, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::MapRef, Ty::Value, Ty::Str, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: Value, c: &str, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::MapRef, Ty::Value, Ty::Str, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: Value, c: &str, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::MapRef, Ty::Str, Ty::Value, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: &str, c: Value, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::MapRef, Ty::Str, Ty::Value, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: &str, c: Value, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::MapRef, Ty::Str, Ty::Value, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: &str, c: Value, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::MapRef, Ty::Str, Ty::Value, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: &str, c: Value, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::MapRef, Ty::Str, Ty::Str, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: &str, c: &str, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::MapRef, Ty::Str, Ty::Str, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: &str, c: &str, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::MapRef, Ty::Str, Ty::Str, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: &str, c: &str, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::MapRef, Ty::Str, Ty::Str, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Mp, b: &str, c: &str, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ValueRef, Ty::Value, Ty::Value, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: Value, c: Value, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ValueRef, Ty::Value, Ty::Value, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: Value, c: Value, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ValueRef, Ty::Value, Ty::Value, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: Value, c: Value, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ValueRef, Ty::Value, Ty::Value, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: Value, c: Value, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ValueRef, Ty::Value, Ty::Str, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: Value, c: &str, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ValueRef, Ty::Value, Ty::Str, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: Value, c: &str, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ValueRef, Ty::Value, Ty::Str, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: Value, c: &str, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ValueRef, Ty::Value, Ty::Str, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: Value, c: &str, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ValueRef, Ty::Str, Ty::Value, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: &str, c: Value, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ValueRef, Ty::Str, Ty::Value, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: &str, c: Value, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ValueRef, Ty::Str, Ty::Value, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: &str, c: Value, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ValueRef, Ty::Str, Ty::Value, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: &str, c: Value, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ValueRef, Ty::Str, Ty::Str, Ty::Value, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: &str, c: &str, d: Value, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ValueRef, Ty::Str, Ty::Str, Ty::Value, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: &str, c: &str, d: Value, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ValueRef, Ty::Str, Ty::Str, Ty::Str, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: &str, c: &str, d: &str, e: Value| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::ValueRef, Ty::Str, Ty::Str, Ty::Str, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: &str, c: &str, d: &str, e: &str| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Unit], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: ()| ret(i, &m, vec![a.v()])) }),
    (&[Ty::Unit, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: (), b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::Unit], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: ()| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Unit, Ty::Unit], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: (), b: ()| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::Unit], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: ()| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::Unit, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: (), c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Unit], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: ()| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Unit], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: ()| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Unit], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: ()| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Bool], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: bool| ret(i, &m, vec![a.v()])) }),
    (&[Ty::Bool, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: bool, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::Bool], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: bool| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Bool, Ty::Bool], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: bool, b: bool| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::Bool], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: bool| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::Bool, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: bool, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Bool], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: bool| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Bool], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: bool| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Bool], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: bool| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::String], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: String| ret(i, &m, vec![a.v()])) }),
    (&[Ty::String, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: String, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::String], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: String| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::String, Ty::String], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: String, b: String| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::String], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: String| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::String, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: String, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::String], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: String| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::String], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: String| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::String], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: String| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::F64], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: f64| ret(i, &m, vec![a.v()])) }),
    (&[Ty::F64, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: f64, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::F64], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: f64| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::F64, Ty::F64], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: f64, b: f64| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::F64], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: f64| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::F64, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: f64, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::F64], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: f64| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::F64], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: f64| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::F64], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: f64| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::F32], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: f32| ret(i, &m, vec![a.v()])) }),
    (&[Ty::F32, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: f32, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::F32], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: f32| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::F32, Ty::F32], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: f32, b: f32| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::F32], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: f32| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::F32, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: f32, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::F32], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: f32| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::F32], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: f32| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::F32], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: f32| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::List], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Vec<Value>| ret(i, &m, vec![a.v()])) }),
    (&[Ty::List, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Vec<Value>, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::List], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Vec<Value>| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::List, Ty::List], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Vec<Value>, b: Vec<Value>| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::List], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: Vec<Value>| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::List, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: Vec<Value>, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::List], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Vec<Value>| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::List], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Vec<Value>| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::List], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: Vec<Value>| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Map], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Mp| ret(i, &m, vec![a.v()])) }),
    (&[Ty::Map, Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Mp, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::Map], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Mp| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Map, Ty::Map], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Mp, b: Mp| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::Map], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: Mp| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::Map, Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: Mp, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Map], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Mp| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Map], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Mp| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Map], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: Mp| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Int(u8::MIN as i128, u8::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: u8| ret(i, &m, vec![a.v()])) }),
    (&[Ty::Int(u8::MIN as i128, u8::MAX as i128), Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: u8, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::Int(u8::MIN as i128, u8::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: u8| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Int(u8::MIN as i128, u8::MAX as i128), Ty::Int(u8::MIN as i128, u8::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: u8, b: u8| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::Int(u8::MIN as i128, u8::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: u8| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::Int(u8::MIN as i128, u8::MAX as i128), Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: u8, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Int(u8::MIN as i128, u8::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: u8| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Int(u8::MIN as i128, u8::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: u8| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Int(u8::MIN as i128, u8::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: u8| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Int(u16::MIN as i128, u16::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: u16| ret(i, &m, vec![a.v()])) }),
    (&[Ty::Int(u16::MIN as i128, u16::MAX as i128), Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: u16, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::Int(u16::MIN as i128, u16::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: u16| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Int(u16::MIN as i128, u16::MAX as i128), Ty::Int(u16::MIN as i128, u16::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: u16, b: u16| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::Int(u16::MIN as i128, u16::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: u16| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::Int(u16::MIN as i128, u16::MAX as i128), Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: u16, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Int(u16::MIN as i128, u16::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: u16| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Int(u16::MIN as i128, u16::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: u16| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Int(u16::MIN as i128, u16::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: u16| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Int(u32::MIN as i128, u32::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: u32| ret(i, &m, vec![a.v()])) }),
    (&[Ty::Int(u32::MIN as i128, u32::MAX as i128), Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: u32, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::Int(u32::MIN as i128, u32::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: u32| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Int(u32::MIN as i128, u32::MAX as i128), Ty::Int(u32::MIN as i128, u32::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: u32, b: u32| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::Int(u32::MIN as i128, u32::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: u32| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::Int(u32::MIN as i128, u32::MAX as i128), Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: u32, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Int(u32::MIN as i128, u32::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: u32| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Int(u32::MIN as i128, u32::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: u32| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Int(u32::MIN as i128, u32::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: u32| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Int(u64::MIN as i128, u64::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: u64| ret(i, &m, vec![a.v()])) }),
    (&[Ty::Int(u64::MIN as i128, u64::MAX as i128), Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: u64, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::Int(u64::MIN as i128, u64::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: u64| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Int(u64::MIN as i128, u64::MAX as i128), Ty::Int(u64::MIN as i128, u64::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: u64, b: u64| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::Int(u64::MIN as i128, u64::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: u64| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::Int(u64::MIN as i128, u64::MAX as i128), Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: u64, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Int(u64::MIN as i128, u64::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: u64| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Int(u64::MIN as i128, u64::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: u64| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Int(u64::MIN as i128, u64::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: u64| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Int(u128::MIN as i128, i128::MAX)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: u128| ret(i, &m, vec![a.v()])) }),
    (&[Ty::Int(u128::MIN as i128, i128::MAX), Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: u128, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::Int(u128::MIN as i128, i128::MAX)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: u128| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Int(u128::MIN as i128, i128::MAX), Ty::Int(u128::MIN as i128, i128::MAX)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: u128, b: u128| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::Int(u128::MIN as i128, i128::MAX)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: u128| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::Int(u128::MIN as i128, i128::MAX), Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: u128, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Int(u128::MIN as i128, i128::MAX)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: u128| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Int(u128::MIN as i128, i128::MAX)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: u128| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Int(u128::MIN as i128, i128::MAX)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: u128| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Int(usize::MIN as i128, usize::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: usize| ret(i, &m, vec![a.v()])) }),
    (&[Ty::Int(usize::MIN as i128, usize::MAX as i128), Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: usize, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::Int(usize::MIN as i128, usize::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: usize| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Int(usize::MIN as i128, usize::MAX as i128), Ty::Int(usize::MIN as i128, usize::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: usize, b: usize| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::Int(usize::MIN as i128, usize::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: usize| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::Int(usize::MIN as i128, usize::MAX as i128), Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: usize, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Int(usize::MIN as i128, usize::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: usize| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Int(usize::MIN as i128, usize::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: usize| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Int(usize::MIN as i128, usize::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: usize| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Int(i8::MIN as i128, i8::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: i8| ret(i, &m, vec![a.v()])) }),
    (&[Ty::Int(i8::MIN as i128, i8::MAX as i128), Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: i8, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::Int(i8::MIN as i128, i8::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: i8| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Int(i8::MIN as i128, i8::MAX as i128), Ty::Int(i8::MIN as i128, i8::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: i8, b: i8| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::Int(i8::MIN as i128, i8::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: i8| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::Int(i8::MIN as i128, i8::MAX as i128), Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: i8, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Int(i8::MIN as i128, i8::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: i8| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Int(i8::MIN as i128, i8::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: i8| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Int(i8::MIN as i128, i8::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: i8| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Int(i16::MIN as i128, i16::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: i16| ret(i, &m, vec![a.v()])) }),
    (&[Ty::Int(i16::MIN as i128, i16::MAX as i128), Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: i16, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::Int(i16::MIN as i128, i16::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: i16| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Int(i16::MIN as i128, i16::MAX as i128), Ty::Int(i16::MIN as i128, i16::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: i16, b: i16| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::Int(i16::MIN as i128, i16::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: i16| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::Int(i16::MIN as i128, i16::MAX as i128), Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: i16, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Int(i16::MIN as i128, i16::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: i16| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Int(i16::MIN as i128, i16::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: i16| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Int(i16::MIN as i128, i16::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: i16| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Int(i32::MIN as i128, i32::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: i32| ret(i, &m, vec![a.v()])) }),
    (&[Ty::Int(i32::MIN as i128, i32::MAX as i128), Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: i32, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::Int(i32::MIN as i128, i32::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: i32| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Int(i32::MIN as i128, i32::MAX as i128), Ty::Int(i32::MIN as i128, i32::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: i32, b: i32| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::Int(i32::MIN as i128, i32::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: i32| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::Int(i32::MIN as i128, i32::MAX as i128), Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: i32, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Int(i32::MIN as i128, i32::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: i32| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Int(i32::MIN as i128, i32::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: i32| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Int(i32::MIN as i128, i32::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: i32| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Int(i64::MIN as i128, i64::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: i64| ret(i, &m, vec![a.v()])) }),
    (&[Ty::Int(i64::MIN as i128, i64::MAX as i128), Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: i64, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::Int(i64::MIN as i128, i64::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: i64| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Int(i64::MIN as i128, i64::MAX as i128), Ty::Int(i64::MIN as i128, i64::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: i64, b: i64| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::Int(i64::MIN as i128, i64::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: i64| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::Int(i64::MIN as i128, i64::MAX as i128), Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: i64, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Int(i64::MIN as i128, i64::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: i64| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Int(i64::MIN as i128, i64::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: i64| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Int(i64::MIN as i128, i64::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: i64| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Int(isize::MIN as i128, isize::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: isize| ret(i, &m, vec![a.v()])) }),
    (&[Ty::Int(isize::MIN as i128, isize::MAX as i128), Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: isize, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::Int(isize::MIN as i128, isize::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: isize| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Int(isize::MIN as i128, isize::MAX as i128), Ty::Int(isize::MIN as i128, isize::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: isize, b: isize| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::Int(isize::MIN as i128, isize::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: isize| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::Int(isize::MIN as i128, isize::MAX as i128), Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: isize, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Int(isize::MIN as i128, isize::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: isize| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Int(isize::MIN as i128, isize::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: isize| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Int(isize::MIN as i128, isize::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: isize| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
    (&[Ty::Int(i128::MIN as i128, i128::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: i128| ret(i, &m, vec![a.v()])) }),
    (&[Ty::Int(i128::MIN as i128, i128::MAX as i128), Ty::Value], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: i128, b: Value| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Value, Ty::Int(i128::MIN as i128, i128::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: i128| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Int(i128::MIN as i128, i128::MAX as i128), Ty::Int(i128::MIN as i128, i128::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: i128, b: i128| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::Str, Ty::Int(i128::MIN as i128, i128::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &str, b: i128| ret(i, &m, vec![a.v(), b.v()])) }),
    (&[Ty::ValueRef, Ty::Int(i128::MIN as i128, i128::MAX as i128), Ty::Str], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: &Value, b: i128, c: &str| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Int(i128::MIN as i128, i128::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: i128| ret(i, &m, vec![a.v(), b.v(), c.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Int(i128::MIN as i128, i128::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: i128| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v()])) }),
    (&[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::Int(i128::MIN as i128, i128::MAX as i128)], |e, n, i| { let m = n.clone(); e.add_filter(n, move |a: Value, b: Value, c: Value, d: Value, e: i128| ret(i, &m, vec![a.v(), b.v(), c.v(), d.v(), e.v()])) }),
];
