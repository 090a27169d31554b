#!/usr/bin/env python3
"""Writes mc/src/sigs.rs: a filter of every signature the crate provides."""
import itertools, os
here = os.path.dirname(os.path.abspath(__file__))
OWN = {
    "Value": "Ty::Value", "()": "Ty::Unit", "bool": "Ty::Bool", "String": "Ty::String",
    "f64": "Ty::F64", "f32": "Ty::F32", "Vec<Value>": "Ty::List", "Mp": "Ty::Map",
}
for t in "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 isize i128".split():
    OWN[t] = f"Ty::Int({t}::MIN as i128, {'i128::MAX' if t == 'u128' else t + '::MAX as i128'})"
REF = {"&str": "Ty::Str", "&[Value]": "Ty::ListRef", "&Mp": "Ty::MapRef", "&Value": "Ty::ValueRef"}
ALL = {**OWN, **REF}
sigs = []
# Every mix of owned and borrowed parameters.
for n in range(5):
    for first in ["Value", "&str", "&[Value]", "&Mp", "&Value"]:
        for rest in itertools.product(["Value", "&str"], repeat=n):
            sigs.append((first,) + rest)
FULL = len(sigs)
# Every owned type in every position.
for t in OWN:
    for s in [(t,), (t, "Value"), ("Value", t), (t, t), ("&str", t), ("&Value", t, "&str"), ("Value", "Value", t), ("Value",) * 3 + (t,), ("Value",) * 4 + (t,)]:
        if s not in sigs:
            sigs.append(s)
o = ["//! Generated by tools/gen_sigs.py.", "", "use std::collections::BTreeMap;", "",
     "#[allow(unused)]", "use crate::funcs::{ret, ToV, Ty};", "#[allow(unused)]", "use upon::{Engine, EngineFn, Value};", "",
     "pub type Mp = BTreeMap<String, Value>;", f"/// The first of them are every mix of owned and borrowed parameters.\npub const MIXES: usize = {FULL};", "",
     "type Install = fn(&mut Engine<'_>, String, usize) -> Option<EngineFn>;", "",
     '#[cfg(not(feature = "filters"))]', "pub const SIGS: &[(&[Ty], Install)] = &[];",
     '#[cfg(feature = "filters")]', "#[rustfmt::skip]", "pub const SIGS: &[(&[Ty], Install)] = &["]
for s in sigs:
    ps = ", ".join(f"{c}: {t}" for c, t in zip("abcde", s))
    vs = ", ".join(f"{c}.v()" for c, _ in zip("abcde", s))
    o.append(f"    (&[{', '.join(ALL[t] for t in s)}], |e, n, i| {{ let m = n.clone(); e.add_filter(n, move |{ps}| ret(i, &m, vec![{vs}])) }}),")
o.append("];")
open(os.path.join(here, "..", "mc", "src", "sigs.rs"), "w").write("\n".join(o) + "\n")
