//! The model's own value type, and its conversions.

use std::collections::BTreeMap;
use upon::Value;

#[derive(Clone, Debug)]
pub enum V {
    None,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    List(Vec<V>),
    Map(BTreeMap<String, V>),
}

/// Floats are equal when their bits are (so NaN equals NaN, 0.0 is not -0.0).
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::None, V::None) => true,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Int(a), V::Int(b)) => a == b,
            (V::Float(a), V::Float(b)) => a.to_bits() == b.to_bits(),
            (V::Str(a), V::Str(b)) => a == b,
            (V::List(a), V::List(b)) => a == b,
            (V::Map(a), V::Map(b)) => a == b,
            _ => false,
        }
    }
}

impl V {
    pub fn s(s: &str) -> V {
        V::Str(s.to_string())
    }
    pub fn list<I: IntoIterator<Item = V>>(xs: I) -> V {
        V::List(xs.into_iter().collect())
    }
    pub fn map<I: IntoIterator<Item = (S, V)>, S: Into<String>>(xs: I) -> V {
        V::Map(xs.into_iter().map(|(k, v)| (k.into(), v)).collect())
    }
    pub fn to_upon(&self) -> Value {
        match self {
            V::None => Value::None,
            V::Bool(b) => Value::Bool(*b),
            V::Int(i) => Value::Integer(*i),
            V::Float(f) => Value::Float(*f),
            V::Str(s) => Value::String(s.clone()),
            V::List(l) => Value::List(l.iter().map(V::to_upon).collect()),
            V::Map(m) => Value::Map(m.iter().map(|(k, v)| (k.clone(), v.to_upon())).collect()),
        }
    }
    pub fn from_upon(v: &Value) -> V {
        match v {
            Value::None => V::None,
            Value::Bool(b) => V::Bool(*b),
            Value::Integer(i) => V::Int(*i),
            Value::Float(f) => V::Float(*f),
            Value::String(s) => V::Str(s.clone()),
            Value::List(l) => V::List(l.iter().map(V::from_upon).collect()),
            Value::Map(m) => V::Map(m.iter().map(|(k, v)| (k.clone(), V::from_upon(v))).collect()),
        }
    }
    pub fn truthy(&self) -> bool {
        match self {
            V::None => false,
            V::Bool(b) => *b,
            V::Int(i) => *i != 0,
            V::Float(f) => *f != 0.0,
            V::Str(s) => !s.is_empty(),
            V::List(l) => !l.is_empty(),
            V::Map(m) => !m.is_empty(),
        }
    }
    pub fn hash(&self, h: u64) -> u64 {
        use crate::explore::fnv;
        match self {
            V::None => fnv(h, b"N"),
            V::Bool(b) => fnv(h, if *b { b"T" } else { b"F" }),
            V::Int(i) => fnv(fnv(h, b"I"), &i.to_le_bytes()),
            V::Float(i) => fnv(fnv(h, b"D"), &i.to_bits().to_le_bytes()),
            V::Str(s) => fnv(fnv(h, b"S"), s.as_bytes()),
            V::List(l) => l.iter().fold(fnv(h, b"["), |h, v| v.hash(h)),
            V::Map(m) => m
                .iter()
                .fold(fnv(h, b"{"), |h, (k, v)| v.hash(fnv(h, k.as_bytes()))),
        }
    }
    /// How the documented default formatter writes a value; `None` for the
    /// values it rejects.
    pub fn plain(&self) -> Option<String> {
        Some(match self {
            V::None => String::new(),
            V::Bool(true) => "true".into(),
            V::Bool(false) => "false".into(),
            V::Int(i) => i.to_string(),
            V::Float(f) => f.to_string(),
            V::Str(s) => s.clone(),
            V::List(_) | V::Map(_) => return None,
        })
    }
}

/// Serializes the way a plain Rust value of this shape would.
impl serde::Serialize for V {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeMap, SerializeSeq};
        match self {
            V::None => s.serialize_none(),
            V::Bool(b) => s.serialize_bool(*b),
            V::Int(i) => s.serialize_i64(*i),
            V::Float(f) => s.serialize_f64(*f),
            V::Str(x) => s.serialize_str(x),
            V::List(l) => {
                let mut q = s.serialize_seq(Some(l.len()))?;
                for x in l {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            V::Map(m) => {
                let mut q = s.serialize_map(Some(m.len()))?;
                for (k, v) in m {
                    q.serialize_entry(k, v)?;
                }
                q.end()
            }
        }
    }
}

/// The same, with the entries of maps in descending order.
pub struct Backwards<'a>(pub &'a V);
impl serde::Serialize for Backwards<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeMap, SerializeSeq};
        match self.0 {
            V::List(l) => {
                let mut q = s.serialize_seq(None)?;
                for x in l {
                    q.serialize_element(&Backwards(x))?;
                }
                q.end()
            }
            V::Map(m) => {
                let mut q = s.serialize_map(None)?;
                for (k, v) in m.iter().rev() {
                    q.serialize_entry(k, &Backwards(v))?;
                }
                q.end()
            }
            v => v.serialize(s),
        }
    }
}
