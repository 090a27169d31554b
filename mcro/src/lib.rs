//! What the generated programs use: invocations of `value!` that say what
//! they built and in which order their expressions were evaluated.

use std::cell::RefCell;
use std::panic::{catch_unwind, UnwindSafe};

use other::Value;

thread_local! {
    static LOG: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
}

/// Notes that it was evaluated.
pub fn ev<T>(i: u32, t: T) -> T {
    LOG.with(|l| l.borrow_mut().push(i));
    t
}

/// The same text as `funcs::show` of mc.
fn show(v: &Value) -> String {
    match v {
        Value::None => "<n>".into(),
        Value::Bool(b) => format!("<b:{b}>"),
        Value::Integer(i) => format!("<i:{i}>"),
        Value::Float(f) => format!("<f:{f:?}>"),
        Value::String(s) => format!("<s:{s}>"),
        Value::List(l) => format!("[{}]", l.iter().map(show).collect::<Vec<_>>().join(",")),
        Value::Map(m) => format!(
            "{{{}}}",
            m.iter().map(|(k, v)| format!("{k}={}", show(v))).collect::<Vec<_>>().join(",")
        ),
    }
}

pub fn case(i: usize, f: impl FnOnce() -> Value + UnwindSafe) {
    LOG.with(|l| l.borrow_mut().clear());
    let r = catch_unwind(f);
    let log = LOG.with(|l| l.borrow_mut().drain(..).map(|i| i.to_string()).collect::<Vec<_>>().join(","));
    match r {
        Ok(v) => println!("{i}\t{:?}\t{log}", show(&v)),
        Err(_) => println!("{i}\t\"a panic\"\t{log}"),
    }
}

#[derive(Clone)]
pub struct S {
    pub f: i64,
}
impl S {
    pub fn get(&self, by: i64) -> i64 {
        self.f + by
    }
}
pub const K: i64 = 12;
pub fn two(a: i64, b: i64) -> i64 {
    a * 10 + b
}
