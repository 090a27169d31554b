//! C11: literals.

use crate::explore::{Ch, Rec};
use crate::props::gen::SIZES;
use crate::run::{check, Case, Mask, PLAIN};
use crate::val::V;
use crate::{Prop, Scenario};

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        level: "model_checking",
        rule: "every spelling within the bounds, in every position, is compiled and rendered by the implementation and by the reference machine; a trace counts when the template compiles",
        scenarios: vec![
            Scenario { name: "numbers", body: numbers },
            Scenario { name: "limits", body: limits },
            Scenario { name: "floats", body: floats },
            Scenario { name: "exact floats", body: exact },
            Scenario { name: "strings", body: strings },
            Scenario { name: "characters", body: characters },
            Scenario { name: "positions", body: positions },
            Scenario { name: "long", body: long },
        ],
        apart: &[],
    }
}

const M: Mask = PLAIN;

fn ctx() -> V {
    V::map([("a", V::s("x")), ("l", V::list([V::Int(7)]))])
}

/// Where a literal can be.
const POS: &[&str] = &[
    "<{{ L | show }}>",
    "<{{ L }}>",
    "<{{L|show}}>",
    "<{{- L | show -}}>",
    "<{% if L %}T{% else %}F{% endif %}>",
    "<{% if not L %}T{% else %}F{% endif %}>",
    "<{% if a?.b %}{% else if L %}T{% else %}F{% endif %}>",
    "<{% with L as x %}{{ x | show }}{% endwith %}>",
    "<{% for x in L %}{{ x }}{% endfor %}>",
    "<{% include \"t\" with L %}>",
    "<{{ a | pair: L | show }}>",
    "<{{ a | trip: L, L | show }}>",
    "<{{ a | trip:L,L | show }}>",
    "<{{ L | id | show }}>",
    "<{{ L | pair: L | rid | show }}>",
    "<{% with L | id as x %}{{ x | show }}{% endwith %}>",
    "<{% for x in L | range %}{{ x }}{% endfor %}>",
    "<{% for x in l %}{{ L | show }}{{ x | pair: L | show }}{% endfor %}>",
    "<{% if L | truthy %}T{% else %}F{% endif %}>",
    "<{{ l.0 | pair: L | show }}>",
    "<{{ l | pair: L | show }}>",
];

fn case(t: &str, lit: &str) -> Case {
    Case::new(t.replace('L', lit), ctx()).temp("t", "t{{ a }}")
}

/// Everything that starts like a number.
fn numbers(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const A: &[char] = &['0', '1', '7', '8', 'a', 'F', 'b', 'o', 'x', '_', 'e', '.', '-', '+', 'g', 'E'];
    const FIRST: &[char] = &['0', '1', '2', '9'];
    let sign = *ch.pick(&["", "-", "+"]);
    let mut s = String::from(sign);
    s.push(*ch.pick(FIRST));
    let n = ch.n(if rec.thorough() { 6 } else { 5 });
    for _ in 0..n {
        s.push(*ch.pick(A));
    }
    check(&case("<{{ L | show }}>", &s), M, rec)
}

fn radix(mut n: u128, r: u128, upper: bool) -> String {
    let mut d = vec![];
    while n > 0 || d.is_empty() {
        let c = std::char::from_digit((n % r) as u32, r as u32).unwrap();
        d.push(if upper { c.to_ascii_uppercase() } else { c });
        n /= r;
    }
    d.iter().rev().collect()
}

/// Integers around every power of two and ten, in every base.
fn limits(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let base = ch.n(60 + 70);
    let p: u128 = if base < 70 { 1 << base } else { 10u128.pow(((base - 70) % 30) as u32) * if base < 100 { 1 } else { 9 } };
    let d = ch.n(5);
    let n = (p + d as u128).saturating_sub(2);
    let (r, pre) = *ch.pick(&[(10, ""), (2, "0b"), (8, "0o"), (16, "0x"), (16, "0X"), (10, "00")]);
    let digits = radix(n, r, ch.flag());
    let sign = *ch.pick(&["", "-", "+"]);
    let s = match ch.n(6) {
        0 => digits,
        1 => format!("0{digits}"),
        2 => format!("{digits}_"),
        3 => digits.chars().map(|c| format!("{c}_")).collect(),
        4 => format!("{digits}.0"),
        _ => {
            let k = digits.len() / 2;
            format!("{}_{}", &digits[..k], &digits[k..])
        }
    };
    let s = if pre.is_empty() && s.starts_with('_') { s[1..].to_string() } else { s };
    check(&case("<{{ L | show }}>", &format!("{sign}{pre}{s}")), M, rec)
}

fn floats(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const MANT: &[&str] = &[
        "0", "1", "9", "00", "10", "0.0", "0.1", "0.5", "1.", "1.0", "1.5", "3.14159265358979323846", "0.30000000000000004", "2.2250738585072014",
        "2.2250738585072011", "4.9406564584124654", "2.4703282292062327", "2.4703282292062328", "1.7976931348623157", "1.7976931348623159", "9007199254740993",
        "9007199254740992.5", "123456789012345678901234567890", "0.000001", "1_0.5", "1._5", "1.5_", "1..5", "1.5.5", "0.1.", "5e", "0x1.8", "0b1.1", "1.e", "179769313486231580793728971405301",
    ];
    const EXP: &[&str] = &[
        "", "e0", "e1", "e-1", "e+1", "E5", "e22", "e23", "e-5", "e-324", "e-323", "e-308", "e-307", "e308", "e309", "e307", "e400", "e-400", "e99999", "e-99999", "e",
        "e+", "e-", "e1.5", "ee1", "e1e1", "e_1", "e1_0", "e--1", "E-16", "E+16",
    ];
    let sign = *ch.pick(&["", "-", "+"]);
    let m = *ch.pick(MANT);
    let e = *ch.pick(EXP);
    let t = *ch.pick(&["<{{ L | show }}>", "<{{ L }}>", "<{{ a | pair: L | show }}>", "<{% if L %}T{% else %}F{% endif %}>"]);
    check(&case(t, &format!("{sign}{m}{e}")), M, rec)
}

/// All short decimals times all powers of ten, against exact arithmetic: the
/// double must be the nearest one.
fn exact(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let m = if ch.flag() {
        ch.range(1, if rec.thorough() { 9999 } else { 99 }) as u64
    } else {
        *ch.pick(&[9007199254740993u64, 4503599627370497, 9007199254740991, 18446744073709551615, 12345678901234567, 7205759403792794])
    };
    let e = ch.range(0, 660) as i32 - 340;
    let lit = match ch.n(3) {
        0 => format!("{m}e{e}"),
        1 => format!("{m}.0e{e}"),
        _ => {
            let d = m.to_string();
            format!("{}.{}e{}", &d[..1], if d.len() > 1 { &d[1..] } else { "0" }, e + d.len() as i32 - 1)
        }
    };
    let src = format!("{{{{ {lit} | raw }}}}");
    let got = std::cell::Cell::new(0u64);
    let bits = std::rc::Rc::new(got);
    rec.transitions += 1;
    rec.traces += 1;
    rec.nontrivial += 1;
    let r = literal(&src)?;
    let _ = bits;
    let f = match r {
        upon::Value::Float(f) => f,
        v => return Err(format!("{lit} is {v:?}")),
    };
    rec.state(f.to_bits());
    rec.outcome(f.to_bits());
    if nearest(m, e, f) {
        Ok(())
    } else {
        Err(format!("{lit} is {f:e}, which is not the nearest double"))
    }
}

thread_local! {
    static LAST: std::cell::RefCell<Option<upon::Value>> = const { std::cell::RefCell::new(None) };
}
/// The value a literal has in an expression.
fn literal(src: &str) -> Result<upon::Value, String> {
    let mut e = upon::Engine::new();
    e.add_formatter("raw", |_: &mut upon::fmt::Formatter<'_>, v: &upon::Value| {
        LAST.with(|l| *l.borrow_mut() = Some(v.clone()));
        Ok(())
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        e.compile(src).and_then(|t| t.render_from(&e, &upon::Value::None).to_string())
    }))
    .map_err(|p| format!("{src} panicked: {}", crate::run::panic_text(p)))?;
    r.map_err(|e| format!("{src} is rejected: {e}"))?;
    LAST.with(|l| l.borrow_mut().take()).ok_or_else(|| format!("{src} has no value"))
}

/// A natural number of any size.
#[derive(Clone, PartialEq, Eq)]
struct Nat(Vec<u32>);
impl Nat {
    fn new(n: u64) -> Nat {
        let mut v = vec![n as u32, (n >> 32) as u32];
        while v.last() == Some(&0) {
            v.pop();
        }
        Nat(v)
    }
    fn mul(mut self, k: u32, times: u32) -> Nat {
        for _ in 0..times {
            let mut c = 0u64;
            for d in &mut self.0 {
                let x = u64::from(*d) * u64::from(k) + c;
                *d = x as u32;
                c = x >> 32;
            }
            if c > 0 {
                self.0.push(c as u32);
            }
        }
        self
    }
    fn cmp(&self, o: &Nat) -> std::cmp::Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}

/// Whether `f` is the double nearest to m·10^e (ties to the even one).
fn nearest(m: u64, e: i32, f: f64) -> bool {
    use std::cmp::Ordering::*;
    // Compares m·10^e with k·2^p.
    let cmp = |k: u64, p: i32| {
        let (mut x, mut y) = (Nat::new(m), Nat::new(k));
        if e >= 0 {
            x = x.mul(10, e as u32);
        } else {
            y = y.mul(10, -e as u32);
        }
        if p >= 0 {
            y = y.mul(2, p as u32);
        } else {
            x = x.mul(2, -p as u32);
        }
        x.cmp(&y)
    };
    // The midpoints to the neighbours, as k·2^p.
    let parts = |f: f64| {
        let b = f.to_bits();
        let (ex, fr) = ((b >> 52) as i32, b & ((1 << 52) - 1));
        if ex == 0 {
            (fr, -1074)
        } else {
            (fr | 1 << 52, ex - 1075)
        }
    };
    if f.is_infinite() {
        // At least halfway beyond the largest.
        return cmp((1 << 54) - 1, 970) != Less;
    }
    let (k, p) = parts(f);
    let even = k % 2 == 0;
    let up = cmp(2 * k + 1, p - 1);
    if !(up == Less || up == Equal && even) {
        return false;
    }
    if k == 0 {
        return true;
    }
    let down = if k == 1 << 52 && p > -1074 { cmp(4 * k - 1, p - 2) } else { cmp(2 * k - 1, p - 1) };
    down == Greater || down == Equal && even
}

fn strings(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const P: &[&str] = &[
        "\\n", "\\r", "\\t", "\\\"", "\\\\", "\\", "n", "\"", "é", "😀", " ", "{", "}}", "{{", "\\x", "\\0", "\\u{41}", "\\'", "'", "\n", "\r", "\t", "\\é", "-}}", "\u{0}",
        "a", "\\N", "%",
    ];
    let mut s = String::from("\"");
    let max = if rec.thorough() { 5 } else { 4 };
    let n = ch.n(max);
    for _ in 0..n {
        s.push_str(*ch.pick(P));
    }
    s.push('"');
    let t = *ch.pick(&["<{{ L | show }}>", "<{% include L %}>", "<{{ a | pair: L | show }}>", "<{% with L as q %}{{ q }}{% endwith %}>"]);
    let c = case(t, &s).temp("", "empty").temp("\n", "newline").temp("n", "n").temp("\\", "backslash").temp("\"", "quote").temp(" é", "sp");
    check(&c, M, rec)
}

/// Every character in a string, after a backslash, and after a number.
fn characters(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let hi = if rec.thorough() { 0x1100 } else { 0x31 };
    let page = ch.n(hi + 4);
    let page = if page < hi { page } else { [0xfe, 0xff, 0x1f6, 0xe01][page - hi] };
    let c = match char::from_u32((page * 256 + ch.n(256)) as u32) {
        Some(c) => c,
        None => return Ok(()),
    };
    for l in ["\"X\"", "\"aX\\n\"", "\"\\X\"", "\"\\\\X\"", "1X", "1X1", "0xX", "-1X", "trueX", "\"\"X"] {
        check(&case("<{{ L | show }}>", &l.replace('X', &c.to_string())), M, rec)?;
    }
    Ok(())
}

fn positions(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    const L: &[&str] = &[
        "0", "1", "-1", "+1", "- 1", "+ 1", "-\t1", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "0x7fffffffffffffff",
        "0x8000000000000000", "-0x8000000000000000", "0b101", "0o17", "0o18", "0b2", "0xg", "1_000", "1__0", "0_", "0.0", "-0.0", "-0", "+0", "1.5", "-1.5", "1e3", "1e400", "\"\"",
        "\"s\"", "\"a\\\"b\"", "\"\\\\\"", "\"\\\\\\\\\"", "\"{{ x }}\"", "\" \"", "\"é\\n\"", "true", "false", "-true", "-\"s\"", "--1", "+-1", "-", "+", "not", "None", "nan", "inf", "-inf", "NaN", "1.e", ".5",
        "1e-3", "1e+3", "1E3", "0e0", "00", "01", "0x", "0b", "0o", "0b_1", "0x_", "1-1", "1+1", "1.2.3", "true.a", "\"s\".0", "5.0", "1.0e", "0xAbC", "0xabc_DEF",
    ];
    let l = *ch.pick(L);
    let t = *ch.pick(POS);
    check(&case(t, l), M, rec)
}

/// Literals of every length.
fn long(ch: &mut Ch, rec: &mut Rec) -> Result<(), String> {
    let n = *ch.pick(SIZES);
    let s = match ch.n(14) {
        0 => format!("\"{}\"", "é".repeat(n)),
        1 => format!("\"{}\"", "\\n".repeat(n)),
        2 => format!("\"{}\\\\\"", "x".repeat(n)),
        3 => format!("\"{}\"", "\\\\\\\"".repeat(n)),
        4 => format!("\"{}\\q\"", "x\\t".repeat(n)),
        5 => format!("{}1", "0".repeat(n)),
        6 => format!("0x{}ff", "0".repeat(n)),
        7 => format!("1{}1", "_".repeat(n)),
        8 => "9".repeat(n + 1),
        9 => format!("0b{}", "1".repeat(n)),
        10 => format!("0.{}1", "0".repeat(n)),
        11 => format!("1{}.5", "0".repeat(n)),
        12 => format!("0.1{}1e{n}", "0".repeat(n)),
        _ => format!("-0o{}", "7".repeat(n)),
    };
    let t = *ch.pick(&["<{{ L | show }}>", "<{{ L }}>", "<{{ a | pair: L | show }}>", "<{{L}}>"]);
    check(&case(t, &s), M, rec)
}
