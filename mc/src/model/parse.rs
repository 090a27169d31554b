//! Well formed templates.

use super::lex::{Tag, Tokens, T};
use super::{Sp, SynErr};
use crate::val::V;

#[derive(Clone, Debug)]
pub struct Seg {
    pub opt: bool,
    pub key: Key,
    pub sp: Sp,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Key {
    Name(String),
    Idx(usize),
}
#[derive(Clone, Debug)]
pub enum Base {
    Lit(V, Sp),
    Var(Vec<Seg>, Sp),
}
impl Base {
    pub fn sp(&self) -> Sp {
        match self {
            Base::Lit(_, s) | Base::Var(_, s) => *s,
        }
    }
}
#[derive(Clone, Debug)]
pub struct Call {
    pub name: String,
    pub sp: Sp,
    pub args: Option<Vec<Base>>,
}
#[derive(Clone, Debug)]
pub struct Expr {
    pub base: Base,
    pub calls: Vec<Call>,
    pub sp: Sp,
}
#[derive(Clone, Debug)]
pub enum Stmt {
    Raw(Sp),
    Emit(Expr),
    /// The arms `(not, condition, body)` and the else body.
    If(Vec<(bool, Expr, Vec<Stmt>)>, Option<Vec<Stmt>>),
    For(Vars, Expr, Vec<Stmt>),
    With(Expr, String, Vec<Stmt>),
    Include(String, Sp, Option<Expr>),
}
#[derive(Clone, Debug)]
pub enum Vars {
    One(String, Sp),
    Two(String, String, Sp),
}

enum Open {
    If {
        arms: Vec<(bool, Expr, Vec<Stmt>)>,
        els: Option<Vec<Stmt>>,
        sp: Sp,
    },
    For(Vars, Expr, Vec<Stmt>, Sp),
    With(Expr, String, Vec<Stmt>, Sp),
}

impl Open {
    fn body(&mut self) -> &mut Vec<Stmt> {
        match self {
            Open::If { els: Some(b), .. } => b,
            Open::If { arms, .. } => &mut arms.last_mut().unwrap().2,
            Open::For(_, _, b, _) | Open::With(_, _, b, _) => b,
        }
    }
    fn sp(&self) -> Sp {
        match self {
            Open::If { sp, .. } | Open::For(_, _, _, sp) | Open::With(_, _, _, sp) => *sp,
        }
    }
}

struct Ps<'a> {
    src: &'a str,
    toks: &'a Tokens,
    i: usize,
}

type R<X> = Result<X, SynErr>;

fn err<X>(sp: Sp) -> R<X> {
    Err(SynErr { sp })
}

pub fn parse(src: &str, toks: &Tokens) -> R<Vec<Stmt>> {
    let mut p = Ps { src, toks, i: 0 };
    let mut top: Vec<Stmt> = vec![];
    let mut open: Vec<Open> = vec![];
    while let Some((t, sp)) = p.next()? {
        let stmt = match t {
            T::Raw => Stmt::Raw(sp),
            T::Begin(Tag::Comment) => {
                if p.peek()?.map(|t| t.0) == Some(T::Raw) {
                    p.next()?;
                }
                p.want(T::End(Tag::Comment))?;
                continue;
            }
            T::Begin(Tag::Expr) => {
                let e = p.expr()?;
                p.want(T::End(Tag::Expr))?;
                Stmt::Emit(e)
            }
            T::Begin(Tag::Block) => {
                let kw = p.keyword()?;
                match kw.0 {
                    "if" => {
                        let (not, cond) = p.cond()?;
                        let sp = sp.to(p.want(T::End(Tag::Block))?);
                        open.push(Open::If {
                            arms: vec![(not, cond, vec![])],
                            els: None,
                            sp,
                        });
                        continue;
                    }
                    "else" => {
                        let arm = if p.at_keyword("if")? {
                            p.next()?;
                            Some(p.cond()?)
                        } else {
                            None
                        };
                        let sp = sp.to(p.want(T::End(Tag::Block))?);
                        match open.last_mut() {
                            Some(Open::If { arms, els, .. }) if els.is_none() => match arm {
                                Some((not, c)) => arms.push((not, c, vec![])),
                                None => *els = Some(vec![]),
                            },
                            _ => return err(sp),
                        }
                        continue;
                    }
                    "for" => {
                        let vars = p.loop_vars()?;
                        p.want_keyword("in")?;
                        let e = p.expr()?;
                        let sp = sp.to(p.want(T::End(Tag::Block))?);
                        open.push(Open::For(vars, e, vec![], sp));
                        continue;
                    }
                    "with" => {
                        let e = p.expr()?;
                        p.want_keyword("as")?;
                        let name = p.ident()?;
                        let sp = sp.to(p.want(T::End(Tag::Block))?);
                        open.push(Open::With(e, name.0.to_string(), vec![], sp));
                        continue;
                    }
                    "endif" | "endfor" | "endwith" => {
                        let sp = sp.to(p.want(T::End(Tag::Block))?);
                        match (kw.0, open.pop()) {
                            ("endif", Some(Open::If { arms, els, .. })) => Stmt::If(arms, els),
                            ("endfor", Some(Open::For(v, e, b, _))) => Stmt::For(v, e, b),
                            ("endwith", Some(Open::With(e, n, b, _))) => Stmt::With(e, n, b),
                            _ => return err(sp),
                        }
                    }
                    "include" => {
                        let nsp = p.want(T::Str)?;
                        let name = p.string(nsp)?;
                        let with = if p.at_keyword("with")? {
                            p.next()?;
                            Some(p.expr()?)
                        } else {
                            None
                        };
                        p.want(T::End(Tag::Block))?;
                        Stmt::Include(name, nsp, with)
                    }
                    _ => return err(kw.1),
                }
            }
            t => panic!("model lexer: token {t:?} outside a tag"),
        };
        match open.last_mut() {
            Some(o) => o.body().push(stmt),
            None => top.push(stmt),
        }
    }
    match open.first() {
        Some(o) => err(o.sp()),
        None => Ok(top),
    }
}

impl<'a> Ps<'a> {
    fn peek(&mut self) -> R<Option<(T, Sp)>> {
        match self.toks.toks.get(self.i) {
            Some(t) => Ok(Some(*t)),
            None => match &self.toks.err {
                Some(e) => Err(e.clone()),
                None => Ok(None),
            },
        }
    }
    fn next(&mut self) -> R<Option<(T, Sp)>> {
        let t = self.peek()?;
        if t.is_some() {
            self.i += 1;
        }
        Ok(t)
    }
    fn any(&mut self) -> R<(T, Sp)> {
        match self.next()? {
            Some(t) => Ok(t),
            None => err(Sp::new(self.src.len(), self.src.len())),
        }
    }
    fn want(&mut self, t: T) -> R<Sp> {
        match self.any()? {
            (u, sp) if u == t => Ok(sp),
            (_, sp) => err(sp),
        }
    }
    fn text(&self, sp: Sp) -> &'a str {
        &self.src[sp.m..sp.n]
    }
    fn keyword(&mut self) -> R<(&'a str, Sp)> {
        let sp = self.want(T::Keyword)?;
        Ok((self.text(sp), sp))
    }
    fn want_keyword(&mut self, kw: &str) -> R<()> {
        match self.keyword()? {
            (k, _) if k == kw => Ok(()),
            (_, sp) => err(sp),
        }
    }
    fn at_keyword(&mut self, kw: &str) -> R<bool> {
        Ok(matches!(self.peek()?, Some((T::Keyword, sp)) if self.text(sp) == kw))
    }
    fn ident(&mut self) -> R<(&'a str, Sp)> {
        let sp = self.want(T::Ident)?;
        Ok((self.text(sp), sp))
    }
    fn cond(&mut self) -> R<(bool, Expr)> {
        let not = self.at_keyword("not")?;
        if not {
            self.next()?;
        }
        Ok((not, self.expr()?))
    }
    fn loop_vars(&mut self) -> R<Vars> {
        let (a, asp) = self.ident()?;
        if self.peek()?.map(|t| t.0) != Some(T::Comma) {
            return Ok(Vars::One(a.into(), asp));
        }
        self.next()?;
        let (b, bsp) = self.ident()?;
        Ok(Vars::Two(a.into(), b.into(), asp.to(bsp)))
    }
    fn expr(&mut self) -> R<Expr> {
        let base = self.base()?;
        let mut sp = base.sp();
        let mut calls = vec![];
        while self.peek()?.map(|t| t.0) == Some(T::Pipe) {
            self.next()?;
            let (name, nsp) = self.ident()?;
            sp = sp.to(nsp);
            let mut args = None;
            if self.peek()?.map(|t| t.0) == Some(T::Colon) {
                self.next()?;
                let mut xs = vec![self.base()?];
                while self.peek()?.map(|t| t.0) == Some(T::Comma) {
                    self.next()?;
                    xs.push(self.base()?);
                }
                sp = sp.to(xs.last().unwrap().sp());
                args = Some(xs);
            }
            calls.push(Call {
                name: name.into(),
                sp: nsp,
                args,
            });
        }
        Ok(Expr { base, calls, sp })
    }
    fn base(&mut self) -> R<Base> {
        let (t, sp) = self.any()?;
        match t {
            T::Keyword => match self.text(sp) {
                "true" => Ok(Base::Lit(V::Bool(true), sp)),
                "false" => Ok(Base::Lit(V::Bool(false), sp)),
                _ => err(sp),
            },
            T::Plus | T::Minus => {
                let nsp = self.want(T::Number)?;
                let v = number(self.text(nsp), t == T::Minus, nsp, sp.to(nsp))?;
                Ok(Base::Lit(v, sp.to(nsp)))
            }
            T::Number => Ok(Base::Lit(number(self.text(sp), false, sp, sp)?, sp)),
            T::Str => Ok(Base::Lit(V::Str(self.string(sp)?), sp)),
            T::Ident => {
                let mut segs = vec![Seg {
                    opt: false,
                    key: Key::Name(self.text(sp).into()),
                    sp,
                }];
                loop {
                    let (opt, osp) = match self.peek()? {
                        Some((T::Dot, s)) => (false, s),
                        Some((T::OptDot, s)) => (true, s),
                        _ => break,
                    };
                    self.next()?;
                    let (t, ksp) = self.any()?;
                    let key = match t {
                        T::Ident => Key::Name(self.text(ksp).into()),
                        T::Index => match index(self.text(ksp)) {
                            Some(i) => Key::Idx(i),
                            None => return err(ksp),
                        },
                        _ => return err(ksp),
                    };
                    segs.push(Seg {
                        opt,
                        key,
                        sp: osp.to(ksp),
                    });
                }
                let sp = sp.to(segs.last().unwrap().sp);
                Ok(Base::Var(segs, sp))
            }
            _ => err(sp),
        }
    }
    fn string(&mut self, sp: Sp) -> R<String> {
        let raw = self.text(sp);
        let mut out = String::new();
        let mut it = raw[1..raw.len() - 1].char_indices();
        while let Some((_, c)) = it.next() {
            if c != '\\' {
                out.push(c);
                continue;
            }
            let (i, c) = it.next().unwrap();
            out.push(match c {
                'n' => '\n',
                'r' => '\r',
                't' => '\t',
                '\\' => '\\',
                '"' => '"',
                c => {
                    let m = sp.m + 1 + i;
                    return err(Sp::new(m, m + c.len_utf8()));
                }
            });
        }
        Ok(out)
    }
}

fn index(s: &str) -> Option<usize> {
    let mut n: u128 = 0;
    for d in s.bytes() {
        n = n * 10 + u128::from(d - b'0');
        if n > u128::from(u64::MAX) {
            return None;
        }
    }
    Some(n as usize)
}

/// The value of a number literal. Digits may be separated by underscores in
/// integers; whatever is not an integer must be a decimal float.
pub fn number(raw: &str, neg: bool, nsp: Sp, whole: Sp) -> R<V> {
    let (off, radix) = match raw.get(..2) {
        Some("0b") => (2, 2u32),
        Some("0o") => (2, 8),
        Some("0x") => (2, 16),
        _ => (0, 10),
    };
    // Find what is wrong with it as an integer, leftmost first.
    let mut mag: u128 = 0;
    let limit: u128 = if neg { 1 << 63 } else { (1 << 63) - 1 };
    let mut bad = None;
    for (i, c) in raw[off..].char_indices() {
        if c == '_' {
            continue;
        }
        match c.to_digit(radix) {
            None => {
                let m = nsp.m + off + i;
                bad = Some(Sp::new(m, m + 1));
                break;
            }
            Some(d) => {
                mag = mag * u128::from(radix) + u128::from(d);
                if mag > limit {
                    bad = Some(whole);
                    break;
                }
            }
        }
    }
    match bad {
        None => Ok(V::Int(if neg {
            (-(mag as i128)) as i64
        } else {
            mag as i64
        })),
        Some(sp) => match decimal(raw) {
            Some(f) => Ok(V::Float(if neg { -f } else { f })),
            None => err(if raw.contains(['.', '-', '+']) { whole } else { sp }),
        },
    }
}

/// digits, optional fraction, optional exponent.
fn decimal(raw: &str) -> Option<f64> {
    let b = raw.as_bytes();
    let mut i = 0;
    let digits = |i: &mut usize| {
        let s = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i - s
    };
    let mut n = digits(&mut i);
    if i < b.len() && b[i] == b'.' {
        i += 1;
        n += digits(&mut i);
    }
    if n == 0 {
        return None;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        if digits(&mut i) == 0 {
            return None;
        }
    }
    if i != b.len() {
        return None;
    }
    raw.parse().ok()
}
