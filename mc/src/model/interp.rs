//! What rendering means: a small-step machine over the tree of a template.
//! Each step is counted and the configuration reached is hashed.

use std::collections::BTreeMap;
use std::rc::Rc;

use super::parse::{Base, Call, Expr, Key, Seg, Stmt, Vars};
use super::Sp;
use crate::explore::{fnv, Rec, FNV0};
use crate::funcs::{call_event, event, DefFmt, Fun};
use crate::val::V;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Syntax,
    Render,
    Filter,
    Format,
    Serialize,
    Io,
}

#[derive(Clone, Debug)]
pub struct MErr {
    pub kind: Kind,
    /// The template it is in; `None` for an anonymous one.
    pub name: Option<String>,
    /// Where it is.
    pub at: Option<(Rc<str>, Sp)>,
    /// Text chosen by the user, `*` when the wording is the implementation's,
    /// `None` when there is no text.
    pub reason: Option<String>,
}

pub struct Tmpl {
    pub name: Option<String>,
    pub src: Rc<str>,
    pub body: Vec<Stmt>,
}

pub struct World<'a> {
    pub funcs: &'a BTreeMap<String, Fun>,
    pub deff: DefFmt,
    pub templates: &'a BTreeMap<String, Tmpl>,
    /// Templates are found by a function of the user.
    pub tfn: bool,
    /// That function answers with one template after another, whatever the name.
    pub turns: bool,
    pub max: usize,
    pub seed: u64,
}

#[derive(Clone)]
enum Scope {
    /// All the variables of a map.
    Ctx(V, bool),
    /// A function of the user.
    Fn(V),
    Var(String, V, bool),
    Loop {
        key: Option<(String, String)>,
        var: String,
        item: V,
        owned: bool,
        i: usize,
        len: usize,
    },
    Boundary,
}

/// What a user function for values answers for a path.
pub fn value_fn(ctx: &V, path: &[(bool, Key)]) -> Result<V, String> {
    let text = path_text(path);
    event(|| format!("get {text}"));
    let mut v = ctx;
    for (i, (opt, k)) in path.iter().enumerate() {
        let next = match (v, k) {
            (V::Map(m), Key::Name(n)) => m.get(n),
            (V::List(l), Key::Idx(i)) => l.get(*i),
            _ => return Err(format!("bad access {text}")),
        };
        v = match next {
            Some(v) => v,
            None if *opt && i > 0 => return Ok(V::None),
            None => return Err(format!("nothing at {text}")),
        };
    }
    Ok(v.clone())
}

pub fn path_text(path: &[(bool, Key)]) -> String {
    let mut s = String::new();
    for (i, (opt, k)) in path.iter().enumerate() {
        if i > 0 || *opt {
            s.push_str(if *opt { "?." } else { "." });
        }
        match k {
            Key::Name(n) => s.push_str(n),
            Key::Idx(i) => s.push_str(&format!("#{i}")),
        }
    }
    s
}

struct Fail {
    kind: Kind,
    sp: Option<Sp>,
    reason: Option<String>,
    named: Option<MErr>,
}
type R<T> = Result<T, Fail>;

fn fail<T>(sp: Sp) -> R<T> {
    Err(Fail {
        kind: Kind::Render,
        sp: Some(sp),
        reason: Some("*".into()),
        named: None,
    })
}

pub struct Machine<'a, 'r> {
    w: &'a World<'a>,
    scopes: Vec<(Scope, u64)>,
    pub out: String,
    out_h: u64,
    ctl: u64,
    /// The number of calls of the template function so far.
    asked: usize,
    rec: &'r mut Rec,
}

/// Renders; the second part is what had been written when it ended.
pub fn render(w: &World, root: &Tmpl, ctx: &V, by_fn: bool, rec: &mut Rec) -> (Result<(), MErr>, String) {
    let mut m = Machine {
        w,
        scopes: vec![],
        out: String::new(),
        out_h: FNV0,
        ctl: w.seed,
        asked: 0,
        rec,
    };
    m.push(if by_fn {
        Scope::Fn(ctx.clone())
    } else {
        Scope::Ctx(ctx.clone(), false)
    });
    let r = m.template(root, 1);
    (r, m.out)
}

impl<'a> Machine<'a, '_> {
    fn push(&mut self, s: Scope) {
        let h = self.scopes.last().map_or(FNV0, |s| s.1);
        let h = match &s {
            Scope::Ctx(v, o) => v.hash(fnv(h, &[1, *o as u8])),
            Scope::Fn(v) => v.hash(fnv(h, &[2])),
            Scope::Var(n, v, o) => v.hash(fnv(fnv(h, &[3, *o as u8]), n.as_bytes())),
            Scope::Loop { var, item, i, len, .. } => {
                item.hash(fnv(fnv(h, var.as_bytes()), &[4, *i as u8, *len as u8]))
            }
            Scope::Boundary => fnv(h, &[5]),
        };
        self.scopes.push((s, h));
    }
    fn pop(&mut self) {
        self.scopes.pop();
    }
    fn step(&mut self, at: usize, what: u8) {
        let sh = self.scopes.last().map_or(0, |s| s.1);
        let mut h = fnv(self.ctl, &(at as u32).to_le_bytes());
        h = fnv(h, &[what]);
        h = fnv(h, &sh.to_le_bytes());
        h = fnv(h, &self.out_h.to_le_bytes());
        self.rec.transitions += 1;
        self.rec.state(h);
    }
    fn write(&mut self, s: &str) {
        self.out.push_str(s);
        self.out_h = fnv(self.out_h, s.as_bytes());
    }

    fn template(&mut self, t: &Tmpl, depth: usize) -> Result<(), MErr> {
        let save = self.ctl;
        self.ctl = fnv(self.ctl, t.src.as_bytes());
        let r = self.body(&t.body, t, depth).map_err(|f| match f.named {
            Some(e) => e,
            None => MErr {
                kind: f.kind,
                name: t.name.clone(),
                at: f.sp.map(|s| (t.src.clone(), s)),
                reason: f.reason,
            },
        });
        self.ctl = save;
        r
    }

    fn body(&mut self, body: &[Stmt], t: &Tmpl, depth: usize) -> R<()> {
        for s in body {
            self.stmt(s, t, depth)?;
        }
        Ok(())
    }

    fn stmt(&mut self, s: &Stmt, t: &Tmpl, depth: usize) -> R<()> {
        match s {
            Stmt::Raw(sp) => {
                self.step(sp.m, 0);
                self.write(&t.src[sp.m..sp.n]);
            }
            Stmt::Emit(e) => {
                self.step(e.sp.m, 1);
                self.emit(e)?;
            }
            Stmt::If(arms, els) => {
                for (not, cond, body) in arms {
                    self.step(cond.sp.m, 2);
                    let (v, _) = self.expr(cond)?;
                    if v.truthy() != *not {
                        return self.body(body, t, depth);
                    }
                }
                if let Some(b) = els {
                    self.body(b, t, depth)?;
                }
            }
            Stmt::With(e, name, body) => {
                self.step(e.sp.m, 3);
                let (v, owned) = self.expr(e)?;
                self.push(Scope::Var(name.clone(), v, owned));
                self.body(body, t, depth)?;
                self.pop();
            }
            Stmt::For(vars, e, body) => {
                self.step(e.sp.m, 4);
                let (v, owned) = self.expr(e)?;
                // A list has items, a map has keys and values.
                let items: Vec<(Option<String>, V)> = match (v, vars) {
                    (V::List(l), Vars::One(..)) => l.into_iter().map(|v| (None, v)).collect(),
                    (V::Map(m), Vars::Two(..)) => {
                        m.into_iter().map(|(k, v)| (Some(k), v)).collect()
                    }
                    (V::List(_) | V::Map(_), Vars::One(_, sp) | Vars::Two(_, _, sp)) => {
                        return fail(*sp)
                    }
                    _ => return fail(e.sp),
                };
                let len = items.len();
                for (i, (key, item)) in items.into_iter().enumerate() {
                    self.push(match vars {
                        Vars::One(n, _) => Scope::Loop {
                            key: None,
                            var: n.clone(),
                            item,
                            owned,
                            i,
                            len,
                        },
                        Vars::Two(k, n, _) => Scope::Loop {
                            key: Some((k.clone(), key.unwrap())),
                            var: n.clone(),
                            item,
                            owned,
                            i,
                            len,
                        },
                    });
                    self.step(e.sp.m, 5);
                    self.body(body, t, depth)?;
                    self.pop();
                }
            }
            Stmt::Include(name, nsp, with) => {
                self.step(nsp.m, 6);
                let with = match with {
                    Some(e) => Some(self.expr(e)?),
                    None => None,
                };
                if self.w.tfn {
                    event(|| format!("tpl {name}"));
                }
                let inner = if self.w.turns {
                    self.asked += 1;
                    self.w.templates.values().nth((self.asked - 1) % self.w.templates.len())
                } else {
                    self.w.templates.get(name)
                };
                let inner = match inner {
                    Some(i) => i,
                    None if self.w.tfn => {
                        return Err(Fail {
                            kind: Kind::Render,
                            sp: Some(*nsp),
                            reason: Some(format!("no {name}")),
                            named: None,
                        })
                    }
                    None => return fail(*nsp),
                };
                if depth + 1 > self.w.max {
                    return Err(Fail {
                        kind: Kind::Render,
                        sp: None,
                        reason: Some("*".into()),
                        named: Some(MErr {
                            kind: Kind::Render,
                            name: None,
                            at: None,
                            reason: Some("*".into()),
                        }),
                    });
                }
                let isolated = with.is_some();
                if let Some((v, owned)) = with {
                    self.push(Scope::Boundary);
                    self.push(Scope::Ctx(v, owned));
                }
                self.template(inner, depth + 1).map_err(|e| Fail {
                    kind: e.kind,
                    sp: None,
                    reason: None,
                    named: Some(e),
                })?;
                if isolated {
                    self.pop();
                    self.pop();
                }
            }
        }
        Ok(())
    }

    fn emit(&mut self, e: &Expr) -> R<()> {
        if let Some((
            Call {
                name,
                sp,
                args: None,
            },
            before,
        )) = e.calls.split_last()
        {
            if let Some(Fun::P(k)) = self.w.funcs.get(name) {
                let (v, _) = self.chain(&e.base, before)?;
                event(|| call_event(name, std::slice::from_ref(&v)));
                let (ps, r) = k.pieces(&v);
                return self.pieces(ps, r, *sp);
            }
        }
        let (v, _) = self.expr(e)?;
        if self.w.deff.traced().is_some() {
            event(|| call_event("default", std::slice::from_ref(&v)));
        }
        let (ps, r) = self.w.deff.pieces(&v);
        self.pieces(ps, r, e.sp)
    }

    fn pieces(&mut self, ps: Vec<String>, r: Result<(), Option<String>>, sp: Sp) -> R<()> {
        for p in ps {
            self.write(&p);
        }
        r.map_err(|reason| Fail {
            kind: Kind::Format,
            sp: Some(sp),
            reason,
            named: None,
        })
    }

    fn expr(&mut self, e: &Expr) -> R<(V, bool)> {
        self.chain(&e.base, &e.calls)
    }

    fn chain(&mut self, base: &Base, calls: &[Call]) -> R<(V, bool)> {
        let (mut v, mut owned) = self.base(base, true)?;
        for c in calls {
            self.rec.transitions += 1;
            let f = match self.w.funcs.get(&c.name) {
                Some(Fun::F(f)) => f,
                // A formatter only makes sense last, without arguments, where
                // something is emitted.
                _ => return fail(c.sp),
            };
            let sig = f.sig();
            let args: &[Base] = c.args.as_deref().unwrap_or(&[]);
            if args.len() + 1 != sig.len() {
                return fail(c.sp);
            }
            if !sig[0].accepts(&v, true, owned) {
                return fail(c.sp);
            }
            let mut all = vec![sig[0].convert(v)];
            for (a, ty) in args.iter().zip(&sig[1..]) {
                let (x, owned) = self.base(a, false)?;
                if !ty.accepts(&x, false, owned) {
                    return fail(a.sp());
                }
                all.push(ty.convert(x));
            }
            event(|| call_event(&c.name, &all));
            v = f.call(&all).map_err(|m| Fail {
                kind: Kind::Filter,
                sp: Some(c.sp),
                reason: Some(m),
                named: None,
            })?;
            owned = true;
        }
        Ok((v, owned))
    }

    /// The value, and whether it is a temporary.
    fn base(&mut self, b: &Base, piped: bool) -> R<(V, bool)> {
        match b {
            Base::Lit(v, _) => Ok((v.clone(), piped)),
            Base::Var(segs, sp) => self.lookup(segs, *sp),
        }
    }

    fn lookup(&self, segs: &[Seg], sp: Sp) -> R<(V, bool)> {
        let first = match &segs[0].key {
            Key::Name(n) => n.as_str(),
            Key::Idx(_) => unreachable!(),
        };
        for (s, _) in self.scopes.iter().rev() {
            match s {
                Scope::Boundary => break,
                Scope::Fn(ctx) => {
                    let path: Vec<_> = segs.iter().map(|s| (s.opt, s.key.clone())).collect();
                    return match value_fn(ctx, &path) {
                        Ok(v) => Ok((v, true)),
                        Err(m) => Err(Fail {
                            kind: Kind::Render,
                            sp: Some(sp),
                            reason: Some(m),
                            named: None,
                        }),
                    };
                }
                Scope::Ctx(V::Map(m), owned) => {
                    if let Some(v) = m.get(first) {
                        return walk(v, *owned, &segs[1..]);
                    }
                }
                Scope::Ctx(..) => {}
                Scope::Var(n, v, owned) => {
                    if n == first {
                        return walk(v, *owned, &segs[1..]);
                    }
                }
                Scope::Loop {
                    key,
                    var,
                    item,
                    owned,
                    i,
                    len,
                } => {
                    if first == "loop" {
                        let v = V::map([
                            ("index", V::Int(*i as i64)),
                            ("first", V::Bool(*i == 0)),
                            ("last", V::Bool(*i + 1 == *len)),
                        ]);
                        return walk(&v, true, &segs[1..]);
                    }
                    if let Some((k, text)) = key {
                        if k == first {
                            return walk(&V::s(text), true, &segs[1..]);
                        }
                    }
                    if var == first {
                        return walk(item, *owned, &segs[1..]);
                    }
                }
            }
        }
        fail(segs[0].sp)
    }
}

fn walk(v: &V, owned: bool, segs: &[Seg]) -> R<(V, bool)> {
    let mut v = v;
    for s in segs {
        let next = match (v, &s.key) {
            (V::List(l), Key::Idx(i)) => l.get(*i),
            (V::Map(m), Key::Name(n)) => m.get(n),
            _ => return fail(s.sp),
        };
        v = match next {
            Some(v) => v,
            None if s.opt => return Ok((V::None, false)),
            None => return fail(s.sp),
        };
    }
    Ok((v.clone(), owned))
}
