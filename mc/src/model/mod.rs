//! The reference model: what a template means, written as plainly as possible
//! and sharing no code with the implementation.

pub mod interp;
pub mod lex;
pub mod parse;

/// A delimiter configuration.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Syn {
    pub expr: Option<(String, String)>,
    pub block: Option<(String, String)>,
    pub comment: Option<(String, String)>,
}

impl Default for Syn {
    fn default() -> Self {
        Syn::new(Some(("{{", "}}")), Some(("{%", "%}")), Some(("{#", "#}")))
    }
}

type P<'a> = Option<(&'a str, &'a str)>;

impl Syn {
    pub fn new(e: P, b: P, c: P) -> Syn {
        let f = |p: P| p.map(|(a, b)| (a.to_string(), b.to_string()));
        Syn {
            expr: f(e),
            block: f(b),
            comment: f(c),
        }
    }
    pub fn to_upon(&self) -> upon::Syntax<'_> {
        let mut b = upon::Syntax::builder();
        if let Some((x, y)) = &self.expr {
            b.expr(x, y);
        }
        if let Some((x, y)) = &self.block {
            b.block(x, y);
        }
        if let Some((x, y)) = &self.comment {
            b.comment(x, y);
        }
        b.build()
    }
}

/// A half open byte range of a template source.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Sp {
    pub m: usize,
    pub n: usize,
}

impl Sp {
    pub fn new(m: usize, n: usize) -> Sp {
        Sp { m, n }
    }
    pub fn to(self, o: Sp) -> Sp {
        Sp::new(self.m.min(o.m), self.n.max(o.n))
    }
}

/// A syntax error at a place. What it says is not part of the model.
#[derive(Clone, Debug)]
pub struct SynErr {
    pub sp: Sp,
}
