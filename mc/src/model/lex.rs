//! Tokens of a template under a delimiter configuration.

use super::{Sp, Syn, SynErr};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tag {
    Expr,
    Block,
    Comment,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum T {
    /// Text outside tags, after whitespace control.
    Raw,
    Begin(Tag),
    End(Tag),
    Dot,
    OptDot,
    Pipe,
    Comma,
    Colon,
    Plus,
    Minus,
    Keyword,
    Ident,
    Index,
    Number,
    Str,
}

pub const KEYWORDS: [&str; 13] = [
    "if", "not", "else", "endif", "for", "in", "endfor", "with", "as", "endwith", "include",
    "true", "false",
];

#[derive(Clone, Copy, Debug)]
pub struct Delim {
    pub tag: Tag,
    pub begin: bool,
    pub trim: bool,
    pub m: usize,
    pub n: usize,
}

/// The naive search: leftmost, then longest, then the order expression, block,
/// comment; begin before end; without hyphen before with hyphen.
pub struct Finder {
    pats: Vec<(Tag, bool, bool, String)>,
}

impl Finder {
    pub fn new(syn: &Syn) -> Finder {
        let mut pats = vec![];
        for (tag, p) in [
            (Tag::Expr, &syn.expr),
            (Tag::Block, &syn.block),
            (Tag::Comment, &syn.comment),
        ] {
            if let Some((b, e)) = p {
                pats.push((tag, true, false, b.clone()));
                pats.push((tag, false, false, e.clone()));
                pats.push((tag, true, true, format!("{b}-")));
                pats.push((tag, false, true, format!("-{e}")));
            }
        }
        Finder { pats }
    }
    /// The delimiter that starts exactly at `at`.
    pub fn here(&self, src: &str, at: usize) -> Option<Delim> {
        let rest = &src.as_bytes()[at..];
        let mut best: Option<Delim> = None;
        for (tag, begin, trim, p) in &self.pats {
            if rest.starts_with(p.as_bytes()) && best.map_or(true, |b| p.len() > b.n - b.m) {
                best = Some(Delim {
                    tag: *tag,
                    begin: *begin,
                    trim: *trim,
                    m: at,
                    n: at + p.len(),
                });
            }
        }
        best
    }
    pub fn next(&self, src: &str, at: usize) -> Option<Delim> {
        (at..src.len()).find_map(|i| self.here(src, i))
    }
}

/// All tokens up to the end of the source or the first error.
pub struct Tokens {
    pub toks: Vec<(T, Sp)>,
    pub err: Option<SynErr>,
}

#[derive(Clone, Copy)]
pub struct Features {
    pub unicode: bool,
    pub filters: bool,
}
/// What this was built with.
pub const BUILT: Features = Features {
    unicode: cfg!(feature = "unicode"),
    filters: cfg!(feature = "filters"),
};

fn ident_start(c: char, f: Features) -> bool {
    if f.unicode {
        c == '_' || if c.is_ascii() { c.is_ascii_alphabetic() } else { uni::start(c) }
    } else {
        c == '_' || c.is_ascii_alphabetic()
    }
}
fn ident_cont(c: char, f: Features) -> bool {
    if f.unicode {
        c == '_' || if c.is_ascii() { c.is_ascii_alphanumeric() } else { uni::cont(c) }
    } else {
        c == '_' || c.is_ascii_alphanumeric()
    }
}

/// The Unicode identifier properties. The characters used most are listed; the
/// crate is a table of the rest.
pub mod uni {
    const START: &str = "éßñΩжЖпривітλ日本語èÿ旤";
    const CONT: &str = "\u{301}\u{b7}٣";
    const NEITHER: &str = "«»😁\u{80}\u{7ff}✨€“”→😀\u{a0}\u{2003}\u{3000}\u{200b}\u{feff}\u{85}\u{2028}\u{ff5b}½√☃";
    pub fn start(c: char) -> bool {
        START.contains(c) || !CONT.contains(c) && !NEITHER.contains(c) && unicode_ident::is_xid_start(c)
    }
    pub fn cont(c: char) -> bool {
        START.contains(c) || CONT.contains(c) || !NEITHER.contains(c) && unicode_ident::is_xid_continue(c)
    }
}

pub fn lex(finder: &Finder, src: &str, feat: Features) -> Tokens {
    let mut toks = vec![];
    let mut at = 0;
    let mut trim_next = false; // the tag before the text ended with a hyphen
    let fail = |toks, m, n| Tokens {
        toks,
        err: Some(SynErr { sp: Sp::new(m, n) }),
    };

    while at < src.len() {
        // Text up to the next delimiter.
        let d = finder.next(src, at);
        if let Some(d) = d {
            if !d.begin {
                return fail(toks, d.m, d.n);
            }
        }
        let end = d.map_or(src.len(), |d| d.m);
        if at < end {
            let (mut m, mut n) = (at, end);
            if d.map_or(false, |d| d.trim) {
                n = at + src[at..end].trim_end_matches(char::is_whitespace).len();
            }
            if trim_next {
                m = n - src[at..n].trim_start_matches(char::is_whitespace).len();
            }
            toks.push((T::Raw, Sp::new(m, n)));
        }
        trim_next = false;
        let open = match d {
            None => break,
            Some(d) => d,
        };
        toks.push((T::Begin(open.tag), Sp::new(open.m, open.n)));
        at = open.n;

        // The inside of a tag.
        if open.tag == Tag::Comment {
            if at == src.len() {
                break;
            }
            let close = finder.next(src, at);
            match close {
                None => {
                    toks.push((T::Raw, Sp::new(at, src.len())));
                    at = src.len();
                }
                Some(c) if c.begin => return fail(toks, open.m, open.n),
                Some(c) if c.tag != Tag::Comment => return fail(toks, c.m, c.n),
                Some(c) => {
                    if at < c.m {
                        toks.push((T::Raw, Sp::new(at, c.m)));
                    }
                    toks.push((T::End(Tag::Comment), Sp::new(c.m, c.n)));
                    trim_next = c.trim;
                    at = c.n;
                }
            }
            continue;
        }
        let mut in_path = false;
        loop {
            if at == src.len() {
                break;
            }
            if let Some(c) = finder.here(src, at) {
                if c.begin {
                    return fail(toks, open.m, open.n);
                }
                if c.tag != open.tag {
                    return fail(toks, c.m, c.n);
                }
                toks.push((T::End(c.tag), Sp::new(c.m, c.n)));
                trim_next = c.trim;
                at = c.n;
                break;
            }
            let c = src[at..].chars().next().unwrap();
            let run = |p: &dyn Fn(char) -> bool| {
                at + src[at..].chars().take_while(|c| p(*c)).map(char::len_utf8).sum::<usize>()
            };
            let (t, n) = match c {
                ' ' | '\t' => {
                    at = run(&|c| c == ' ' || c == '\t');
                    continue;
                }
                '.' => (T::Dot, at + 1),
                '|' => (T::Pipe, at + 1),
                ',' => (T::Comma, at + 1),
                ':' => (T::Colon, at + 1),
                '+' => (T::Plus, at + 1),
                '-' => (T::Minus, at + 1),
                '?' => match src[at + 1..].chars().next() {
                    Some('.') => (T::OptDot, at + 2),
                    Some(c) => return fail(toks, at, at + 1 + c.len_utf8()),
                    None => return fail(toks, at, src.len()),
                },
                '"' => {
                    let mut it = src[at + 1..].char_indices();
                    loop {
                        match it.next() {
                            None => return fail(toks, at, src.len()),
                            Some((i, '\r' | '\n')) => return fail(toks, at, at + 1 + i),
                            Some((i, '"')) => break (T::Str, at + 2 + i),
                            Some((_, '\\')) => match it.next() {
                                None => return fail(toks, at, src.len()),
                                Some((i, '\r' | '\n')) => return fail(toks, at, at + 1 + i),
                                Some(_) => {}
                            },
                            Some(_) => {}
                        }
                    }
                }
                c if c.is_ascii_digit() && in_path => (T::Index, run(&|c| c.is_ascii_digit())),
                c if c.is_ascii_digit() => {
                    let mut n = run(&|c| c.is_ascii_alphanumeric() || "_-+.".contains(c));
                    // A delimiter that begins inside and ends outside wins.
                    if let Some(d) = finder.next(src, at) {
                        if d.m < n && d.n > n {
                            n = d.m;
                        }
                    }
                    (T::Number, n)
                }
                c if ident_start(c, feat) => {
                    let n = run(&|c| ident_cont(c, feat));
                    if KEYWORDS.contains(&&src[at..n]) {
                        (T::Keyword, n)
                    } else {
                        (T::Ident, n)
                    }
                }
                c => return fail(toks, at, at + c.len_utf8()),
            };
            match t {
                T::Ident => in_path = true,
                T::Pipe | T::Comma | T::Colon | T::Keyword => in_path = false,
                _ => {}
            }
            toks.push((t, Sp::new(at, n)));
            at = n;
        }
    }
    Tokens { toks, err: None }
}
