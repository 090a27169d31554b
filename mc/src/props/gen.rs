//! Enumerated templates shared by several properties.

use crate::explore::Ch;
use crate::val::V;

/// Sizes at which lists, chains and texts are tried.
pub const SIZES: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 47, 48, 49, 50, 51, 60, 63,
    64, 65, 66, 80, 96, 99, 100, 101, 120, 127, 128, 129, 150, 191, 192, 193, 199, 200, 201, 250, 254, 255, 256, 257, 258,
    300, 400, 499, 500, 511, 512, 513, 600, 700, 800, 900, 999, 1000, 1001, 1023, 1024, 1025,
];
pub const BIG: &[usize] = &[
    1500, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 20000, 32767, 32768,
    32769, 50000, 65535, 65536, 65537, 70000,
];

/// Values with every truth value, in every kind.
pub fn truth_domain() -> Vec<V> {
    vec![
        V::None,
        V::Bool(false),
        V::Bool(true),
        V::Int(0),
        V::Int(1),
        V::Int(-1),
        V::Int(2),
        V::Int(256),
        V::Int(1 << 32),
        V::Int(i64::MIN),
        V::Int(i64::MAX),
        V::Float(0.0),
        V::Float(-0.0),
        V::Float(1.0),
        V::Float(0.5),
        V::Float(-0.25),
        V::Float(5e-324),
        V::Float(f64::EPSILON / 2.0),
        V::Float(1e-9),
        V::Float(f64::INFINITY),
        V::Float(f64::NEG_INFINITY),
        V::Float(f64::NAN),
        V::s(""),
        V::s(" "),
        V::s("\n"),
        V::s("0"),
        V::s("x"),
        V::s("false"),
        V::s("none"),
        V::s("\u{0}"),
        V::list([]),
        V::list([V::None]),
        V::list([V::Int(0)]),
        V::list([V::list([])]),
        V::list([V::Int(1), V::Int(2)]),
        V::map::<_, &str>([]),
        V::map([("a", V::None)]),
        V::map([("", V::Int(0))]),
        V::map([("a", V::Int(1))]),
    ]
}

/// A control skeleton: distinct marks between all statements, so that any
/// misplaced jump shows.
pub struct Skel {
    pub budget: usize,
    pub kinds: &'static [Kind],
    mark: u32,
    loops: usize,
    fresh: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    If,
    IfElse,
    IfElif,
    IfElifElse,
    For,
    ForMap,
    With,
    Emit,
    EmitX,
    EmitLoop,
    EmitEnds,
    Include,
    IncludeWith,
}

impl Skel {
    pub fn new(budget: usize, kinds: &'static [Kind]) -> Skel {
        Skel {
            budget,
            kinds,
            mark: 0,
            loops: 0,
            fresh: 0,
        }
    }
    fn mark(&mut self) -> char {
        let m = self.mark;
        self.mark += 1;
        char::from_u32(if m < 26 {
            'a' as u32 + m
        } else {
            'A' as u32 + (m - 26) % 26
        })
        .unwrap()
    }
    fn cond(&mut self, ch: &mut Ch) -> String {
        let mut cs = vec!["t", "f", "not t", "not f"];
        if self.loops > 0 {
            cs.extend(["x", "loop.first", "not loop.last"]);
        }
        ch.pick(&cs).to_string()
    }
    /// A sequence of statements, using up to all of the budget.
    pub fn body(&mut self, ch: &mut Ch) -> String {
        let mut s = String::new();
        s.push(self.mark());
        while self.budget > 0 && ch.flag() {
            self.budget -= 1;
            s.push_str(&self.stmt(ch));
            s.push(self.mark());
        }
        s
    }
    fn stmt(&mut self, ch: &mut Ch) -> String {
        let ks: Vec<Kind> = self
            .kinds
            .iter()
            .copied()
            .filter(|k| self.loops > 0 || !matches!(k, Kind::EmitX | Kind::EmitLoop | Kind::EmitEnds))
            .collect();
        let k = *ch.pick(&ks);
        match k {
            Kind::If => {
                let c = self.cond(ch);
                let b = self.body(ch);
                format!("{{% if {c} %}}{b}{{% endif %}}")
            }
            Kind::IfElse => {
                let c = self.cond(ch);
                let b = self.body(ch);
                let e = self.body(ch);
                format!("{{% if {c} %}}{b}{{% else %}}{e}{{% endif %}}")
            }
            Kind::IfElif | Kind::IfElifElse => {
                let c = self.cond(ch);
                let b = self.body(ch);
                let d = self.cond(ch);
                let e = self.body(ch);
                let f = if k == Kind::IfElifElse {
                    format!("{{% else %}}{}", self.body(ch))
                } else {
                    String::new()
                };
                format!("{{% if {c} %}}{b}{{% else if {d} %}}{e}{f}{{% endif %}}")
            }
            Kind::For => {
                let it = ch.pick(&["l", "e"]);
                self.loops += 1;
                let b = self.body(ch);
                self.loops -= 1;
                format!("{{% for x in {it} %}}{b}{{% endfor %}}")
            }
            Kind::ForMap => {
                self.loops += 1;
                let b = self.body(ch);
                self.loops -= 1;
                format!("{{% for k, x in m %}}{b}{{% endfor %}}")
            }
            Kind::With => {
                self.fresh += 1;
                let n = self.fresh;
                let b = self.body(ch);
                format!("{{% with t as w{n} %}}{b}{{{{ w{n} }}}}{{% endwith %}}")
            }
            Kind::Emit => "{{ t }}".into(),
            Kind::EmitX => "{{ x }}".into(),
            Kind::EmitLoop => "{{ loop.index }}".into(),
            Kind::EmitEnds => "{{ loop.first }}{{ loop.last }}".into(),
            Kind::Include => "{% include \"inc\" %}".into(),
            Kind::IncludeWith => "{% include \"inc\" with m %}".into(),
        }
    }
    /// What "inc" is: it depends on nothing and loops itself.
    pub const INC: &'static str = "<{% for x in 2 | range %}{{ x }}{{ loop.last }}{% endfor %}{% with 8 as x %}{{ x }}{% endwith %}>";
    pub fn ctx() -> V {
        V::map([
            ("t", V::Bool(true)),
            ("f", V::Bool(false)),
            ("l", V::list([V::Int(0), V::Int(1), V::Int(2)])),
            ("e", V::list([])),
            ("m", V::map([("p", V::Int(0)), ("q", V::Int(1))])),
        ])
    }
}
