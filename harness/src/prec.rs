//! Operator precedence. A sequence of operands and operators is written down as plain tokens; the
//! tree it must have is computed here by precedence climbing over a table of levels taken from the
//! GoogleSQL reference, not by the generator and not by the library.
use crate::engine::Src;
use crate::gen::{MKid, G, M};

#[derive(Clone, Copy, Debug)]
pub enum Form {
    /// left op right
    Infix,
    /// left NOT op right, left IS NOT ...: (words before the operator's own token, words after)
    NotInfix,
    Between(bool),
    In(bool),
    /// IS [NOT] literal
    Is(bool),
    Distinct(bool),
}

pub struct Op {
    pub lit: &'static str,
    pub level: u32,
    pub form: Form,
}

const fn op(lit: &'static str, level: u32, form: Form) -> Op {
    Op { lit, level, form }
}

/// a smaller number binds tighter
pub const OPS: &[Op] = &[
    op("*", 3, Form::Infix),
    op("/", 3, Form::Infix),
    op("||", 3, Form::Infix),
    op("+", 4, Form::Infix),
    op("-", 4, Form::Infix),
    op("<<", 5, Form::Infix),
    op(">>", 5, Form::Infix),
    op("&", 6, Form::Infix),
    op("^", 7, Form::Infix),
    op("|", 8, Form::Infix),
    op("=", 9, Form::Infix),
    op("<", 9, Form::Infix),
    op(">", 9, Form::Infix),
    op("<=", 9, Form::Infix),
    op(">=", 9, Form::Infix),
    op("!=", 9, Form::Infix),
    op("<>", 9, Form::Infix),
    op("LIKE", 9, Form::Infix),
    op("LIKE", 9, Form::NotInfix),
    op("BETWEEN", 9, Form::Between(false)),
    op("BETWEEN", 9, Form::Between(true)),
    op("IN", 9, Form::In(false)),
    op("IN", 9, Form::In(true)),
    op("IS", 9, Form::Is(false)),
    op("IS", 9, Form::Is(true)),
    op("IS", 9, Form::Distinct(false)),
    op("IS", 9, Form::Distinct(true)),
    op("AND", 11, Form::Infix),
    op("OR", 12, Form::Infix),
];

#[derive(Debug)]
enum Item {
    /// a finished operand
    Atom(M),
    /// prefix operator: token, level of its operand
    Pre(usize, u32),
    /// operator: index into OPS, its token, the NOT
    Op(usize, usize, Option<usize>),
    /// AND of BETWEEN
    And(usize),
    Extra(M),
}

fn leaf(tok: usize, ty: &'static str) -> M {
    M { tok: Some(tok), ty, kids: vec![] }
}

struct Climb<'a> {
    v: std::iter::Peekable<std::vec::IntoIter<Item>>,
    _g: std::marker::PhantomData<&'a ()>,
}

impl<'a> Climb<'a> {
    /// operators that bind tighter than `lvl`
    fn go(&mut self, lvl: u32) -> M {
        let mut left = match self.v.next() {
            Some(Item::Atom(m)) => m,
            Some(Item::Pre(t, l)) => {
                let mut n = leaf(t, "UnaryOperator");
                let r = self.go(l);
                n.put("right", r);
                n
            }
            o => panic!("operand expected: {:?}", o),
        };
        while let Some(Item::Op(o, _, _)) = self.v.peek() {
            let o = &OPS[*o];
            if o.level >= lvl {
                break;
            }
            let (t, not) = match self.v.next() {
                Some(Item::Op(_, t, not)) => (t, not),
                _ => unreachable!(),
            };
            let ty = match o.form {
                Form::Between(_) => "BetweenOperator",
                Form::In(_) => "InOperator",
                Form::Distinct(_) => "IsDistinctFromOperator",
                _ => "BinaryOperator",
            };
            let mut n = leaf(t, ty);
            n.put("left", left);
            if let Some(k) = not {
                n.put("not", leaf(k, "Keyword"));
            }
            match o.form {
                Form::Infix | Form::NotInfix => {
                    let r = self.go(o.level);
                    n.put("right", r);
                }
                Form::Between(_) => {
                    let r = self.go(o.level);
                    n.put("right_min", r);
                    match self.v.next() {
                        Some(Item::And(t)) => n.put("and", leaf(t, "Keyword")),
                        o => panic!("AND expected: {:?}", o),
                    }
                    let r = self.go(o.level);
                    n.put("right_max", r);
                }
                Form::In(_) | Form::Is(_) => match self.v.next() {
                    Some(Item::Extra(m)) => n.put("right", m),
                    o => panic!("right side expected: {:?}", o),
                },
                Form::Distinct(_) => {
                    match self.v.next() {
                        Some(Item::Extra(m)) => {
                            // two keywords in one
                            for (k, c) in m.kids {
                                if let MKid::One(c) = c {
                                    n.put(k, c)
                                }
                            }
                        }
                        o => panic!("DISTINCT FROM expected: {:?}", o),
                    }
                    let r = self.go(o.level);
                    n.put("right", r);
                }
            }
            left = n;
        }
        left
    }
}

/// how the operands look
#[derive(Clone, Copy, PartialEq)]
pub enum Operands {
    /// single letters
    Plain,
    /// numbers, calls, fields, elements, groups, ...
    Rich,
}

/// Writes an expression: `ops[i]` between operand i and i + 1; `pre[i]` before operand i
/// (0 nothing, 1 -, 2 ~, 3 +, 4 NOT, 5 NOT -, 6 - +). Returns None if the sequence is not
/// grammatical: NOT may only follow AND, OR or nothing.
pub fn build(g: &mut G, ops: &[usize], pre: &[u32], operands: Operands) -> Option<M> {
    for (i, p) in pre.iter().enumerate() {
        if *p >= 4 && *p <= 5 && i > 0 && OPS[ops[i - 1]].level < 11 {
            return None;
        }
    }
    // nothing that binds tighter can follow the right side of IN and IS
    for w in ops.windows(2) {
        if matches!(OPS[w[0]].form, Form::In(_) | Form::Is(_)) && OPS[w[1]].level < 9 {
            return None;
        }
    }
    let mut v = vec![];
    let n = ops.len();
    for i in 0..=n {
        let p = pre.get(i).copied().unwrap_or(0);
        let words: &[&str] = match p {
            1 => &["-"],
            2 => &["~"],
            3 => &["+"],
            4 => &["NOT"],
            5 => &["NOT", "-"],
            6 => &["-", "+"],
            _ => &[],
        };
        // IN and IS bring their right side along
        let has_operand = i == 0 || !matches!(OPS[ops[i - 1]].form, Form::In(_) | Form::Is(_));
        if has_operand {
            for w in words {
                let t = g.emit(w, *w == "NOT");
                v.push(Item::Pre(t, if *w == "NOT" { 10 } else { 2 }));
            }
            let a = operand(g, operands, i);
            v.push(Item::Atom(a));
            if i > 0 {
                if let Form::Between(_) = OPS[ops[i - 1]].form {
                    let t = g.emit("AND", true);
                    v.push(Item::And(t));
                    let a = operand(g, operands, i + 7);
                    v.push(Item::Atom(a));
                }
            }
        } else if !words.is_empty() {
            return None;
        }
        if i < n {
            let o = &OPS[ops[i]];
            let kw = o.lit.chars().all(|c| c.is_alphabetic());
            match o.form {
                Form::NotInfix | Form::Between(true) | Form::In(true) => {
                    let k = g.emit("NOT", true);
                    let t = g.emit(o.lit, kw);
                    v.push(Item::Op(ops[i], t, Some(k)));
                }
                Form::Is(true) | Form::Distinct(true) => {
                    let t = g.emit(o.lit, kw);
                    let k = g.emit("NOT", true);
                    v.push(Item::Op(ops[i], t, Some(k)));
                }
                _ => {
                    let t = g.emit(o.lit, kw);
                    v.push(Item::Op(ops[i], t, None));
                }
            }
            match o.form {
                Form::Is(_) => {
                    let m = match i % 3 {
                        0 => g.kw("NULL", "NullLiteral"),
                        1 => g.kw("TRUE", "BooleanLiteral"),
                        _ => g.kw("FALSE", "BooleanLiteral"),
                    };
                    v.push(Item::Extra(m));
                }
                Form::In(_) => {
                    let mut m = g.t("(", "GroupedExprs");
                    let a = g.t("1", "NumericLiteral");
                    m.puts("exprs", vec![a]);
                    let r = g.sym(")");
                    m.put("rparen", r);
                    v.push(Item::Extra(m));
                }
                Form::Distinct(_) => {
                    let mut m = G::none("pair");
                    let k = g.key("DISTINCT");
                    m.put("distinct", k);
                    let k = g.key("FROM");
                    m.put("from", k);
                    v.push(Item::Extra(m));
                }
                _ => (),
            }
        }
    }
    let mut c = Climb { v: v.into_iter().peekable(), _g: std::marker::PhantomData };
    let m = c.go(1000);
    assert!(c.v.next().is_none());
    Some(m)
}

fn operand(g: &mut G, kind: Operands, i: usize) -> M {
    const NAMES: &[&str] = &["a", "b", "c", "d", "e1", "f1", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q"];
    if kind == Operands::Plain {
        return g.t(NAMES[i % NAMES.len()], "Identifier");
    }
    let b = g.budget;
    g.budget = 4;
    let m = if g.s.chance(1, 2) { g.atom_simple() } else { g.primary() };
    g.budget = b;
    m
}

/// SELECT expr
pub fn in_select(g: &mut G, f: &mut dyn FnMut(&mut G) -> Option<M>) -> Option<M> {
    let mut n = g.kw("SELECT", "SelectStatement");
    let e = f(g)?;
    n.puts("exprs", vec![e]);
    Some(n)
}

pub fn random_sequence(s: &mut Src) -> (Vec<usize>, Vec<u32>) {
    let n = match s.pick(&[6, 4, 2]) {
        0 => s.range(2, 5),
        1 => s.range(4, 12),
        _ => s.range(12, 60),
    } as usize;
    let mut ops: Vec<usize> = vec![];
    for i in 0..n {
        let loose = i > 0 && matches!(OPS[ops[i - 1]].form, Form::In(_) | Form::Is(_));
        let lo = if loose { OPS.iter().position(|o| o.level == 9).unwrap() as u32 } else { 0 };
        ops.push((lo + s.below(OPS.len() as u32 - lo)) as usize);
    }
    let pre: Vec<u32> = (0..=n)
        .map(|i| {
            if i > 0 && matches!(OPS[ops[i - 1]].form, Form::In(_) | Form::Is(_)) {
                return 0;
            }
            let not = i == 0 || OPS[ops[i - 1]].level >= 11;
            match s.pick(&[8, 1, 1, 1, 1]) {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => {
                    if not {
                        4
                    } else {
                        3
                    }
                }
                _ => {
                    if not {
                        5
                    } else {
                        6
                    }
                }
            }
        })
        .collect();
    (ops, pre)
}
