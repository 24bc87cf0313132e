//! Generated scripts with the tree they must have.
use crate::api::{self, Out};
use crate::engine::Src;
use crate::gen::layout::{expect_script, lay, Laid, Style};
use crate::gen::{Mix, TokSpec, G, M};
use crate::oracle::Seen;
use crate::tree::{diff_list, N};
use std::sync::Arc;

pub type Dict = Arc<Vec<String>>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Size {
    Normal,
    /// long lists, deep nesting, long chains
    Large,
}

pub struct Made {
    pub toks: Vec<TokSpec>,
    pub stmts: Vec<M>,
    pub laid: Laid,
    pub s: Src,
}

pub fn generator(mut s: Src, dict: &Dict, mix: Option<Mix>, size: Size) -> G {
    let mix = match mix {
        Some(m) => m,
        None => [Mix::All, Mix::Query, Mix::Statements, Mix::Script][s.below(4) as usize],
    };
    let budget = match size {
        Size::Normal => [8, 20, 60, 150][s.pick(&[3, 3, 2, 1])],
        Size::Large => [10, 60, 400][s.pick(&[3, 2, 1])],
    };
    let mut g = G::new(s, budget, dict.clone());
    g.mix = mix;
    g.full = size == Size::Normal && g.s.chance(1, 5);
    if size == Size::Large {
        match g.s.below(3) {
            0 => g.big = g.s.range(1, 3),
            1 => {
                g.drive = match g.number_of_sources() {
                    Some(n) if n <= 120 => n,
                    _ => g.s.range(4, 24),
                }
            }
            _ => {
                g.big = 1;
                g.drive = g.s.range(4, 12);
            }
        }
    }
    g
}

pub fn finish(mut g: G, stmts: Vec<M>, style: Option<Style>) -> Made {
    let style = match style {
        Some(x) => x,
        None => [Style::Plain, Style::Dense, Style::Space, Style::Comments, Style::Vast][g.s.pick(&[4, 4, 4, 4, 1])],
    };
    let toks = std::mem::take(&mut g.toks);
    let laid = lay(&mut g.s, &toks, style, true);
    Made { toks, stmts, laid, s: g.s }
}

pub fn script(s: Src, dict: &Dict, mix: Option<Mix>, size: Size, style: Option<Style>) -> Made {
    let mut g = generator(s, dict, mix, size);
    let max = if size == Size::Large && g.s.chance(1, 10) { g.s.range(10, 120) } else { 2 };
    let stmts = g.script(max);
    finish(g, stmts, style)
}

/// the library's tree is the expected one, node by node
pub fn judge(m: &Made) -> (Seen, Option<Vec<N>>) {
    let want = expect_script(&m.stmts, &m.laid);
    match api::parse(&m.laid.text) {
        Out::Ok(got) => match diff_list(&want, &got, true) {
            Some(d) => (Seen::fail("ok", format!("expected vs got: {}", d)), None),
            None => (Seen::pass("ok", m.toks.len() >= 3), Some(want)),
        },
        o => (Seen::fail(o.kind(), format!("a grammatical script: {}", o.describe())), None),
    }
}
