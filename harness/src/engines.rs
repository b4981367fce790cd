//! Uniform adapters over the decision-diagram engines, with pointwise reference semantics.

use crate::tables::*;
use common::prelude::Dot;
use bddcore::prelude::{BddManager, DDForest, ZddManager};
use mddcore::prelude::{MddManager, MtMdd2Manager, MtMddManager, MddValue, ZmddManager, Terminal};
use std::collections::{HashMap, HashSet};

/// What the node behind an id is.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum N {
    T(i64),
    NT { level: usize, header: usize, ch: Vec<usize> },
}

/// Predicted value of an operation at one point.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum P {
    V(i64),
    /// The specification does not say (an undetermined operand matters here).
    Any,
    /// Outside the domain (overflow): do not perform the operation.
    Skip,
}

/// Values whose exactness does not depend on the width of the integers used.
pub const LIM: i64 = i32::MAX as i64;

/// How variables are laid out in a manager: `levels[i]` is the raw level of variable i
/// (strictly increasing, possibly with gaps) and `order` is the order of declaration.
#[derive(Clone, Debug)]
pub struct Layout {
    pub ranges: Vec<usize>,
    pub levels: Vec<usize>,
    pub order: Vec<usize>,
}

impl Layout {
    pub fn plain(ranges: &[usize]) -> Self {
        Layout { ranges: ranges.to_vec(), levels: (0..ranges.len()).collect(), order: (0..ranges.len()).collect() }
    }
    pub fn random(ranges: &[usize], s: &mut crate::pbt::Src) -> Self {
        let mut l = Self::plain(ranges);
        let mode = s.below(4);
        if mode & 1 == 1 {
            for i in (1..l.order.len()).rev() {
                let j = s.below(i + 1);
                l.order.swap(i, j);
            }
        }
        if mode & 2 == 2 {
            let mut cur = s.below(3);
            for x in l.levels.iter_mut() {
                *x = cur;
                cur += 1 + s.below(4);
            }
        }
        l
    }
    fn headers(&self, mut mk: impl FnMut(usize, &str, usize) -> usize) -> Vec<usize> {
        let mut h = vec![0; self.ranges.len()];
        for &v in &self.order {
            h[v] = mk(self.levels[v], &format!("x{v}"), self.ranges[v]);
        }
        h
    }
    fn var(&self, level: usize) -> Result<usize, String> {
        self.levels.binary_search(&level).map_err(|_| format!("a node carries level {level}, which was never declared"))
    }
}

pub trait Engine: Sized {
    const NAME: &'static str;
    const ZERO_SUPPRESSED: bool;
    /// Value of a zero-suppressed kind at points off the diagram.
    const EMPTY: i64;
    const BINARY: bool;
    fn new(lay: &Layout) -> Self;
    /// The node with its raw level number.
    fn raw(&self, id: usize) -> Result<N, String>;
    fn lay(&self) -> &Layout;
    /// The node with its variable index as level.
    fn node(&self, id: usize) -> Result<N, String> {
        Ok(match self.raw(id)? {
            N::NT { level, header, ch } => N::NT { level: self.lay().var(level)?, header, ch },
            t => t,
        })
    }
    /// (live, allocated) per node arena.
    fn arenas(&self) -> Vec<(usize, usize)> {
        vec![(self.live(), self.slots())]
    }
    fn cache_len(&self) -> usize;
    fn leaf(&mut self, sort: u8, v: i64) -> usize;
    fn mk(&mut self, level: usize, ch: &[usize]) -> usize;
    /// Values a leaf of this sort may take in generated tables (the last may be UNDET).
    fn vals(sort: u8) -> Vec<i64>;
    /// Values that need most of the integer type's width.
    fn big_vals(_sort: u8) -> Vec<i64> {
        vec![]
    }
    fn undet_ok() -> bool;
    fn nsorts() -> u8 {
        1
    }
    fn sort(&self, _id: usize) -> u8 {
        0
    }
    /// (name, operand sorts, result sort)
    fn ops() -> &'static [(&'static str, &'static [u8], u8)];
    fn apply(&mut self, op: usize, a: &[usize]) -> usize;
    fn point(op: usize, x: &[i64]) -> P;
    fn model(op: usize, _sp: &Space, t: &[&Table]) -> Vec<P> {
        let n = t[0].len();
        let mut buf = vec![0; t.len()];
        (0..n)
            .map(|p| {
                for (b, tt) in buf.iter_mut().zip(t) {
                    *b = tt[p];
                }
                Self::point(op, &buf)
            })
            .collect()
    }
    fn gc(&mut self, roots: &[usize]);
    fn live(&self) -> usize;
    /// Allocated node slots (if the engine reports them), for boundedness.
    fn slots(&self) -> usize;
    fn clear(&mut self);
    /// DOT text of a diagram, and the name of a terminal in it.
    fn dot(&self, id: usize) -> String;
    fn term_label(&self, id: usize, v: i64) -> String;
    /// The number the id is shown as in DOT text.
    fn dot_id(&self, id: usize) -> usize {
        id
    }
    /// Number of permanently live terminals.
    fn permanent(&self) -> HashSet<usize>;

    fn build(&mut self, sp: &Space, sort: u8, t: &Table) -> usize {
        self.build_rec(sp, sort, t, sp.n(), 0)
    }
    fn build_rec(&mut self, sp: &Space, sort: u8, t: &Table, level: usize, base: usize) -> usize {
        if level == 0 {
            return self.leaf(sort, t[base]);
        }
        let v = level - 1;
        let ch: Vec<usize> = (0..sp.ranges[v]).map(|i| self.build_rec(sp, sort, t, level - 1, base + i * sp.strides[v])).collect();
        self.mk(v, &ch)
    }
    fn table(&self, sp: &Space, id: usize) -> Result<Table, String> {
        let mut out = vec![Self::EMPTY; sp.size];
        self.table_rec(sp, id, sp.n(), 0, &mut out)?;
        Ok(out)
    }
    fn table_rec(&self, sp: &Space, id: usize, level: usize, base: usize, out: &mut Table) -> Result<(), String> {
        let n = self.node(id)?;
        match &n {
            N::T(v) => {
                if Self::ZERO_SUPPRESSED {
                    out[base] = *v;
                } else {
                    let w: usize = sp.ranges[..level].iter().product();
                    out[base..base + w].fill(*v);
                }
                Ok(())
            }
            N::NT { level: l, ch, .. } => {
                if *l >= level {
                    return Err(format!("node {id} at level {l} lies under level {level}: not ordered"));
                }
                let v = *l;
                if ch.len() != sp.ranges[v] {
                    return Err(format!("node {id} has {} children, its variable has {} states", ch.len(), sp.ranges[v]));
                }
                if Self::ZERO_SUPPRESSED {
                    for (i, &c) in ch.iter().enumerate() {
                        self.table_rec(sp, c, v, base + i * sp.strides[v], out)?;
                    }
                } else {
                    // expand once, then replicate over skipped levels
                    for (i, &c) in ch.iter().enumerate() {
                        self.table_rec(sp, c, v, base + i * sp.strides[v], out)?;
                    }
                    let w = sp.strides[v] * sp.ranges[v];
                    let full: usize = sp.ranges[..level].iter().product();
                    let mut off = w;
                    while off < full {
                        out.copy_within(base..base + w, base + off);
                        off += w;
                    }
                }
                Ok(())
            }
        }
    }
    /// All ids reachable from the roots (terminals included).
    fn reach(&self, roots: &[usize]) -> Result<HashSet<usize>, String> {
        let mut seen = HashSet::new();
        let mut st: Vec<usize> = roots.to_vec();
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if let N::NT { ch, .. } = self.node(x)? {
                st.extend(ch);
            }
        }
        Ok(seen)
    }
    /// Ordered, reduced, no duplicates.
    fn audit(&self, roots: &[usize]) -> Result<usize, String> {
        let seen = self.reach(roots)?;
        let mut uniq: HashMap<(u8, usize, Vec<usize>), usize> = HashMap::new();
        let mut terms: HashMap<(u8, i64), usize> = HashMap::new();
        for &x in &seen {
            match self.node(x)? {
                N::T(v) => {
                    if let Some(o) = terms.insert((self.sort(x), v), x) {
                        return Err(format!("two terminal nodes {o} and {x} carry the same value {v}"));
                    }
                }
                N::NT { level, ch, .. } => {
                    for &c in &ch {
                        if let N::NT { level: cl, .. } = self.node(c)? {
                            if cl >= level {
                                return Err(format!("not ordered: node {x} level {level} has child {c} at level {cl}"));
                            }
                        }
                    }
                    if Self::ZERO_SUPPRESSED {
                        let mut dead = true;
                        for &c in &ch[1..] {
                            if self.node(c)? != N::T(Self::EMPTY) {
                                dead = false;
                            }
                        }
                        if dead {
                            return Err(format!("not reduced: node {x} has only empty non-zero branches"));
                        }
                    } else if ch.iter().all(|&c| c == ch[0]) {
                        return Err(format!("not reduced: node {x} has identical children"));
                    }
                    if let Some(o) = uniq.insert((self.sort(x), level, ch.clone()), x) {
                        return Err(format!("nodes {o} and {x} have the same variable and children {ch:?}"));
                    }
                }
            }
        }
        Ok(seen.len())
    }
}

fn b(x: bool) -> i64 {
    x as i64
}

// ---------------------------------------------------------------- BDD

pub struct Bdd {
    pub m: BddManager,
    pub h: Vec<usize>,
    pub lay: Layout,
}

pub fn bool_point(op: usize, x: &[i64]) -> P {
    // not and or xor imp nand nor xnor ite
    if op == 8 {
        return match x[0] {
            1 => P::V(x[1]),
            0 => P::V(x[2]),
            // without a condition there is an answer only where both branches agree
            _ if x[1] == x[2] => P::Any,
            _ => P::V(UNDET),
        };
    }
    if op == 0 {
        return P::V(if x[0] == UNDET { UNDET } else { 1 - x[0] });
    }
    if x[0] == UNDET || x[1] == UNDET {
        // What matters stays undetermined; where the other operand settles the answer, or
        // the operands can be recognised as equal, a determinate answer is allowed too.
        let settles = |v: i64, w: i64| match op {
            1 | 5 => v == 0,
            2 | 6 => v == 1,
            4 => w == 0 && v == 0 || w == 1 && v == 1,
            _ => false,
        };
        let same = x[0] == x[1] && !matches!(op, 1 | 2 | 5 | 6);
        return if same || settles(x[0], 0) || settles(x[1], 1) { P::Any } else { P::V(UNDET) };
    }
    let (f, g) = (x[0] == 1, x[1] == 1);
    P::V(b(match op {
        1 => f && g,
        2 => f || g,
        3 => f ^ g,
        4 => !f || g,
        5 => !(f && g),
        6 => !(f || g),
        7 => f == g,
        _ => unreachable!(),
    }))
}

impl Engine for Bdd {
    const NAME: &'static str = "bdd";
    const ZERO_SUPPRESSED: bool = false;
    const EMPTY: i64 = UNDET;
    const BINARY: bool = true;
    fn new(lay: &Layout) -> Self {
        let mut m = BddManager::new();
        let h = lay.headers(|l, n, _| m.create_header(l, n));
        Bdd { m, h, lay: lay.clone() }
    }
    fn lay(&self) -> &Layout {
        &self.lay
    }
    fn raw(&self, id: usize) -> Result<N, String> {
        match self.m.get_node(&id) {
            None => Err(format!("no node {id}")),
            Some(bddcore::nodes::Node::Zero) => Ok(N::T(0)),
            Some(bddcore::nodes::Node::One) => Ok(N::T(1)),
            Some(bddcore::nodes::Node::Undet) => Ok(N::T(UNDET)),
            Some(bddcore::nodes::Node::NonTerminal(n)) => {
                let h = self.m.get_header(&n.headerid()).ok_or("no header")?;
                if n.id() != id {
                    return Err(format!("node stored under {id} says its id is {}", n.id()));
                }
                Ok(N::NT { level: h.level(), header: n.headerid(), ch: n.iter().collect() })
            }
        }
    }
    fn leaf(&mut self, _s: u8, v: i64) -> usize {
        match v {
            0 => self.m.zero(),
            1 => self.m.one(),
            _ => self.m.undet(),
        }
    }
    fn mk(&mut self, level: usize, ch: &[usize]) -> usize {
        self.m.create_node(self.h[level], ch[0], ch[1])
    }
    fn vals(_s: u8) -> Vec<i64> {
        vec![0, 1, UNDET]
    }
    fn undet_ok() -> bool {
        true
    }
    fn ops() -> &'static [(&'static str, &'static [u8], u8)] {
        &[
            ("not", &[0], 0),
            ("and", &[0, 0], 0),
            ("or", &[0, 0], 0),
            ("xor", &[0, 0], 0),
            ("imp", &[0, 0], 0),
            ("nand", &[0, 0], 0),
            ("nor", &[0, 0], 0),
            ("xnor", &[0, 0], 0),
            ("ite", &[0, 0, 0], 0),
        ]
    }
    fn apply(&mut self, op: usize, a: &[usize]) -> usize {
        let m = &mut self.m;
        match op {
            0 => m.not(a[0]),
            1 => m.and(a[0], a[1]),
            2 => m.or(a[0], a[1]),
            3 => m.xor(a[0], a[1]),
            4 => m.imp(a[0], a[1]),
            5 => m.nand(a[0], a[1]),
            6 => m.nor(a[0], a[1]),
            7 => m.xnor(a[0], a[1]),
            _ => m.ite(a[0], a[1], a[2]),
        }
    }
    fn point(op: usize, x: &[i64]) -> P {
        bool_point(op, x)
    }
    fn gc(&mut self, roots: &[usize]) {
        self.m.gc(roots);
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn slots(&self) -> usize {
        self.m.size().1
    }
    fn cache_len(&self) -> usize {
        self.m.size().2
    }
    fn dot(&self, id: usize) -> String {
        self.m.dot_string(&id)
    }
    fn term_label(&self, id: usize, v: i64) -> String {
        let _ = id;
        match v {
            0 => "0".into(),
            1 => "1".into(),
            _ => "?".into(),
        }
    }
    fn clear(&mut self) {
        self.m.clear_cache()
    }
    fn permanent(&self) -> HashSet<usize> {
        [self.m.zero(), self.m.one(), self.m.undet()].into()
    }
}

// ---------------------------------------------------------------- ZDD

pub struct Zdd {
    pub m: ZddManager,
    pub h: Vec<usize>,
    pub lay: Layout,
}

/// Subset masks: with binary ranges the point index is the member set as a bit mask.
pub fn family_op(op: usize, f: &Table, g: &Table) -> Option<Table> {
    let n = f.len();
    let mut r = vec![0; n];
    match op {
        0 => (0..n).for_each(|p| r[p] = f[p] & g[p]),
        1 => (0..n).for_each(|p| r[p] = f[p] | g[p]),
        2 => (0..n).for_each(|p| r[p] = f[p] & (1 - g[p])),
        3 => {
            let gm: Vec<usize> = (0..n).filter(|&p| g[p] == 1).collect();
            for p in (0..n).filter(|&p| f[p] == 1) {
                for &q in &gm {
                    r[p | q] = 1;
                }
            }
        }
        _ => {
            let gm: Vec<usize> = (0..n).filter(|&p| g[p] == 1).collect();
            if gm.is_empty() {
                return None;
            }
            for c in 0..n {
                r[c] = b(gm.iter().all(|&q| c & q == 0 && f[c | q] == 1));
            }
        }
    }
    Some(r)
}

impl Engine for Zdd {
    const NAME: &'static str = "zdd";
    const ZERO_SUPPRESSED: bool = true;
    const EMPTY: i64 = 0;
    const BINARY: bool = true;
    fn new(lay: &Layout) -> Self {
        let mut m = ZddManager::new();
        let h = lay.headers(|l, n, _| m.create_header(l, n));
        Zdd { m, h, lay: lay.clone() }
    }
    fn lay(&self) -> &Layout {
        &self.lay
    }
    fn raw(&self, id: usize) -> Result<N, String> {
        match self.m.get_node(&id) {
            None => Err(format!("no node {id}")),
            Some(bddcore::nodes::Node::Zero) => Ok(N::T(0)),
            Some(bddcore::nodes::Node::One) => Ok(N::T(1)),
            Some(bddcore::nodes::Node::Undet) => Ok(N::T(UNDET)),
            Some(bddcore::nodes::Node::NonTerminal(n)) => {
                let h = self.m.get_header(&n.headerid()).ok_or("no header")?;
                if n.id() != id {
                    return Err(format!("node stored under {id} says its id is {}", n.id()));
                }
                Ok(N::NT { level: h.level(), header: n.headerid(), ch: n.iter().collect() })
            }
        }
    }
    fn leaf(&mut self, _s: u8, v: i64) -> usize {
        match v {
            0 => self.m.zero(),
            1 => self.m.one(),
            _ => self.m.undet(),
        }
    }
    fn mk(&mut self, level: usize, ch: &[usize]) -> usize {
        self.m.create_node(self.h[level], ch[0], ch[1])
    }
    fn vals(_s: u8) -> Vec<i64> {
        vec![0, 1]
    }
    fn undet_ok() -> bool {
        false
    }
    fn ops() -> &'static [(&'static str, &'static [u8], u8)] {
        &[
            ("intersect", &[0, 0], 0),
            ("union", &[0, 0], 0),
            ("setdiff", &[0, 0], 0),
            ("product", &[0, 0], 0),
            ("divide", &[0, 0], 0),
        ]
    }
    fn apply(&mut self, op: usize, a: &[usize]) -> usize {
        let m = &mut self.m;
        match op {
            0 => m.intersect(a[0], a[1]),
            1 => m.union(a[0], a[1]),
            2 => m.setdiff(a[0], a[1]),
            3 => m.product(a[0], a[1]),
            _ => m.divide(a[0], a[1]),
        }
    }
    fn point(_op: usize, _x: &[i64]) -> P {
        P::Skip
    }
    fn model(op: usize, _sp: &Space, t: &[&Table]) -> Vec<P> {
        match family_op(op, t[0], t[1]) {
            Some(r) => r.into_iter().map(P::V).collect(),
            None => vec![P::Skip; t[0].len()],
        }
    }
    fn gc(&mut self, roots: &[usize]) {
        self.m.gc(roots);
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn slots(&self) -> usize {
        self.m.size().1
    }
    fn cache_len(&self) -> usize {
        self.m.size().2
    }
    fn dot(&self, id: usize) -> String {
        self.m.dot_string(&id)
    }
    fn term_label(&self, id: usize, v: i64) -> String {
        let _ = id;
        match v {
            0 => "0".into(),
            1 => "1".into(),
            _ => "*".into(),
        }
    }
    fn clear(&mut self) {
        self.m.clear_cache()
    }
    fn permanent(&self) -> HashSet<usize> {
        [self.m.zero(), self.m.one(), self.m.undet()].into()
    }
}

// ---------------------------------------------------------------- MDD

pub struct Mdd {
    pub m: MddManager,
    pub h: Vec<usize>,
    pub lay: Layout,
}

fn mdd_node(m: &MddManager, id: usize) -> Result<N, String> {
    use mddcore::mdd::Node;
    match m.get_node(&id) {
        None => Err(format!("no node {id}")),
        Some(Node::Zero) => Ok(N::T(0)),
        Some(Node::One) => Ok(N::T(1)),
        Some(Node::Undet) => Ok(N::T(UNDET)),
        Some(Node::NonTerminal(n)) => {
            let h = m.get_header(&n.headerid()).ok_or("no header")?;
            if n.id() != id {
                return Err(format!("node stored under {id} says its id is {}", n.id()));
            }
            Ok(N::NT { level: h.level(), header: n.headerid(), ch: n.iter().collect() })
        }
    }
}

fn mt_node<V: MddValue + Into<i64>>(n: Option<&mddcore::mtmdd::Node<V>>, hdr: impl Fn(usize) -> Option<usize>, id: usize) -> Result<N, String> {
    use mddcore::mtmdd::Node;
    match n {
        None => Err(format!("no node {id}")),
        Some(Node::Undet) => Ok(N::T(UNDET)),
        Some(Node::Terminal(t)) => {
            if t.id() != id {
                return Err(format!("terminal stored under {id} says its id is {}", t.id()));
            }
            Ok(N::T(t.value().into()))
        }
        Some(Node::NonTerminal(n)) => {
            if n.id() != id {
                return Err(format!("node stored under {id} says its id is {}", n.id()));
            }
            Ok(N::NT { level: hdr(n.headerid()).ok_or("no header")?, header: n.headerid(), ch: n.iter().collect() })
        }
    }
}

impl Engine for Mdd {
    const NAME: &'static str = "mdd";
    const ZERO_SUPPRESSED: bool = false;
    const EMPTY: i64 = UNDET;
    const BINARY: bool = false;
    fn new(lay: &Layout) -> Self {
        let mut m = MddManager::new();
        let h = lay.headers(|l, n, r| m.create_header(l, n, r));
        Mdd { m, h, lay: lay.clone() }
    }
    fn lay(&self) -> &Layout {
        &self.lay
    }
    fn raw(&self, id: usize) -> Result<N, String> {
        mdd_node(&self.m, id)
    }
    fn leaf(&mut self, _s: u8, v: i64) -> usize {
        match v {
            0 => self.m.zero(),
            1 => self.m.one(),
            _ => self.m.undet(),
        }
    }
    fn mk(&mut self, level: usize, ch: &[usize]) -> usize {
        self.m.create_node(self.h[level], ch)
    }
    fn vals(_s: u8) -> Vec<i64> {
        vec![0, 1, UNDET]
    }
    fn undet_ok() -> bool {
        true
    }
    fn ops() -> &'static [(&'static str, &'static [u8], u8)] {
        &[
            ("not", &[0], 0),
            ("and", &[0, 0], 0),
            ("or", &[0, 0], 0),
            ("xor", &[0, 0], 0),
            ("imp", &[0, 0], 0),
            ("nand", &[0, 0], 0),
            ("nor", &[0, 0], 0),
            ("xnor", &[0, 0], 0),
            ("ite", &[0, 0, 0], 0),
            ("replace", &[0, 0], 0),
        ]
    }
    fn apply(&mut self, op: usize, a: &[usize]) -> usize {
        let m = &mut self.m;
        match op {
            0 => m.not(a[0]),
            1 => m.and(a[0], a[1]),
            2 => m.or(a[0], a[1]),
            3 => m.xor(a[0], a[1]),
            4 => m.imp(a[0], a[1]),
            5 => m.nand(a[0], a[1]),
            6 => m.nor(a[0], a[1]),
            7 => m.xnor(a[0], a[1]),
            8 => m.ite(a[0], a[1], a[2]),
            _ => m.replace(a[0], a[1]),
        }
    }
    fn point(op: usize, x: &[i64]) -> P {
        if op == 9 {
            P::V(if x[0] == UNDET { x[1] } else { x[0] })
        } else {
            bool_point(op, x)
        }
    }
    fn gc(&mut self, roots: &[usize]) {
        self.m.gc(roots);
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn slots(&self) -> usize {
        self.m.size().1
    }
    fn cache_len(&self) -> usize {
        self.m.size().2
    }
    fn dot(&self, id: usize) -> String {
        self.m.dot_string(&id)
    }
    fn term_label(&self, id: usize, v: i64) -> String {
        let _ = id;
        match v {
            0 => "F".into(),
            1 => "T".into(),
            _ => "?".into(),
        }
    }
    fn clear(&mut self) {
        self.m.clear_cache()
    }
    fn permanent(&self) -> HashSet<usize> {
        [self.m.zero(), self.m.one(), self.m.undet()].into()
    }
}

// ---------------------------------------------------------------- MTMDD

const BIG: [i64; 12] = [255, 256, -256, 32768, 65535, 65536, 65537, -65536, 1 << 24, (1 << 30) + 1, i32::MAX as i64, -(i32::MAX as i64)];

pub trait Val: MddValue + Into<i64> {
    const LIM: i64;
    fn of(x: i64) -> Self;
    fn bigs() -> Vec<i64> {
        let mut v = BIG.to_vec();
        if Self::LIM > 1 << 40 {
            v.extend([1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, -(1 << 32), 1 << 40, (1 << 53) + 1, 1 << 53, (1 << 61) + 7, -(1 << 61) - 7]);
        }
        v
    }
}
impl Val for i32 {
    const LIM: i64 = LIM;
    fn of(x: i64) -> Self {
        x as i32
    }
}
impl Val for i64 {
    const LIM: i64 = 1 << 62;
    fn of(x: i64) -> Self {
        x
    }
}

pub struct Mt<V: Val> {
    pub m: MtMddManager<V>,
    pub h: Vec<usize>,
    pub lay: Layout,
}

pub fn arith_point(op: usize, x: &[i64]) -> P {
    arith_lim(op, x, LIM)
}

/// Integer arithmetic at one point; results beyond `lim` are outside the domain.
pub fn arith_lim(op: usize, x: &[i64], lim: i64) -> P {
    // add sub mul div rem min max replace
    let (f, g) = (x[0], x[1]);
    if op == 7 {
        return P::V(if f == UNDET { g } else { f });
    }
    if f == UNDET || g == UNDET {
        return P::V(UNDET);
    }
    let (f, g) = (f as i128, g as i128);
    let r = match op {
        0 => f + g,
        1 => f - g,
        2 => f * g,
        3 | 4 if g == 0 => return P::V(UNDET),
        3 => f / g,
        4 => f % g,
        5 => f.min(g),
        _ => f.max(g),
    };
    if r.abs() > lim as i128 {
        P::Skip
    } else {
        P::V(r as i64)
    }
}

impl<V: Val> Engine for Mt<V> {
    const NAME: &'static str = "mtmdd";
    const ZERO_SUPPRESSED: bool = false;
    const EMPTY: i64 = UNDET;
    const BINARY: bool = false;
    fn new(lay: &Layout) -> Self {
        let mut m = MtMddManager::new();
        let h = lay.headers(|l, n, r| m.create_header(l, n, r));
        Mt { m, h, lay: lay.clone() }
    }
    fn lay(&self) -> &Layout {
        &self.lay
    }
    fn raw(&self, id: usize) -> Result<N, String> {
        mt_node(self.m.get_node(&id), |h| self.m.get_header(&h).map(|x| x.level()), id)
    }
    fn leaf(&mut self, _s: u8, v: i64) -> usize {
        if v == UNDET {
            self.m.undet()
        } else {
            self.m.value(V::of(v))
        }
    }
    fn mk(&mut self, level: usize, ch: &[usize]) -> usize {
        self.m.create_node(self.h[level], ch)
    }
    fn vals(_s: u8) -> Vec<i64> {
        vec![0, 1, 2, -1, 3, -4, 7, 100, UNDET]
    }
    fn big_vals(_s: u8) -> Vec<i64> {
        V::bigs()
    }
    fn undet_ok() -> bool {
        true
    }
    fn ops() -> &'static [(&'static str, &'static [u8], u8)] {
        &[
            ("add", &[0, 0], 0),
            ("sub", &[0, 0], 0),
            ("mul", &[0, 0], 0),
            ("div", &[0, 0], 0),
            ("rem", &[0, 0], 0),
            ("min", &[0, 0], 0),
            ("max", &[0, 0], 0),
            ("replace", &[0, 0], 0),
        ]
    }
    fn apply(&mut self, op: usize, a: &[usize]) -> usize {
        let m = &mut self.m;
        match op {
            0 => m.add(a[0], a[1]),
            1 => m.sub(a[0], a[1]),
            2 => m.mul(a[0], a[1]),
            3 => m.div(a[0], a[1]),
            4 => m.rem(a[0], a[1]),
            5 => m.min(a[0], a[1]),
            6 => m.max(a[0], a[1]),
            _ => m.replace(a[0], a[1]),
        }
    }
    fn point(op: usize, x: &[i64]) -> P {
        arith_lim(op, x, V::LIM)
    }
    fn gc(&mut self, roots: &[usize]) {
        self.m.gc(roots);
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn slots(&self) -> usize {
        self.m.size().1
    }
    fn cache_len(&self) -> usize {
        self.m.size().3
    }
    fn dot(&self, id: usize) -> String {
        self.m.dot_string(&id)
    }
    fn term_label(&self, id: usize, v: i64) -> String {
        let _ = id;
        if v == UNDET { "Undet".into() } else { v.to_string() }
    }
    fn clear(&mut self) {
        self.m.clear_cache()
    }
    fn permanent(&self) -> HashSet<usize> {
        [self.m.undet()].into()
    }
}

// ---------------------------------------------------------------- MTMDD2 (value + Boolean)

/// Node ids are encoded as 2*id + (1 for Boolean).
pub struct Mt2<V: Val> {
    pub m: MtMdd2Manager<V>,
    pub h: Vec<usize>,
    pub lay: Layout,
}

use mddcore::mtmdd2::Node as N2;

pub fn dec(x: usize) -> N2 {
    if x & 1 == 1 {
        N2::Bool(x >> 1)
    } else {
        N2::Value(x >> 1)
    }
}
pub fn enc(n: N2) -> usize {
    match n {
        N2::Bool(i) => i * 2 + 1,
        N2::Value(i) => i * 2,
    }
}

const VV: u8 = 0;
const BB: u8 = 1;

pub fn mt2_ops() -> &'static [(&'static str, &'static [u8], u8)] {
    &[
        ("add", &[VV, VV], VV),
        ("sub", &[VV, VV], VV),
        ("mul", &[VV, VV], VV),
        ("div", &[VV, VV], VV),
        ("min", &[VV, VV], VV),
        ("max", &[VV, VV], VV),
        ("eq", &[VV, VV], BB),
        ("neq", &[VV, VV], BB),
        ("lt", &[VV, VV], BB),
        ("lte", &[VV, VV], BB),
        ("gt", &[VV, VV], BB),
        ("gte", &[VV, VV], BB),
        ("and", &[BB, BB], BB),
        ("or", &[BB, BB], BB),
        ("xor", &[BB, BB], BB),
        ("not", &[BB], BB),
        ("eqb", &[BB, BB], BB),
        ("neqb", &[BB, BB], BB),
        ("itev", &[BB, VV, VV], VV),
        ("iteb", &[BB, BB, BB], BB),
        ("vif", &[BB, VV], VV),
    ]
}

pub fn mt2_point(op: usize, x: &[i64]) -> P {
    mt2_lim(op, x, LIM)
}

pub fn mt2_lim(op: usize, x: &[i64], lim: i64) -> P {
    match op {
        0..=3 => arith_lim(op, x, lim),
        4 => arith_lim(5, x, lim),
        5 => arith_lim(6, x, lim),
        6..=11 => {
            let (f, g) = (x[0], x[1]);
            if f == UNDET || g == UNDET {
                // without a value the comparison is not true; what the negated and the
                // combined forms say there is left open
                return if matches!(op, 6 | 8 | 10) { P::V(0) } else { P::Any };
            }
            P::V(b(match op {
                6 => f == g,
                7 => f != g,
                8 => f < g,
                9 => f <= g,
                10 => f > g,
                _ => f >= g,
            }))
        }
        12 => bool_point(1, x),
        13 => bool_point(2, x),
        14 => bool_point(3, x),
        15 => bool_point(0, x),
        16 => bool_point(7, x),
        17 => bool_point(3, x),
        18 | 19 => bool_point(8, x),
        _ => P::V(if x[0] == 1 { x[1] } else { UNDET }),
    }
}

impl<V: Val> Engine for Mt2<V> {
    const NAME: &'static str = "mtmdd2";
    const ZERO_SUPPRESSED: bool = false;
    const EMPTY: i64 = UNDET;
    const BINARY: bool = false;
    fn new(lay: &Layout) -> Self {
        let mut m = MtMdd2Manager::new();
        let h = lay.headers(|l, n, r| m.create_header(l, n, r));
        Mt2 { m, h, lay: lay.clone() }
    }
    fn lay(&self) -> &Layout {
        &self.lay
    }
    fn raw(&self, x: usize) -> Result<N, String> {
        let (n, tag) = match dec(x) {
            N2::Bool(i) => (mdd_node(self.m.mdd(), i)?, 1),
            N2::Value(i) => (mt_node(self.m.mtmdd().get_node(&i), |h| self.m.mtmdd().get_header(&h).map(|x| x.level()), i)?, 0),
        };
        Ok(match n {
            N::T(v) => N::T(v),
            N::NT { level, header, ch } => N::NT { level, header, ch: ch.into_iter().map(|c| c * 2 + tag).collect() },
        })
    }
    fn leaf(&mut self, s: u8, v: i64) -> usize {
        enc(if s == BB {
            match v {
                0 => self.m.zero(),
                1 => self.m.one(),
                _ => self.m.undet_boolean(),
            }
        } else if v == UNDET {
            self.m.undet_value()
        } else {
            self.m.value(V::of(v))
        })
    }
    fn mk(&mut self, level: usize, ch: &[usize]) -> usize {
        let c: Vec<N2> = ch.iter().map(|&x| dec(x)).collect();
        enc(self.m.create_node(self.h[level], &c))
    }
    fn vals(s: u8) -> Vec<i64> {
        if s == BB {
            vec![0, 1, UNDET]
        } else {
            vec![0, 1, 2, -1, 3, -4, 7, UNDET]
        }
    }
    fn big_vals(s: u8) -> Vec<i64> {
        if s == BB {
            vec![]
        } else {
            V::bigs()
        }
    }
    fn undet_ok() -> bool {
        true
    }
    fn nsorts() -> u8 {
        2
    }
    fn sort(&self, x: usize) -> u8 {
        (x & 1) as u8
    }
    fn ops() -> &'static [(&'static str, &'static [u8], u8)] {
        mt2_ops()
    }
    fn apply(&mut self, op: usize, a: &[usize]) -> usize {
        let x: Vec<N2> = a.iter().map(|&i| dec(i)).collect();
        let m = &mut self.m;
        enc(match op {
            0 => m.add(x[0], x[1]),
            1 => m.sub(x[0], x[1]),
            2 => m.mul(x[0], x[1]),
            3 => m.div(x[0], x[1]),
            4 => m.min(x[0], x[1]),
            5 => m.max(x[0], x[1]),
            6 => m.eq(x[0], x[1]),
            7 => m.neq(x[0], x[1]),
            8 => m.lt(x[0], x[1]),
            9 => m.lte(x[0], x[1]),
            10 => m.gt(x[0], x[1]),
            11 => m.gte(x[0], x[1]),
            12 => m.and(x[0], x[1]),
            13 => m.or(x[0], x[1]),
            14 => m.xor(x[0], x[1]),
            15 => m.not(x[0]),
            16 => m.eq(x[0], x[1]),
            17 => m.neq(x[0], x[1]),
            18 | 19 => m.ite(x[0], x[1], x[2]),
            _ => N2::Value(m.vif(a[0] >> 1, a[1] >> 1)),
        })
    }
    fn point(op: usize, x: &[i64]) -> P {
        mt2_lim(op, x, V::LIM)
    }
    fn gc(&mut self, roots: &[usize]) {
        let r: Vec<N2> = roots.iter().map(|&x| dec(x)).collect();
        self.m.gc(&r);
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn slots(&self) -> usize {
        self.m.mdd().size().1 + self.m.mtmdd().size().1
    }
    fn arenas(&self) -> Vec<(usize, usize)> {
        vec![
            (self.m.mdd().live_node_count(), self.m.mdd().size().1),
            (self.m.mtmdd().live_node_count(), self.m.mtmdd().size().1),
        ]
    }
    fn cache_len(&self) -> usize {
        self.m.mdd().size().2 + self.m.mtmdd().size().3
    }
    fn dot(&self, id: usize) -> String {
        self.m.dot_string(&dec(id))
    }
    fn term_label(&self, id: usize, v: i64) -> String {
        if id & 1 == 1 {
            match v {
                0 => "F".into(),
                1 => "T".into(),
                _ => "?".into(),
            }
        } else if v == UNDET {
            "Undet".into()
        } else {
            v.to_string()
        }
    }
    fn dot_id(&self, id: usize) -> usize {
        id >> 1
    }
    fn clear(&mut self) {
        self.m.clear_cache()
    }
    fn permanent(&self) -> HashSet<usize> {
        [
            enc(self.m.zero()),
            enc(self.m.one()),
            enc(N2::Bool(self.m.mdd().undet())),
            enc(self.m.undet_value()),
        ]
        .into()
    }
}

// ---------------------------------------------------------------- ZMDD

pub struct Zm<V: Val> {
    pub m: ZmddManager<V>,
    pub h: Vec<usize>,
    pub lay: Layout,
}

impl<V: Val> Engine for Zm<V> {
    const NAME: &'static str = "zmdd";
    const ZERO_SUPPRESSED: bool = true;
    const EMPTY: i64 = UNDET;
    const BINARY: bool = false;
    fn new(lay: &Layout) -> Self {
        let mut m = ZmddManager::new();
        let h = lay.headers(|l, n, r| m.create_header(l, n, r));
        Zm { m, h, lay: lay.clone() }
    }
    fn lay(&self) -> &Layout {
        &self.lay
    }
    fn raw(&self, id: usize) -> Result<N, String> {
        mt_node(self.m.get_node(&id), |h| self.m.get_header(&h).map(|x| x.level()), id)
    }
    fn leaf(&mut self, _s: u8, v: i64) -> usize {
        if v == UNDET {
            self.m.undet()
        } else {
            self.m.value(V::of(v))
        }
    }
    fn mk(&mut self, level: usize, ch: &[usize]) -> usize {
        self.m.create_node(self.h[level], ch)
    }
    fn vals(_s: u8) -> Vec<i64> {
        vec![UNDET, UNDET, 0, 1, 2, -3, UNDET]
    }
    fn big_vals(_s: u8) -> Vec<i64> {
        V::bigs()
    }
    fn undet_ok() -> bool {
        true
    }
    fn ops() -> &'static [(&'static str, &'static [u8], u8)] {
        &[("intersect", &[0, 0], 0), ("setdiff", &[0, 0], 0), ("set_baseline2", &[0], 0), ("set_baseline0", &[0], 0)]
    }
    fn apply(&mut self, op: usize, a: &[usize]) -> usize {
        let m = &mut self.m;
        match op {
            0 => m.intersect(a[0], a[1]),
            1 => m.setdiff(a[0], a[1]),
            2 => m.set_baseline(a[0], V::of(2)),
            _ => m.set_baseline(a[0], V::of(0)),
        }
    }
    fn point(op: usize, x: &[i64]) -> P {
        P::V(match op {
            0 => {
                if x[0] == x[1] {
                    x[0]
                } else {
                    UNDET
                }
            }
            1 => {
                if x[0] == x[1] {
                    UNDET
                } else {
                    x[0]
                }
            }
            _ => unreachable!(),
        })
    }
    fn model(op: usize, _sp: &Space, t: &[&Table]) -> Vec<P> {
        let mut r: Vec<P>;
        if op >= 2 {
            r = t[0].iter().map(|&x| P::V(x)).collect();
            if t[0][0] == UNDET {
                r[0] = P::V(if op == 2 { 2 } else { 0 });
            }
        } else {
            r = (0..t[0].len()).map(|p| Self::point(op, &[t[0][p], t[1][p]])).collect();
        }
        r
    }
    fn gc(&mut self, roots: &[usize]) {
        self.m.gc(roots);
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn slots(&self) -> usize {
        self.m.size().1
    }
    fn cache_len(&self) -> usize {
        self.m.size().3
    }
    fn dot(&self, id: usize) -> String {
        self.m.dot_string(&id)
    }
    fn term_label(&self, id: usize, v: i64) -> String {
        let _ = id;
        if v == UNDET { "Undet".into() } else { v.to_string() }
    }
    fn clear(&mut self) {
        self.m.clear_cache()
    }
    fn permanent(&self) -> HashSet<usize> {
        [self.m.undet()].into()
    }
}
