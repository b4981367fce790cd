//! Checks of the multi-state layer (`mss`): handles, expressions, probabilities, importance,
//! minimal path/cut vectors, vector families, counts, graphs.

use crate::engines::{arith_lim, dec, enc, mt2_lim, mt2_ops, mt2_point, Val, P};
use crate::nums::*;
use crate::p_bss::{check_dot, damage, join_ws, label, STYLES};
use crate::pbt::*;
use crate::tables::*;
use crate::{ensure, step};
use mddcore::mtmdd2::Node as N2;
use mddcore::prelude::{DDForest, Terminal};
use mss::prelude::{MddNode, MddPath, MssMgr, ZmddNode, ZmddPath};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

type R = Result<(), String>;
const VAL: u8 = 0;
const BOOL: u8 = 1;

#[derive(Debug, Clone, PartialEq)]
pub enum D {
    T(i64),
    N { var: usize, level: usize, ch: Vec<usize> },
}
pub struct Dag {
    pub nodes: HashMap<usize, D>,
    pub root: usize,
}

pub fn key<V: Val>(f: &MddNode<V>) -> usize {
    enc(f.get_node())
}

/// The diagram below a node, read through the handle API.
pub fn dag<V: Val>(f: &MddNode<V>, idx: &HashMap<String, usize>) -> Result<Dag, String> {
    let mut nodes = HashMap::new();
    let mut st = vec![f.clone()];
    let kind = f.is_boolean();
    while let Some(x) = st.pop() {
        let id = key(&x);
        if nodes.contains_key(&id) {
            continue;
        }
        ensure!(x.is_boolean() == kind && x.is_value() != kind, "node {id} is of another kind than its root");
        let d = match x.get_children() {
            None => {
                ensure!(x.get_level().is_none() && x.get_label().is_none() && x.get_header().is_none(), "terminal node {id} claims a level or label");
                let k = (x.is_zero(), x.is_one(), x.is_undet(), x.value().map(|v| v.into()));
                match (kind, k) {
                    (true, (true, false, false, None)) => D::T(0),
                    (true, (false, true, false, None)) => D::T(1),
                    (_, (false, false, true, None)) => D::T(UNDET),
                    (false, (false, false, false, Some(v))) => D::T(v),
                    _ => return Err(format!("terminal node {id} (Boolean: {kind}) is classified {k:?}")),
                }
            }
            Some(ch) => {
                ensure!(!x.is_zero() && !x.is_one() && !x.is_undet() && x.value().is_none(), "nonterminal node {id} claims to be a constant");
                let l = x.get_label().ok_or("nonterminal without label")?;
                let level = x.get_level().ok_or("nonterminal without level")?;
                let var = *idx.get(&l).ok_or_else(|| format!("unknown label {l}"))?;
                for c in &ch {
                    if let Some(l) = c.get_level() {
                        ensure!(l < level, "child at level {l} under level {level}");
                    }
                }
                let d = D::N { var, level, ch: ch.iter().map(key).collect() };
                st.extend(ch);
                d
            }
        };
        nodes.insert(id, d);
    }
    Ok(Dag { nodes, root: key(f) })
}

impl Dag {
    pub fn eval(&self, digit: impl Fn(usize) -> usize) -> Result<i64, String> {
        let mut x = self.root;
        loop {
            match &self.nodes[&x] {
                D::T(v) => return Ok(*v),
                D::N { var, ch, .. } => x = *ch.get(digit(*var)).ok_or_else(|| format!("node of variable {var} has only {} branches", ch.len()))?,
            }
        }
    }
    pub fn table(&self, sp: &Space) -> Result<Table, String> {
        for d in self.nodes.values() {
            if let D::N { var, ch, .. } = d {
                ensure!(ch.len() == sp.ranges[*var], "node of variable {var} has {} branches, the variable {} states", ch.len(), sp.ranges[*var]);
            }
        }
        (0..sp.size).map(|p| self.eval(|v| sp.digit(p, v))).collect()
    }
}

/// A multi-state manager with named variables (declared lazily, in order) and its space.
pub struct X<V: Val> {
    pub m: MssMgr<V>,
    pub v: Vec<MddNode<V>>,
    pub sp: Space,
    pub labels: Vec<String>,
    pub idx: HashMap<String, usize>,
    pub churn: usize,
    /// 1, 2: Boolean (value) nodes left behind by earlier work fill the first 65536 or so
    /// ids as soon as all variables are declared
    pub spread: u32,
    fill_seed: u64,
}

pub type Fx<V> = (MddNode<V>, u8, Table);

impl<V: Val> X<V> {
    pub fn new(ranges: &[usize], s: &mut Src) -> Self {
        Self::styled(ranges, STYLES[s.below(9)])
    }
    pub fn styled(ranges: &[usize], style: usize) -> Self {
        let labels: Vec<String> = (0..ranges.len()).map(|i| label(style, i)).collect();
        let idx = labels.iter().enumerate().map(|(i, l)| (l.clone(), i)).collect();
        X { m: MssMgr::new(), v: vec![], sp: Space::new(ranges), labels, idx, churn: 0, spread: 0, fill_seed: 0 }
    }
    /// Any label style, and in half of the cases a manager that collects between queries.
    pub fn churning(ranges: &[usize], s: &mut Src) -> Self {
        let mut w = Self::styled(ranges, s.below(11));
        w.churn = s.below(4);
        if w.sp.size >= 48 && s.chance(1, 100) {
            w.spread_out(s);
        }
        if w.churn == 1 {
            w.m.set_gc_threshold(s.below(60));
        }
        w
    }
    pub fn churning_all(ranges: &[usize], s: &mut Src) -> Self {
        let mut w = Self::churning(ranges, s);
        for _ in 0..ranges.len() {
            w.declare();
        }
        w
    }
    /// Many declared components; no table over all their states exists.
    pub fn wide(ranges: &[usize]) -> Self {
        let n = ranges.len();
        let mut w = X { m: MssMgr::new(), v: vec![], sp: Space { ranges: ranges.to_vec(), strides: vec![], size: 0 }, churn: 0, spread: 0, fill_seed: 0, labels: (0..n).map(|i| format!("c{i}")).collect(), idx: (0..n).map(|i| (format!("c{i}"), i)).collect() };
        for _ in 0..n {
            w.declare();
        }
        w
    }
    fn spread_out(&mut self, s: &mut Src) {
        self.churn = 3;
        self.spread = s.range(1, 2) as u32;
        self.fill_seed = s.u64();
    }
    /// Leaves enough dead nodes behind for later nodes to get ids beyond 16
    /// bits, next to shared nodes with small ids.
    fn fill(&mut self) {
        let mut r = crate::p_bss::Lcg(self.fill_seed);
        let target = self.m.live_node_count() + 65500 + r.next() % 100;
        self.m.set_gc_threshold(usize::MAX);
        let kind = if self.spread == 1 { BOOL } else { VAL };
        let top = if kind == BOOL { 2 } else { r.next() % 4 + 2 };
        for _ in 0..30_000 {
            if self.m.live_node_count() >= target {
                break;
            }
            let t: Table = (0..self.sp.size).map(|_| (r.next() % top) as i64).collect();
            self.build(kind, &t);
        }
    }
    pub fn stir(&self, s: &mut Src, ctx: &mut Ctx) {
        if self.spread > 0 {
            ctx.class("ids_beyond_16_bits");
        }
        if self.churn == 2 && s.chance(1, 2) {
            self.m.gc(&[]);
            step!(ctx, "gc");
        }
    }
    pub fn declare(&mut self) {
        let i = self.v.len();
        if i < self.labels.len() {
            let x = self.m.defvar(&self.labels[i], self.sp.ranges[i]);
            self.v.push(x);
            if i + 1 == self.labels.len() && self.spread > 0 {
                self.fill();
            }
        }
    }
    pub fn all(ranges: &[usize], s: &mut Src) -> Self {
        let mut w = Self::new(ranges, s);
        for _ in 0..ranges.len() {
            w.declare();
        }
        w
    }
    pub fn vars_map(&self) -> HashMap<String, usize> {
        self.labels.iter().cloned().zip(self.sp.ranges.iter().copied()).collect()
    }
    pub fn table(&self, f: &MddNode<V>) -> Result<Table, String> {
        dag(f, &self.idx)?.table(&self.sp)
    }
    pub fn var_table(&self, v: usize) -> Table {
        (0..self.sp.size).map(|p| self.sp.digit(p, v) as i64).collect()
    }
    pub fn leaf(&self, kind: u8, v: i64) -> MddNode<V> {
        match (kind, v) {
            (BOOL, UNDET) => self.m.undet_boolean(),
            (BOOL, v) => self.m.boolean(v == 1),
            (_, UNDET) => self.m.undet_value(),
            (_, v) => self.m.value(V::of(v)),
        }
    }
    /// Bottom-up with create_node, over the declared variables.
    pub fn build(&self, kind: u8, t: &[i64]) -> MddNode<V> {
        self.rec(kind, t, self.v.len(), 0)
    }
    fn rec(&self, kind: u8, t: &[i64], lv: usize, base: usize) -> MddNode<V> {
        if lv == 0 {
            return self.leaf(kind, t[base]);
        }
        let v = lv - 1;
        let ch: Vec<MddNode<V>> = (0..self.sp.ranges[v]).map(|i| self.rec(kind, t, v, base + i * self.sp.strides[v])).collect();
        if ch.len() == 1 {
            return ch[0].clone();
        }
        self.m.create_node(self.v[v].get_header().unwrap(), &ch)
    }
    /// A table that depends on declared variables only.
    pub fn declared_table(&self, kind: u8, undet: bool, s: &mut Src) -> Table {
        let sub = Space::new(&self.sp.ranges[..self.v.len()]);
        let mut vals: Vec<i64> = if kind == BOOL { vec![0, 1] } else { vec![0, 1, 2, 3, -1, -4, 7] };
        if undet {
            vals.push(UNDET);
        }
        if kind == VAL && s.chance(1, 3) {
            vals.truncate(3);
        }
        if kind == VAL && s.chance(1, 10) {
            vals.push(V::bigs()[s.below(V::bigs().len())]);
            vals.push(V::bigs()[s.below(V::bigs().len())]);
        }
        let t = random_table(&sub, &vals, s);
        (0..self.sp.size).map(|p| t[p % sub.size]).collect()
    }
}

pub fn show(t: &[i64]) -> String {
    let v: Vec<String> = t.iter().take(60).map(|&x| if x == UNDET { "u".into() } else { x.to_string() }).collect();
    v.join(" ")
}

/// Handle operations, by index into `mt2_ops` (the last one has no handle form).
pub const HOPS: usize = 20;
/// Boolean operations and if-then-else come up as often as the arithmetic ones.
fn pick_op(s: &mut Src) -> usize {
    if s.chance(1, 3) {
        [12, 13, 14, 15, 17, 18, 19, 19][s.below(8)]
    } else {
        s.below(HOPS)
    }
}
pub fn apply<V: Val>(op: usize, a: &[&MddNode<V>]) -> MddNode<V> {
    match op {
        0 => a[0].add(a[1]),
        1 => a[0].sub(a[1]),
        2 => a[0].mul(a[1]),
        3 => a[0].div(a[1]),
        4 => a[0].min(a[1]),
        5 => a[0].max(a[1]),
        6 | 16 => a[0].eq(a[1]),
        7 | 17 => a[0].ne(a[1]),
        8 => a[0].lt(a[1]),
        9 => a[0].le(a[1]),
        10 => a[0].gt(a[1]),
        11 => a[0].ge(a[1]),
        12 => a[0].and(a[1]),
        13 => a[0].or(a[1]),
        14 => a[0].xor(a[1]),
        15 => a[0].not(),
        _ => a[0].ite(a[1], a[2]),
    }
}
pub fn predict(op: usize, ts: &[&Table]) -> Option<Vec<P>> {
    predict_lim(op, ts, crate::engines::LIM)
}
pub fn predict_lim(op: usize, ts: &[&Table], lim: i64) -> Option<Vec<P>> {
    let mut buf = vec![0; ts.len()];
    (0..ts[0].len())
        .map(|p| {
            for (b, t) in buf.iter_mut().zip(ts) {
                *b = t[p];
            }
            match mt2_lim(op, &buf, lim) {
                P::Skip => None,
                x => Some(x),
            }
        })
        .collect()
}
/// Compare an observed table with a prediction; undetermined-by-specification points are free.
pub fn agree(got: &[i64], want: &[P], what: &str) -> R {
    for (p, (g, w)) in got.iter().zip(want).enumerate() {
        if let P::V(v) = w {
            ensure!(g == v, "{what}: at point {p} got {}, expected {}", show(&[*g]), show(&[*v]));
        }
    }
    Ok(())
}

/// A random function by operators, with its observed-and-checked table.
pub fn formula<V: Val>(w: &X<V>, kind: u8, s: &mut Src, depth: usize, undet: bool, out: &mut String) -> Result<Fx<V>, String> {
    if depth == 0 || s.chance(1, 6) {
        if kind == VAL && !w.v.is_empty() && !s.chance(1, 8) {
            let v = s.below(w.v.len());
            out.push_str(&format!("v{v}"));
            return Ok((w.v[v].clone(), VAL, w.var_table(v)));
        }
        if kind == BOOL && depth > 0 {
            let t = w.declared_table(BOOL, undet, s);
            out.push_str(&format!("[{}]", show(&t)));
            return Ok((w.build(BOOL, &t), BOOL, t));
        }
        let vals: &[i64] = if kind == BOOL { &[0, 1, UNDET] } else { &[0, 1, 2, 3, -2, UNDET] };
        let v = vals[s.below(vals.len() - !undet as usize)];
        out.push_str(&format!("c{}", show(&[v])));
        return Ok((w.leaf(kind, v), kind, vec![v; w.sp.size]));
    }
    let cand: Vec<usize> = (0..HOPS).filter(|&o| mt2_ops()[o].2 == kind && (undet || o != 3)).collect();
    let op = cand[s.below(cand.len())];
    let (name, sorts, _) = mt2_ops()[op];
    out.push_str(&format!("({name}"));
    let mut args = vec![];
    for &k in sorts {
        out.push(' ');
        args.push(formula(w, k, s, depth - 1, undet, out)?);
    }
    out.push(')');
    let ts: Vec<&Table> = args.iter().map(|a| &a.2).collect();
    match predict(op, &ts) {
        None => Ok(args.pop().unwrap()).and_then(|a| if a.1 == kind { Ok(a) } else { Ok((w.leaf(kind, 0), kind, vec![0; w.sp.size])) }),
        Some(want) => {
            let f = apply(op, &args.iter().map(|a| &a.0).collect::<Vec<_>>());
            let got = w.table(&f)?;
            agree(&got, &want, name)?;
            Ok((f, kind, got))
        }
    }
}

pub fn any_fn<V: Val>(w: &X<V>, s: &mut Src, undet: bool, out: &mut String) -> Result<Fx<V>, String> {
    let kind = s.chance(1, 3) as u8;
    match s.below(4) {
        0 | 1 => {
            let d = s.range(1, 3);
            formula(w, kind, s, d, undet, out)
        }
        2 => {
            let t = monotone_table(w, kind, s);
            out.push_str(&format!("mono:{}", show(&t)));
            Ok((w.build(kind, &t), kind, t))
        }
        _ => {
            let t = w.declared_table(kind, undet, s);
            out.push_str(&format!("table:{}", show(&t)));
            Ok((w.build(kind, &t), kind, t))
        }
    }
}

/// A monotone table over the declared variables.
pub fn monotone_table<V: Val>(w: &X<V>, kind: u8, s: &mut Src) -> Table {
    let d = w.v.len();
    let rg = &w.sp.ranges;
    let (mut base, mut step) = ([0i64, 0, 0, -2, 1][s.below(5)], [1i64, 1, 1, 2, 5][s.below(5)]);
    if kind == VAL && s.chance(1, 12) {
        let big = V::bigs();
        base = big[s.below(big.len())] / 4;
        step = [1, 256, 65536, if V::LIM > 1 << 40 { 1 << 32 } else { 1 << 20 }][s.below(4)];
    }
    let levels = if kind == BOOL { 1 } else { s.range(1, 5) };
    let raw: Table = match s.below(4) {
        // per level: union of up-sets, nested by taking the maximum
        0 | 1 => {
            let gens: Vec<(i64, Vec<usize>)> = (0..s.range(0, 6))
                .map(|_| {
                    let l = s.range(1, levels) as i64;
                    (l, (0..d).map(|v| if s.chance(1, 2) { 0 } else { s.below(rg[v]) }).collect())
                })
                .collect();
            (0..w.sp.size)
                .map(|p| gens.iter().filter(|g| (0..d).all(|v| w.sp.digit(p, v) >= g.1[v])).map(|g| g.0).max().unwrap_or(0))
                .collect()
        }
        // weighted sum through a staircase
        2 => {
            let ws: Vec<usize> = (0..d).map(|_| s.below(4)).collect();
            let top: usize = (0..d).map(|v| ws[v] * (rg[v] - 1)).sum();
            let mut cuts: Vec<usize> = (0..levels).map(|_| s.below(top + 2)).collect();
            cuts.sort();
            (0..w.sp.size)
                .map(|p| {
                    let x: usize = (0..d).map(|v| ws[v] * w.sp.digit(p, v)).sum();
                    cuts.iter().filter(|&&c| x >= c).count() as i64
                })
                .collect()
        }
        // min/max of groups
        _ => {
            let grp: Vec<usize> = (0..d).map(|_| s.below(3)).collect();
            let mn = s.chance(1, 2);
            (0..w.sp.size)
                .map(|p| {
                    let g: Vec<usize> = (0..3)
                        .filter_map(|k| {
                            let it = (0..d).filter(|&v| grp[v] == k).map(|v| w.sp.digit(p, v));
                            if mn { it.max() } else { it.min() }
                        })
                        .collect();
                    (if mn { g.iter().min() } else { g.iter().max() }).copied().unwrap_or(0).min(levels) as i64
                })
                .collect()
        }
    };
    if kind == BOOL {
        raw.iter().map(|&x| (x >= 1) as i64).collect()
    } else {
        raw.iter().map(|&x| base + step * x).collect()
    }
}

pub fn is_monotone(sp: &Space, t: &[i64]) -> bool {
    (0..sp.size).all(|p| (0..sp.n()).all(|v| sp.digit(p, v) == 0 || t[p - sp.strides[v]] <= t[p]))
}

/// vector -> label
pub type Fam = BTreeMap<usize, i64>;

/// Minimal vectors of each value (paths) or maximal ones (cuts) of a monotone function.
pub fn extreme(sp: &Space, t: &[i64], cut: bool) -> Fam {
    (0..sp.size)
        .filter(|&p| {
            (0..sp.n()).all(|v| {
                let d = sp.digit(p, v);
                if cut {
                    d + 1 == sp.ranges[v] || t[p + sp.strides[v]] != t[p]
                } else {
                    d == 0 || t[p - sp.strides[v]] != t[p]
                }
            })
        })
        .map(|p| (p, t[p]))
        .collect()
}

/// A held family: the handle, its model, whether it is a cut family, how many variables were
/// declared when it was made.
pub struct Hf<V: Val> {
    pub z: ZmddNode<V>,
    pub fam: Fam,
    pub cut: bool,
    pub nv: usize,
}

fn dense<V: Val>(w: &X<V>, nv: usize, p: usize) -> Vec<(String, usize)> {
    (0..nv).map(|v| (w.labels[v].clone(), w.sp.digit(p, v))).collect()
}
fn sorted(h: &HashMap<String, usize>, idx: &HashMap<String, usize>) -> Result<Vec<(String, usize)>, String> {
    let mut x: Vec<(usize, String, usize)> = vec![];
    for (k, v) in h {
        x.push((*idx.get(k).ok_or_else(|| format!("a vector names unknown component {k:?}"))?, k.clone(), *v));
    }
    x.sort();
    Ok(x.into_iter().map(|(_, k, v)| (k, v)).collect())
}

/// Everything a family answers, against its model.
pub fn check_family<V: Val>(w: &X<V>, h: &Hf<V>, full: bool, s: &mut Src) -> R {
    ensure!(h.z.is_cut() == h.cut, "is_cut is {}", h.z.is_cut());
    let wv: Vec<(String, usize)> = (0..h.nv).map(|v| (w.labels[v].clone(), w.sp.ranges[v])).collect();
    ensure!(h.z.vars() == &wv[..], "the family lists components {:?}, expected {wv:?}", h.z.vars());
    let labels: BTreeSet<i64> = h.fam.values().copied().collect();
    let got: Vec<i64> = h.z.labels().into_iter().map(|x| x.into()).collect();
    let wl: Vec<i64> = labels.iter().copied().collect();
    ensure!(got == wl, "labels are {got:?}, members carry {wl:?}");
    let mut asks: Vec<BTreeSet<i64>> = vec![labels.clone()];
    if full {
        asks.extend(labels.iter().map(|&l| [l].into()));
        asks.push(BTreeSet::new());
        asks.push(labels.iter().copied().filter(|_| s.chance(1, 2)).chain([99, -99]).collect());
        asks.push((0..=1).collect());
    }
    for ask in asks {
        let ss: HashSet<V> = ask.iter().map(|&x| V::of(x)).collect();
        let mut want: Vec<Vec<(String, usize)>> = h.fam.iter().filter(|(_, l)| ask.contains(l)).map(|(&p, _)| dense(w, h.nv, p)).collect();
        want.sort();
        let c = h.z.count(&ss);
        ensure!(c == want.len() as u64, "count of labels {ask:?} is {c}, expected {}", want.len());
        let mut it = h.z.extract(&ss);
        let mut got = vec![];
        while let Some(x) = it.next() {
            ensure!(got.len() <= w.sp.size, "enumeration does not end");
            got.push(sorted(&x, &w.idx)?);
        }
        ensure!(it.next().is_none(), "an exhausted enumerator yields again");
        got.sort();
        ensure!(
            got == want,
            "labels {ask:?}: {} vectors enumerated, {} expected; not expected {:?}, missing {:?}",
            got.len(),
            want.len(),
            got.iter().find(|x| !want.contains(x)),
            want.iter().find(|x| !got.contains(x))
        );
    }
    Ok(())
}

/// Structure of a family's diagram: ordered, zero-suppressed, no duplicates.
pub fn audit_family<V: Val>(z: &ZmddNode<V>) -> Result<usize, String> {
    let mg = z.get_mgr();
    let m = mg.borrow();
    let mut seen = HashSet::new();
    let mut uniq: HashMap<(usize, Vec<usize>), usize> = HashMap::new();
    let mut terms: HashMap<i64, usize> = HashMap::new();
    let mut st = vec![z.get_id()];
    while let Some(x) = st.pop() {
        if !seen.insert(x) {
            continue;
        }
        match m.get_node(&x).ok_or("family node is gone")? {
            mddcore::mtmdd::Node::Undet => {}
            mddcore::mtmdd::Node::Terminal(t) => {
                let v: i64 = t.value().into();
                ensure!(terms.insert(v, x).is_none(), "two terminals carry {v}");
            }
            mddcore::mtmdd::Node::NonTerminal(f) => {
                let ch: Vec<usize> = f.iter().collect();
                let lv = m.level(&x).ok_or("no level")?;
                for c in &ch {
                    if let Some(l) = m.level(c) {
                        ensure!(l < lv, "family node at level {l} under level {lv}");
                    }
                }
                ensure!(ch[1..].iter().any(|&c| c != m.undet()), "family node with only empty non-baseline branches");
                let k = m.label(&x).ok_or("no label")?;
                let _ = k;
                ensure!(uniq.insert((lv, ch.clone()), x).is_none(), "two family nodes with the same variable and branches");
                st.extend(ch);
            }
        }
    }
    Ok(seen.len())
}

/// The family read from the diagram itself.
pub fn read_family<V: Val>(w: &X<V>, z: &ZmddNode<V>) -> Result<Fam, String> {
    let mg = z.get_mgr();
    let m = mg.borrow();
    let base: usize = if z.is_cut() { w.sp.size - 1 } else { 0 };
    fn go<V: Val>(w: &X<V>, m: &mddcore::prelude::ZmddManager<V>, x: usize, cut: bool, p: usize, out: &mut Fam) -> R {
        match m.get_node(&x).ok_or("family node is gone")? {
            mddcore::mtmdd::Node::Undet => {}
            mddcore::mtmdd::Node::Terminal(t) => {
                ensure!(out.insert(p, t.value().into()).is_none(), "vector twice in a family");
            }
            mddcore::mtmdd::Node::NonTerminal(f) => {
                let l = m.label(&x).ok_or("no label")?;
                let v = *w.idx.get(l).ok_or_else(|| format!("unknown component {l}"))?;
                for (i, c) in f.iter().enumerate() {
                    let q = if cut { p - i * w.sp.strides[v] } else { p + i * w.sp.strides[v] };
                    go(w, m, c, cut, q, out)?;
                }
            }
        }
        Ok(())
    }
    let mut out = Fam::new();
    go(w, &m, z.get_id(), z.is_cut(), base, &mut out)?;
    Ok(out)
}

fn ranges_for(c: &mut Src, max_vars: usize, max_size: usize) -> Vec<usize> {
    let mut r = random_ranges(c, max_vars, max_size, false);
    if c.chance(1, 12) {
        // a component with a single state
        let i = c.below(r.len());
        r[i] = 1;
    }
    r
}

// ------------------------------------------------------------------ handle histories

fn expected_paths<V: Val>(w: &X<V>, f: &MddNode<V>, t: &Table, ss: &BTreeSet<i64>) -> Vec<Vec<(String, usize)>> {
    let lv = f.get_level().map_or(0, |l| l + 1);
    let size: usize = w.sp.ranges[..lv].iter().product();
    let mut v: Vec<_> = (0..size).filter(|&p| t[p] != UNDET && ss.contains(&t[p])).map(|p| dense(w, lv, p)).collect();
    v.sort();
    v
}

fn handles<V: Val>(case: &Case, ctx: &mut Ctx, gc_heavy: bool) -> R {
    let mut c = Src::new(&case.cfg);
    let rg = ranges_for(&mut c, 4, 200);
    let n = rg.len();
    let mut w: X<V> = X::new(&rg, &mut c);
    let first = c.range(1, n);
    for _ in 0..first {
        w.declare();
    }
    let th = if gc_heavy { [0, 1, 5, 20, 60, 200][c.below(6)] } else { [5, 1000, 100000][c.below(3)] };
    w.m.set_gc_threshold(th);
    step!(ctx, "handles ranges={rg:?} declared={first} threshold={th}");
    let mut pool: Vec<Fx<V>> = vec![];
    let mut fams: Vec<Hf<V>> = vec![];
    let mut its: Vec<(MddPath<V>, Vec<Vec<(String, usize)>>, Vec<Vec<(String, usize)>>)> = vec![];
    let mut zits: Vec<(ZmddPath<V>, Vec<Vec<(String, usize)>>, Vec<Vec<(String, usize)>>)> = vec![];
    let (mut nops, mut gcs, mut kept_iter, mut undet) = (0, 0, false, false);
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        let live0 = w.m.live_node_count();
        let weights: [u32; 15] = if gc_heavy { [10, 4, 3, 3, 4, 4, 3, 4, 3, 2, 1, 2, 1, 3, 1] } else { [20, 4, 4, 3, 1, 1, 2, 1, 2, 1, 1, 1, 1, 2, 2] };
        let mut new: Option<(MddNode<V>, u8, Option<Vec<P>>, String)> = None;
        match s.weighted(&weights) {
            0 if !pool.is_empty() => {
                let op = pick_op(&mut s);
                let (name, sorts, rk) = mt2_ops()[op];
                let mut ix = vec![];
                for &kd in sorts {
                    let cand: Vec<usize> = (0..pool.len()).filter(|&i| pool[i].1 == kd).collect();
                    if cand.is_empty() {
                        break;
                    }
                    ix.push(cand[s.below(cand.len())]);
                }
                if ix.len() == sorts.len() {
                    let ts: Vec<&Table> = ix.iter().map(|&i| &pool[i].2).collect();
                    if let Some(want) = predict_lim(op, &ts, V::LIM) {
                        let f = apply(op, &ix.iter().map(|&i| &pool[i].0).collect::<Vec<_>>());
                        new = Some((f, rk, Some(want), format!("{name} {ix:?}")));
                        nops += 1;
                    }
                }
            }
            1 if gc_heavy && !pool.is_empty() && s.chance(1, 3) => {
                // one operand after another dropped, collected and replaced; the others stay held
                let op = pick_op(&mut s);
                let (name, sorts, rk) = mt2_ops()[op];
                let at = s.below(sorts.len());
                let mut args: Vec<(MddNode<V>, Table)> = vec![];
                for &kd in sorts {
                    let cand: Vec<usize> = (0..pool.len()).filter(|&i| pool[i].1 == kd).collect();
                    args.push(if cand.is_empty() {
                        let t = w.declared_table(kd, false, &mut s);
                        (w.build(kd, &t), t)
                    } else {
                        let x = &pool[cand[s.below(cand.len())]];
                        (x.0.clone(), x.2.clone())
                    });
                }
                step!(ctx, "{k}:{name} with operand {at} replaced again and again");
                let mut kept = vec![];
                for _ in 0..s.range(2, 6) {
                    let t = w.declared_table(sorts[at], false, &mut s);
                    args[at] = (w.leaf(sorts[at], 0), vec![0; w.sp.size]);
                    w.m.gc(&[]);
                    args[at] = (w.build(sorts[at], &t), t);
                    let ts: Vec<&Table> = args.iter().map(|a| &a.1).collect();
                    if let Some(want) = predict_lim(op, &ts, V::LIM) {
                        let f = apply(op, &args.iter().map(|a| &a.0).collect::<Vec<_>>());
                        let got = w.table(&f)?;
                        agree(&got, &want, name)?;
                        kept.push((f, rk, got));
                    }
                }
                gcs += 1;
                for (f, _, t) in &kept {
                    ensure!(w.table(f)? == *t, "a result of {name} changed after collections");
                }
                if let Some(x) = kept.pop() {
                    if x.2.iter().all(|&v| v == UNDET || v.abs() <= 1 << 12) {
                        pool.push(x);
                    }
                }
            }
            1 => {
                let kind = s.chance(1, 2) as u8;
                let ud = s.chance(1, 3);
                let t = w.declared_table(kind, ud, &mut s);
                new = Some((w.build(kind, &t), kind, Some(t.iter().map(|&x| P::V(x)).collect()), format!("table {}", show(&t))));
            }
            2 if !pool.is_empty() => {
                let form = s.below(4);
                let kd = if form < 2 { BOOL } else { VAL };
                let cand: Vec<usize> = (0..pool.len()).filter(|&i| pool[i].1 == kd).collect();
                let m = if cand.is_empty() { 0 } else { s.range(0, 4) };
                let ix: Vec<usize> = (0..m).map(|_| cand[s.below(cand.len())]).collect();
                let ns: Vec<MddNode<V>> = ix.iter().map(|&i| pool[i].0.clone()).collect();
                if form < 2 || m > 0 {
                    let want = (0..w.sp.size).map(|p| fold_list(form, &ix.iter().map(|&i| pool[i].2[p]).collect::<Vec<_>>())).collect();
                    let f = match form {
                        0 => w.m.and(&ns),
                        1 => w.m.or(&ns),
                        2 => w.m.min(&ns),
                        _ => w.m.max(&ns),
                    };
                    new = Some((f, kd, Some(want), format!("{}* {ix:?}", ["and", "or", "min", "max"][form])));
                    nops += 1;
                }
            }
            3 => {
                let names: Vec<String> = w.labels[..w.v.len()].to_vec();
                let mut toks = vec![];
                let kind = s.chance(1, 2) as u8;
                gen_expr(&mut s, kind, 3, &names, &mut toks, &mut vec![], true);
                let e = toks.join(" ");
                if let M::Ok(kd, t) = rpn_model(&toks, &w.sp, &w.idx, &mut vec![]) {
                    let vm = w.vars_map();
                    let f = w.m.rpn(&e, &vm).map_err(|m| format!("rpn {e:?} refused: {m}"))?;
                    new = Some((f, kd, Some(t.iter().map(|&x| if x == ANY { P::Any } else { P::V(x) }).collect()), format!("rpn {e:?}")));
                }
            }
            4 if s.chance(1, 4) && !(pool.is_empty() && fams.is_empty()) => {
                let m = crate::p_bss::crowd(&mut s);
                if !fams.is_empty() && (pool.is_empty() || s.chance(1, 2)) {
                    let i = s.below(fams.len());
                    let cl: Vec<ZmddNode<V>> = (0..m).map(|_| fams[i].z.clone()).collect();
                    if s.chance(1, 2) {
                        fams[i].z = cl[m / 2].clone();
                    }
                    step!(ctx, "{k}:clone family {i} {m} times");
                } else {
                    let i = s.below(pool.len());
                    let cl: Vec<MddNode<V>> = (0..m).map(|_| pool[i].0.clone()).collect();
                    if s.chance(1, 2) {
                        pool[i].0 = cl[m / 2].clone();
                    }
                    step!(ctx, "{k}:clone {i} {m} times");
                }
            }
            4 => {
                for _ in 0..s.range(1, 3) {
                    if !pool.is_empty() {
                        let i = s.below(pool.len());
                        pool.swap_remove(i);
                    }
                }
                if s.chance(1, 3) && !fams.is_empty() {
                    let i = s.below(fams.len());
                    fams.swap_remove(i);
                }
                if s.chance(1, 5) && !its.is_empty() {
                    its.swap_remove(0);
                }
                step!(ctx, "{k}:drop");
            }
            5 => {
                let keep: Vec<&MddNode<V>> = if s.chance(1, 2) { vec![] } else { pool.iter().map(|x| &x.0).collect() };
                w.m.gc(&keep);
                gcs += 1;
                step!(ctx, "{k}:gc");
                if its.is_empty() {
                    let mut reach: HashSet<usize> = HashSet::new();
                    for h in pool.iter().map(|x| &x.0).chain(w.v.iter()) {
                        reach.extend(dag(h, &w.idx)?.nodes.keys());
                    }
                    let mg = w.v[0].get_mgr();
                    let b = mg.borrow();
                    reach.extend([enc(b.zero()), enc(b.one()), enc(N2::Bool(b.mdd().undet())), enc(b.undet_value())]);
                    drop(b);
                    let live = w.m.live_node_count();
                    ensure!(live == reach.len(), "after an explicit collection {live} nodes are live, {} are reachable from held handles, variables and terminals", reach.len());
                }
            }
            6 if !pool.is_empty() => {
                let i = s.below(pool.len());
                if let Some(ch) = pool[i].0.get_children() {
                    let j = s.below(ch.len());
                    // the cofactor at the root variable
                    let v = *w.idx.get(&pool[i].0.get_label().unwrap()).ok_or("unknown label")?;
                    let t: Vec<P> = (0..w.sp.size).map(|p| P::V(pool[i].2[p - w.sp.digit(p, v) * w.sp.strides[v] + j * w.sp.strides[v]])).collect();
                    new = Some((ch[j].clone(), pool[i].1, Some(t), format!("child {j} of {i}")));
                }
            }
            7 if !pool.is_empty() => {
                if its.is_empty() || s.chance(1, 3) && its.len() < 3 {
                    let i = s.below(pool.len());
                    let vals: BTreeSet<i64> = pool[i].2.iter().copied().filter(|&x| x != UNDET && s.chance(2, 3)).collect();
                    let want = expected_paths(&w, &pool[i].0, &pool[i].2, &vals);
                    let ss: HashSet<V> = vals.iter().map(|&x| V::of(x)).collect();
                    step!(ctx, "{k}:enumerate {i} {vals:?}");
                    its.push((pool[i].0.mdd_extract(&ss), vec![], want));
                    if s.chance(1, 2) {
                        pool.swap_remove(i);
                    }
                } else {
                    let j = s.below(its.len());
                    step!(ctx, "{k}:advance {j}");
                    for _ in 0..s.range(1, 10) {
                        match its[j].0.next() {
                            Some(p) => {
                                let q = sorted(&p, &w.idx)?;
                                its[j].1.push(q)
                            }
                            None => {
                                let it = its.swap_remove(j);
                                finish(it.1, &it.2)?;
                                kept_iter = true;
                                break;
                            }
                        }
                    }
                }
            }
            8 if !pool.is_empty() => {
                let i = s.below(pool.len());
                if s.chance(1, 2) {
                    let t = monotone_table(&w, pool[i].1, &mut s);
                    pool[i] = (w.build(pool[i].1, &t), pool[i].1, t);
                }
                if !pool[i].2.contains(&UNDET) {
                    let cut = s.chance(1, 2);
                    step!(ctx, "{k}:family of {i} cut={cut}");
                    if let Some(h) = make_family(&w, &pool[i].0, &pool[i].2, cut)? {
                        fams.push(h);
                    }
                }
            }
            9 if !pool.is_empty() => {
                let i = s.below(pool.len());
                let pv = zp_dist(&w, &mut s);
                let vals: Vec<i64> = pool[i].2.iter().copied().filter(|&x| x != UNDET && s.chance(1, 2)).collect();
                let ss: Vec<V> = vals.iter().map(|&x| V::of(x)).collect();
                let got = pool[i].0.prob(&pv, &ss);
                let want = prob_model(&w, &pool[i].2, &pv, &vals, None);
                ensure!(got == want, "probability polynomial differs");
                step!(ctx, "{k}:prob {i}");
            }
            10 => {
                w.m.clear_cache();
                step!(ctx, "{k}:clear_cache");
            }
            11 => {
                let t = if gc_heavy { [0, 2, 15, 40, 100][s.below(5)] } else { 50000 };
                w.m.set_gc_threshold(t);
                step!(ctx, "{k}:threshold {t}");
            }
            12 => {
                w.declare();
                let i = w.v.len() - 1;
                new = Some((w.v[i].clone(), VAL, Some(w.var_table(i).iter().map(|&x| P::V(x)).collect()), format!("var {i}")));
            }
            13 if !fams.is_empty() => {
                if s.chance(1, 3) {
                    if zits.is_empty() {
                        let i = s.below(fams.len());
                        let h = fams.swap_remove(i);
                        let ss: HashSet<V> = h.fam.values().map(|&x| V::of(x)).collect();
                        let mut want: Vec<_> = h.fam.keys().map(|&p| dense(&w, h.nv, p)).collect();
                        want.sort();
                        zits.push((h.z.extract(&ss), vec![], want));
                        step!(ctx, "{k}:enumerate family");
                    } else {
                        for _ in 0..s.range(1, 5) {
                            match zits[0].0.next() {
                                Some(p) => {
                                    let q = sorted(&p, &w.idx)?;
                                    zits[0].1.push(q)
                                }
                                None => {
                                    let it = zits.remove(0);
                                    finish(it.1, &it.2)?;
                                    break;
                                }
                            }
                        }
                    }
                } else {
                    let i = s.below(fams.len());
                    let cand: Vec<usize> = (0..fams.len()).filter(|&j| fams[j].cut == fams[i].cut).collect();
                    let j = cand[s.below(cand.len())];
                    let h = family_op(&fams[i], &fams[j], s.chance(1, 2));
                    step!(ctx, "{k}:family op {i} {j}");
                    ensure!(read_family(&w, &h.z)? == h.fam, "label-wise family operation is wrong");
                    fams.push(h);
                }
            }
            14 => {
                let (kd, v) = [(BOOL, 0), (BOOL, 1), (BOOL, UNDET), (VAL, UNDET), (VAL, 0), (VAL, 1), (VAL, -7)][s.below(7)];
                new = Some((w.leaf(kd, v), kd, Some(vec![P::V(v); w.sp.size]), format!("constant {} {}", kd, show(&[v]))));
            }
            _ => {}
        }
        if let Some((f, kd, want, d)) = new {
            ensure!(f.is_boolean() == (kd == BOOL), "{d}: result is of the wrong kind");
            let got = w.table(&f)?;
            step!(ctx, "{k}:{d}");
            if let Some(wt) = want {
                agree(&got, &wt, &d)?;
            }
            undet |= got.contains(&UNDET);
            let f = if s.chance(1, 6) { f.clone() } else { f };
            if got.iter().all(|&x| x == UNDET || x.abs() <= 1 << 12) || s.chance(1, 2) {
                pool.push((f, kd, got));
            }
        }
        if pool.len() > 12 {
            pool.remove(0);
        }
        if fams.len() > 6 {
            fams.remove(0);
        }
        if w.m.live_node_count() < live0 {
            gcs += 1;
        }
        for (i, (f, kd, t)) in pool.iter().enumerate() {
            let got = w.table(f)?;
            ensure!(got == *t, "held handle {i} now denotes {}, expected {}", show(&got), show(t));
            for (g, kd2, u) in &pool[..i] {
                let same = kd == kd2 && t == u;
                ensure!((f.get_node() == g.get_node()) == same, "handles of {} functions are {} node", if same { "equal" } else { "different" }, if same { "not the same" } else { "the same" });
            }
        }
        for (i, h) in fams.iter().enumerate() {
            let got = read_family(&w, &h.z)?;
            ensure!(got == h.fam, "held family {i} is now {got:?}, expected {:?}", h.fam);
            for g in &fams[..i] {
                if g.cut == h.cut {
                    let same = sparse(&w, &g.fam, g.cut) == sparse(&w, &h.fam, h.cut);
                    ensure!((g.z.get_id() == h.z.get_id()) == same, "families equal: {same}, same node: {}", !same);
                }
            }
        }
    }
    for h in &fams {
        check_family(&w, h, false, &mut c)?;
        audit_family(&h.z)?;
    }
    while let Some(mut it) = its.pop() {
        while let Some(p) = it.0.next() {
            let q = sorted(&p, &w.idx)?;
            it.1.push(q);
        }
        finish(it.1, &it.2)?;
        ensure!(it.0.next().is_none(), "an exhausted enumerator yields again");
        kept_iter = true;
    }
    while let Some(mut it) = zits.pop() {
        while let Some(p) = it.0.next() {
            let q = sorted(&p, &w.idx)?;
            it.1.push(q);
        }
        finish(it.1, &it.2)?;
    }
    if gcs > 0 {
        ctx.class("collected");
    }
    if kept_iter {
        ctx.class("enumerated_across_steps");
    }
    if !fams.is_empty() {
        ctx.class("families_held");
    }
    if undet {
        ctx.class("undetermined");
    }
    ctx.nontrivial = nops >= 2 && (!gc_heavy || gcs > 0);
    Ok(())
}

fn sparse<V: Val>(_w: &X<V>, f: &Fam, _cut: bool) -> Fam {
    f.clone()
}

fn finish(mut got: Vec<Vec<(String, usize)>>, want: &[Vec<(String, usize)>]) -> R {
    got.sort();
    ensure!(
        got == want,
        "enumeration across steps yielded {} elements, expected {}; not expected {:?}, missing {:?}",
        got.len(),
        want.len(),
        got.iter().find(|x| !want.contains(x)),
        want.iter().find(|x| !got.contains(x))
    );
    Ok(())
}

/// and / or / min / max over a list of values at one point.
fn fold_list(form: usize, xs: &[i64]) -> P {
    match form {
        0 | 1 => {
            if xs.contains(&UNDET) {
                return P::Any;
            }
            P::V(if form == 0 { xs.iter().all(|&x| x == 1) } else { xs.iter().any(|&x| x == 1) } as i64)
        }
        _ => {
            let mut r = xs[0];
            for &x in &xs[1..] {
                match arith_lim(if form == 2 { 5 } else { 6 }, &[r, x], i64::MAX) {
                    P::V(v) => r = v,
                    p => return p,
                }
            }
            P::V(r)
        }
    }
}

fn make_family<V: Val>(w: &X<V>, f: &MddNode<V>, t: &Table, cut: bool) -> Result<Option<Hf<V>>, String> {
    let mono = is_monotone(&w.sp, t);
    let z = if cut { w.m.mincut(f) } else { w.m.minpath(f) };
    match z {
        None => {
            ensure!(!mono, "a monotone function was refused");
            Ok(None)
        }
        Some(z) => {
            ensure!(mono, "a non-monotone function was answered");
            let fam = extreme(&w.sp, t, cut);
            let got = read_family(w, &z)?;
            ensure!(got == fam, "{} family is {:?}, expected {:?} (vector index -> label)", if cut { "cut" } else { "path" }, got, fam);
            Ok(Some(Hf { z, fam, cut, nv: w.v.len() }))
        }
    }
}

fn family_op<V: Val>(a: &Hf<V>, b: &Hf<V>, inter: bool) -> Hf<V> {
    let z = if inter { a.z.intersect(&b.z) } else { a.z.setdiff(&b.z) };
    let fam = a.fam.iter().filter(|(p, l)| (b.fam.get(p) == Some(l)) == inter).map(|(&p, &l)| (p, l)).collect();
    Hf { z, fam, cut: a.cut, nv: a.nv }
}

pub fn handle_ops(c: &Case, x: &mut Ctx) -> R {
    if c.cfg[11] % 2 == 0 {
        handles::<i32>(c, x, false)
    } else {
        handles::<i64>(c, x, false)
    }
}
pub fn handle_gc(c: &Case, x: &mut Ctx) -> R {
    if c.cfg[11] % 2 == 0 {
        handles::<i32>(c, x, true)
    } else {
        handles::<i64>(c, x, true)
    }
}

/// One operation of the handle layer only, on many pairs of held operands, results dropped:
/// every operation gives the collector its chance.
pub fn op_bound(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    // 0..20 operations, then and*, or*, min*, max*, expressions, create_node, constants
    let op = c.below(HOPS + 7);
    let small = op == 25;
    let rg: Vec<usize> = if small { vec![2, 2, 3, 3] } else { (0..4).map(|_| c.range(3, 4)).collect() };
    let n = rg.len();
    let mut w: X<i32> = X::all(&rg, &mut c);
    let th = c.range(0, 400);
    w.m.set_gc_threshold(th);
    let name = if op < HOPS { mt2_ops()[op].0 } else { ["and*", "or*", "min*", "max*", "rpn", "create_node", "value"][op - HOPS] };
    step!(ctx, "op_bound {name} ranges={rg:?} threshold={th}");
    let mut s = Src::new(&case.ops[0]);
    let mut held: [Vec<(MddNode<i32>, Table)>; 2] = [vec![], vec![]];
    for k in 0..if small { 260 } else { 110 } {
        let kd = if k % 2 == 0 { BOOL } else { VAL };
        let m = if kd == BOOL { 2 } else { 5 };
        let t: Table = if small {
            let sub: Table = (0..w.sp.size).map(|_| s.below(m) as i64).collect();
            (0..w.sp.size).map(|p| sub[p - w.sp.digit(p, n - 1) * w.sp.strides[n - 1]]).collect()
        } else {
            (0..w.sp.size).map(|_| s.below(m) as i64).collect()
        };
        held[(kd == VAL) as usize].push((w.build(kd, &t), t));
    }
    let mut reach: HashSet<usize> = HashSet::new();
    for h in held.iter().flatten().map(|x| &x.0).chain(w.v.iter()) {
        reach.extend(dag(h, &w.idx)?.nodes.keys());
    }
    let bound = 4 * th + 6 * reach.len() + 8 * w.sp.size + 200;
    let (mut last, mut drops, mut made) = (w.m.live_node_count(), 0, 0usize);
    let names: Vec<String> = w.labels.clone();
    for r in 0..if op >= 24 { 15000 } else { 2200 } {
        let mut pick = |kd: u8, s: &mut Src| {
            let h = &held[(kd == VAL) as usize];
            &h[s.below(h.len())]
        };
        let (f, want): (MddNode<i32>, Option<Vec<P>>) = if op < HOPS {
            let (_, sorts, _) = mt2_ops()[op];
            let a: Vec<_> = sorts.iter().map(|&kd| pick(kd, &mut s)).collect();
            let f = apply(op, &a.iter().map(|x| &x.0).collect::<Vec<_>>());
            (f, if r % 61 == 0 { predict(op, &a.iter().map(|x| &x.1).collect::<Vec<_>>()) } else { None })
        } else if op < HOPS + 4 {
            let kd = if op < HOPS + 2 { BOOL } else { VAL };
            let a: Vec<_> = (0..3).map(|_| pick(kd, &mut s)).collect();
            let ns: Vec<MddNode<i32>> = a.iter().map(|x| x.0.clone()).collect();
            let f = match op - HOPS {
                0 => w.m.and(&ns),
                1 => w.m.or(&ns),
                2 => w.m.min(&ns),
                _ => w.m.max(&ns),
            };
            (f, Some((0..w.sp.size).map(|p| fold_list(op - HOPS, &a.iter().map(|x| x.1[p]).collect::<Vec<_>>())).collect()))
        } else if op == HOPS + 4 {
            let mut toks = vec![];
            gen_expr(&mut s, r as u8 % 2, 4, &names, &mut toks, &mut vec![], true);
            let e = toks.join(" ");
            let M::Ok(..) = rpn_model(&toks, &w.sp, &w.idx, &mut vec![]) else { continue };
            let vm = w.vars_map();
            (w.m.rpn(&e, &vm).map_err(|m| format!("rpn {e:?} refused: {m}"))?, None)
        } else if op == HOPS + 5 {
            let kd = r as u8 % 2;
            let v = n - 1;
            let a: Vec<_> = (0..w.sp.ranges[v]).map(|_| pick(kd, &mut s)).collect();
            let h = w.v[v].get_header().unwrap();
            let ns: Vec<MddNode<i32>> = a.iter().map(|x| x.0.clone()).collect();
            (w.m.create_node(h, &ns), Some((0..w.sp.size).map(|p| P::V(a[w.sp.digit(p, v)].1[p])).collect()))
        } else {
            (w.m.value(r as i32 + 100), Some(vec![P::V(r as i64 + 100); w.sp.size]))
        };
        let live = w.m.live_node_count();
        made += live.saturating_sub(last);
        ensure!(live <= bound, "{live} nodes are live after {r} times {name} with dropped results; {} are reachable and the threshold is {th}", reach.len());
        if live < last || r % 61 == 0 {
            if let Some(t) = want {
                agree(&w.table(&f)?, &t, name)?;
            }
        }
        drops += (live < last) as usize;
        last = live;
    }
    for (f, t) in held.iter().flatten() {
        ensure!(w.table(f)? == *t, "held handle changed");
    }
    step!(ctx, "made {made}, {drops} collections, bound {bound}");
    ctx.nontrivial = made > bound && drops > 0;
    if ctx.nontrivial {
        ctx.class(name);
    }
    Ok(())
}

/// With a low threshold, dead results do not pile up.
pub fn handle_bound(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let rg: Vec<usize> = loop {
        let r: Vec<usize> = (0..c.range(4, 6)).map(|_| c.range(2, 4)).collect();
        if (100..=600).contains(&r.iter().product::<usize>()) {
            break r;
        }
    };
    let w: X<i32> = X::all(&rg, &mut c);
    let th = c.range(0, 300);
    w.m.set_gc_threshold(th);
    step!(ctx, "bound ranges={rg:?} threshold={th}");
    let mut made = 0usize;
    let mut keep: Vec<Fx<i32>> = vec![];
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        if s.chance(1, 6) {
            let kd = s.chance(1, 2) as u8;
            let t = w.declared_table(kd, true, &mut s);
            keep.push((w.build(kd, &t), kd, t));
            if keep.len() > 3 {
                keep.remove(0);
            }
        }
        for r in 0..10 {
            let kd = s.chance(1, 2) as u8;
            let t: Table = if s.chance(1, 5) { w.declared_table(kd, true, &mut s) } else { (0..w.sp.size).map(|_| s.below(if kd == BOOL { 2 } else { 5 }) as i64).collect() };
            let f = w.build(kd, &t);
            made += dag(&f, &w.idx)?.nodes.len();
            let x = &w.v[r % w.v.len()];
            let xt = w.var_table(r % w.v.len());
            let (op, a): (usize, Vec<(&MddNode<i32>, &Table)>) = if kd == BOOL { (18, vec![(&f, &t), (x, &xt), (x, &xt)]) } else { (0, vec![(&f, &t), (x, &xt)]) };
            let Some(want) = predict(op, &a.iter().map(|y| y.1).collect::<Vec<_>>()) else { continue };
            let g = apply(op, &a.iter().map(|y| y.0).collect::<Vec<_>>());
            agree(&w.table(&g)?, &want, "operation")?;
            if kd == VAL {
                let lt = f.lt(x);
                made += dag(&lt, &w.idx)?.nodes.len();
            }
            let mt = monotone_table(&w, kd, &mut s);
            let mf = w.build(kd, &mt);
            make_family(&w, &mf, &mt, r % 2 == 0)?;
        }
        let live = w.m.live_node_count();
        let mut reach: HashSet<usize> = HashSet::new();
        for h in keep.iter().map(|x| &x.0).chain(w.v.iter()) {
            reach.extend(dag(h, &w.idx)?.nodes.keys());
        }
        let bound = 4 * th + 8 * reach.len() + 16 * w.sp.size + 200;
        ensure!(live <= bound, "after {made} nodes of dropped results, {live} nodes are live although {} are reachable and the threshold is {th}", reach.len());
        for (f, _, t) in &keep {
            ensure!(w.table(f)? == *t, "kept handle changed");
        }
        step!(ctx, "{k}:made {made} live {live}");
    }
    ctx.nontrivial = made > 2 * (4 * th + 20 * w.sp.size + 200);
    Ok(())
}

/// Diagrams of tens of thousands of nodes behind handles.
pub fn handle_heavy(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let mut rg = vec![];
    let mut size = 1;
    loop {
        let r = c.range(2, 4);
        if size * r > 1 << 18 {
            break;
        }
        size *= r;
        rg.push(r);
    }
    let w: X<i64> = X::all(&rg, &mut c);
    let th = [None, Some(1000), Some(70_000), Some(150_000), Some(usize::MAX)][c.weighted(&[3, 1, 2, 2, 2])];
    if let Some(t) = th {
        w.m.set_gc_threshold(t);
    }
    step!(ctx, "heavy ranges={rg:?} threshold={th:?}");
    let mut pool: Vec<Fx<i64>> = vec![];
    let mut most = 0;
    let mut collected = 0;
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        let before = w.m.live_node_count();
        match s.weighted(&[6, 5, 3, 3]) {
            0 => {
                let kind = s.chance(1, 2) as u8;
                let vals: &[i64] = if kind == BOOL { &[0, 1, UNDET] } else { [&[0i64, 1, 2][..], &[0, 3, -1, UNDET], &[5, 1]][s.below(3)] };
                let mut st = s.u64() | 1;
                let t: Table = (0..w.sp.size)
                    .map(|_| {
                        st ^= st << 13;
                        st ^= st >> 7;
                        st ^= st << 17;
                        vals[(st >> 40) as usize % vals.len()]
                    })
                    .collect();
                let f = w.build(kind, &t);
                ensure!(w.table(&f)? == t, "{k}: a built diagram denotes another function");
                step!(ctx, "{k}: build kind={kind}, live {}", w.m.live_node_count());
                pool.push((f, kind, t));
            }
            1 if !pool.is_empty() => {
                let op = pick_op(&mut s);
                let (name, sorts, rk) = mt2_ops()[op];
                let mut ix = vec![];
                for &so in sorts {
                    let cand: Vec<usize> = (0..pool.len()).filter(|&j| pool[j].1 == so).collect();
                    if !cand.is_empty() {
                        ix.push(cand[s.below(cand.len())]);
                    }
                }
                if ix.len() < sorts.len() {
                    continue;
                }
                let Some(want) = predict(op, &ix.iter().map(|&i| &pool[i].2).collect::<Vec<_>>()) else { continue };
                let f = apply(op, &ix.iter().map(|&i| &pool[i].0).collect::<Vec<_>>());
                step!(ctx, "{k}: {name} {ix:?}, live {}", w.m.live_node_count());
                let got = w.table(&f)?;
                agree(&got, &want, name)?;
                pool.push((f, rk, got));
            }
            2 if !pool.is_empty() => {
                let i = s.below(pool.len());
                pool.remove(i);
                step!(ctx, "{k}: drop {i}");
            }
            3 => {
                w.m.gc(&[]);
                let live = w.m.live_node_count();
                let mut reach: HashSet<usize> = HashSet::new();
                for h in pool.iter().map(|x| &x.0).chain(w.v.iter()) {
                    reach.extend(dag(h, &w.idx)?.nodes.into_keys());
                }
                let mg = w.v[0].get_mgr();
                let b = mg.borrow();
                reach.extend([enc(b.zero()), enc(b.one()), enc(N2::Bool(b.mdd().undet())), enc(b.undet_value())]);
                drop(b);
                let reach_after = reach.len();
                ensure!(live == reach_after, "after collection {live} nodes are live, {reach_after} are reachable or permanent");
                step!(ctx, "{k}: gc -> {live}");
            }
            _ => continue,
        }
        let now = w.m.live_node_count();
        most = most.max(now);
        if now < before {
            collected += 1;
        }
        if pool.len() > 5 {
            pool.remove(0);
        }
        for (i, (f, _, t)) in pool.iter().enumerate() {
            let d = dag(f, &w.idx)?;
            let salt = s.u32() as usize;
            for q in 0..2000usize {
                let p = (q * 2654435761 + salt) % w.sp.size;
                ensure!(d.eval(|v| w.sp.digit(p, v))? == t[p], "{k}: held handle {i} changed at point {p}");
            }
        }
    }
    if most > 1 << 16 {
        ctx.class("over_65536_nodes");
    }
    ctx.nontrivial = most > 1 << 16 && collected >= 1;
    Ok(())
}

/// Thousands of handles held at once, across explicit and automatic collections.
pub fn hoard(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let size = [64, 128, 300][c.below(3)];
    let rg = big_ranges(&mut c, 6, size, false);
    let w: X<i64> = X::all(&rg, &mut c);
    let want = [600, 1100, 2100, 4200][c.below(4)];
    let th = [None, Some(10), Some(1500), Some(20_000)][c.below(4)];
    if let Some(t) = th {
        w.m.set_gc_threshold(t);
    }
    step!(ctx, "hoard ranges={rg:?} want={want} threshold={th:?}");
    let mut pool: Vec<Fx<i64>> = vec![];
    let (mut most, mut later) = (0, 0);
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        if k > 0 {
            let m = pool.len() / (2 + s.below(8));
            match s.below(3) {
                0 => drop(pool.drain(..m)),
                1 => pool.truncate(pool.len() - m),
                _ => {
                    for _ in 0..m {
                        let i = s.below(pool.len());
                        pool.swap_remove(i);
                    }
                }
            }
        }
        while pool.len() < want {
            if !pool.is_empty() && s.chance(1, 3) {
                let op = pick_op(&mut s);
                let (name, sorts, rk) = mt2_ops()[op];
                let mut ix = vec![];
                for &so in sorts {
                    if let Some(i) = (0..20).map(|_| s.below(pool.len())).find(|&i| pool[i].1 == so) {
                        ix.push(i);
                    }
                }
                if ix.len() == sorts.len() {
                    if let Some(want) = predict(op, &ix.iter().map(|&i| &pool[i].2).collect::<Vec<_>>()) {
                        let f = apply(op, &ix.iter().map(|&i| &pool[i].0).collect::<Vec<_>>());
                        let got = w.table(&f)?;
                        agree(&got, &want, name).map_err(|m| format!("{k} ({} held): {m}", pool.len()))?;
                        later += (k > 0) as usize;
                        pool.push((f, rk, got));
                        continue;
                    }
                }
            }
            let kind = s.chance(1, 2) as u8;
            let vals: &[i64] = if kind == BOOL { &[0, 1, UNDET] } else { [&[0i64, 1, 2][..], &[0, 3, -1, UNDET], &[5, 1]][s.below(3)] };
            let t: Table = (0..w.sp.size).map(|_| vals[s.below(vals.len())]).collect();
            pool.push((w.build(kind, &t), kind, t));
        }
        let mut reach: HashSet<usize> = HashSet::new();
        for h in pool.iter().map(|x| &x.0).chain(w.v.iter()) {
            reach.extend(dag(h, &w.idx)?.nodes.into_keys());
        }
        {
            let mg = w.v[0].get_mgr();
            let b = mg.borrow();
            reach.extend([enc(b.zero()), enc(b.one()), enc(N2::Bool(b.mdd().undet())), enc(b.undet_value())]);
        }
        w.m.gc(&[]);
        let live = w.m.live_node_count();
        ensure!(live == reach.len(), "{k}: {live} live after the collection, {} reachable from {} handles", reach.len(), pool.len());
        let mut by: HashMap<(u8, &Table), usize> = HashMap::new();
        for (i, (f, kind, t)) in pool.iter().enumerate() {
            let d = dag(f, &w.idx).map_err(|m| format!("{k}: handle {i} of {}: {m}", pool.len()))?;
            ensure!(d.table(&w.sp)? == *t, "{k}: handle {i} of {} denotes another function after the collection", pool.len());
            ensure!(*by.entry((*kind, t)).or_insert(key(f)) == key(f), "{k}: handle {i}: the same function at another node");
        }
        most = most.max(by.len());
        step!(ctx, "{k}: {} held, {live} live", pool.len());
    }
    if most > 1024 {
        ctx.class("over_1024_handles");
    }
    ctx.nontrivial = most > 400 && later > 20;
    Ok(())
}

/// Only intersections and differences: every pair of some large held families, results dropped.
pub fn family_pairs(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let rg: Vec<usize> = (0..6).map(|_| c.range(3, 4)).collect();
    let w: X<i32> = X::all(&rg, &mut c);
    w.m.set_gc_threshold(5000);
    let cut = c.chance(1, 2);
    let mut held: Vec<Hf<i32>> = vec![];
    let ws: Vec<i64> = (0..6).map(|_| c.range(1, 60) as i64).collect();
    step!(ctx, "family_pairs ranges={rg:?} cut={cut}");
    for words in &case.ops {
        let mut s = Src::new(words);
        let q = s.range(2, 9) as i64;
        let add: Vec<i64> = ws.iter().map(|x| x + s.below(40) as i64).collect();
        let t: Table = (0..w.sp.size).map(|p| (0..6).map(|v| add[v] * w.sp.digit(p, v) as i64).sum::<i64>() / (q * 4)).collect();
        let f = w.build(VAL, &t);
        held.push(make_family(&w, &f, &t, cut)?.ok_or("refused")?);
    }
    let live = || held[0].z.get_mgr().borrow().live_node_count();
    let (mut last, mut peak, mut drops, mut round) = (live(), live(), 0, 0usize);
    let m = held.len();
    'all: for i in 0..m {
        for d in 1..m {
            let j = (i + d) % m;
            for inter in [true, false] {
                let z = if inter { held[i].z.intersect(&held[j].z) } else { held[i].z.setdiff(&held[j].z) };
                let l = live();
                let collected = l < last;
                drops += collected as usize;
                last = l;
                peak = peak.max(l);
                ensure!(l < 1 << 18, "{l} family nodes are live although only {m} families and one result are held");
                round += 1;
                if collected || round % 97 == 0 {
                    let o = family_op(&held[i], &held[j], inter);
                    ensure!(o.z.get_id() == z.get_id() && read_family(&w, &o.z)? == o.fam, "label-wise family operation is wrong");
                }
                if drops >= 2 && round > 2000 {
                    break 'all;
                }
            }
        }
    }
    for h in &held {
        ensure!(read_family(&w, &h.z)? == h.fam, "a held family changed");
    }
    audit_family(&held[0].z)?;
    step!(ctx, "operations={round} peak={peak} collections={drops}");
    ctx.nontrivial = drops > 0;
    Ok(())
}

/// Vector families under their own automatic collection, which has no tuning knob: enough
/// garbage is made to pass its threshold while families and enumerators are held.
pub fn family_heavy(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let rg: Vec<usize> = (0..6).map(|_| c.range(3, 4)).collect();
    let w: X<i32> = X::all(&rg, &mut c);
    w.m.set_gc_threshold(5000);
    let mut held: Vec<Hf<i32>> = vec![];
    let mut peak = 0;
    let mut dropped = false;
    let mut last = 0;
    let ws: Vec<i64> = (0..6).map(|_| c.range(1, 60) as i64).collect();
    let with_ops = c.chance(2, 3);
    step!(ctx, "family_heavy ranges={rg:?}");
    let mut round = 0u64;
    'all: for words in &case.ops {
        let mut s = Src::new(words);
        for _ in 0..20 {
            round += 1;
            // a staircase of a weighted sum: large families, different every round
            let q = s.range(2, 9) as i64;
            let add: Vec<i64> = ws.iter().map(|x| x + s.below(40) as i64).collect();
            let t: Table = (0..w.sp.size).map(|p| (0..6).map(|v| add[v] * w.sp.digit(p, v) as i64).sum::<i64>() / (q * 4)).collect();
            let f = w.build(VAL, &t);
            let cut = s.chance(1, 2);
            let h = make_family(&w, &f, &t, cut)?.ok_or("refused")?;
            let live = h.z.get_mgr().borrow().live_node_count();
            peak = peak.max(live);
            if live < last {
                dropped = true;
                ctx.class("families_collected");
            }
            last = live;
            if s.chance(1, 6) || held.is_empty() {
                held.push(h);
                if held.len() > 4 {
                    held.remove(0);
                }
            } else if let (true, Some(g)) = (with_ops, held.iter().find(|g| g.cut == cut)) {
                let o = family_op(&h, g, s.chance(1, 2));
                ensure!(read_family(&w, &o.z)? == o.fam, "label-wise family operation is wrong");
                let g2 = family_op(&h, &h, true);
                ensure!(g2.z.get_id() == h.z.get_id(), "intersecting a family with itself gives another node");
            }
            if round % 20 == 0 || dropped && round % 5 == 0 {
                for h in &held {
                    ensure!(read_family(&w, &h.z)? == h.fam, "a held family changed (round {round}, {live} live)");
                    audit_family(&h.z)?;
                }
            }
            ensure!(live < 1 << 18, "{live} family nodes are live although only {} families are held", held.len());
            if dropped && round > 200 {
                break 'all;
            }
        }
    }
    for h in &held {
        check_family(&w, h, false, &mut c)?;
    }
    step!(ctx, "rounds={round} peak={peak} collected={dropped}");
    ctx.nontrivial = dropped;
    Ok(())
}

// ------------------------------------------------------------------ C18 expressions

/// A point the specification leaves open (an undetermined operand matters).
pub const ANY: i64 = i64::MIN + 1;

pub enum M {
    Ok(u8, Table),
    Malformed(String),
    /// outside the domain (kinds mixed up, overflow, unknown names): not judged
    Skip,
}

const BIN: [&str; 14] = ["+", "-", "*", "/", "min", "max", "==", "!=", "<", "<=", ">", ">=", "&&", "||"];

/// Names that look like something else but are variables.
const ODD: [&str; 14] = ["save", "load", "TRUE", "true", "&", "|", "^", "~", "x+1", "0.5", "1e3", "=", "Min", "2x"];

pub fn gen_expr(s: &mut Src, kind: u8, depth: usize, names: &[String], out: &mut Vec<String>, saved: &mut Vec<(String, u8)>, root: bool) {
    let cand: Vec<usize> = (0..saved.len()).filter(|&i| saved[i].1 == kind).collect();
    if !root && !cand.is_empty() && s.chance(1, 6) {
        let i = cand[s.below(cand.len())];
        out.push(format!("load({})", saved[i].0));
    } else if depth == 0 || s.chance(1, 7) {
        if kind == BOOL {
            out.push(["True", "False"][s.below(2)].into());
        } else if names.is_empty() || s.chance(1, 5) {
            out.push(if s.chance(1, 20) { ["65536", "2147483647", "-2147483648", "1000000"][s.below(4)] } else { ["0", "1", "2", "-3", "5", "+4", "007"][s.below(7)] }.into());
        } else {
            out.push(names[s.below(names.len())].clone());
        }
    } else if kind == VAL {
        match s.below(7) {
            6 => {
                gen_expr(s, BOOL, depth - 1, names, out, saved, false);
                gen_expr(s, VAL, depth - 1, names, out, saved, false);
                gen_expr(s, VAL, depth - 1, names, out, saved, false);
                out.push("?".into());
            }
            k => {
                gen_expr(s, VAL, depth - 1, names, out, saved, false);
                gen_expr(s, VAL, depth - 1, names, out, saved, false);
                out.push(BIN[k].into());
            }
        }
    } else {
        match s.below(12) {
            k @ 0..=5 => {
                gen_expr(s, VAL, depth - 1, names, out, saved, false);
                gen_expr(s, VAL, depth - 1, names, out, saved, false);
                out.push(BIN[6 + k].into());
            }
            k @ 6..=9 => {
                gen_expr(s, BOOL, depth - 1, names, out, saved, false);
                gen_expr(s, BOOL, depth - 1, names, out, saved, false);
                out.push(["&&", "||", "==", "!="][k - 6].into());
            }
            10 => {
                gen_expr(s, BOOL, depth - 1, names, out, saved, false);
                out.push("!".into());
            }
            _ => {
                for _ in 0..3 {
                    gen_expr(s, BOOL, depth - 1, names, out, saved, false);
                }
                out.push("?".into());
            }
        }
    }
    if s.chance(1, 8) {
        let id = crate::p_bss::save_name(s, names);
        out.push(format!("save({id})"));
        saved.retain(|x| x.0 != id);
        saved.push((id, kind));
    }
}

/// Hundreds of tokens: operands first and operators later, deep stacks, long chains.
fn long_expr(s: &mut Src, names: &[String], out: &mut Vec<String>) {
    let len = s.range(30, 500);
    let mut saved: Vec<(String, u8)> = vec![];
    let mut st: Vec<u8> = vec![];
    let mut push = s.range(5, 95);
    let reduce = |st: &mut Vec<u8>, s: &mut Src, out: &mut Vec<String>| {
        let h = st.len();
        let mut val = |s: &mut Src| out.push(names[s.below(names.len())].clone());
        let (op, pops, kind) = match (st.get(h.wrapping_sub(3)), st.get(h.wrapping_sub(2)), st[h - 1]) {
            (Some(&BOOL), Some(&VAL), VAL) => ("?", 3, VAL),
            (Some(&BOOL), Some(&BOOL), BOOL) if s.chance(1, 2) => ("?", 3, BOOL),
            (_, Some(&VAL), VAL) => match s.below(10) {
                k @ 0..=3 => (["==", "<", ">=", "!="][k], 2, BOOL),
                4 if s.chance(1, 4) => (["+", "-"][s.below(2)], 2, VAL),
                k => (["min", "max"][k % 2], 2, VAL),
            },
            (_, Some(&BOOL), BOOL) => (["&&", "||", "==", "!="][s.below(4)], 2, BOOL),
            (_, Some(&BOOL), _) => {
                val(s);
                ("?", 2, VAL)
            }
            (_, Some(&VAL), _) => {
                val(s);
                val(s);
                ("?", 1, VAL)
            }
            (_, None, BOOL) => ("!", 1, BOOL),
            (_, None, _) => {
                val(s);
                ("max", 1, VAL)
            }
            _ => unreachable!(),
        };
        out.push(op.into());
        st.truncate(h - pops);
        st.push(kind);
    };
    for _ in 0..len {
        if s.chance(1, 60) {
            push = s.range(5, 95);
        }
        if st.is_empty() || s.below(100) < push {
            if !saved.is_empty() && s.chance(1, 8) {
                let x = &saved[s.below(saved.len())];
                out.push(format!("load({})", x.0));
                st.push(x.1);
            } else if s.chance(1, 10) {
                out.push(["True", "False"][s.below(2)].into());
                st.push(BOOL);
            } else if s.chance(1, 8) {
                out.push(["0", "1", "2", "-3", "5"][s.below(5)].into());
                st.push(VAL);
            } else {
                out.push(names[s.below(names.len())].clone());
                st.push(VAL);
            }
        } else {
            reduce(&mut st, s, out);
        }
        if s.chance(1, 25) {
            let id = crate::p_bss::save_name(s, names);
            out.push(format!("save({id})"));
            saved.retain(|x| x.0 != id);
            saved.push((id, st[st.len() - 1]));
        }
    }
    while st.len() > 1 {
        reduce(&mut st, s, out);
    }
}

pub fn rpn_model(toks: &[String], sp: &Space, idx: &HashMap<String, usize>, order: &mut Vec<String>) -> M {
    let mut st: Vec<(u8, Table)> = vec![];
    let mut saved: HashMap<String, (u8, Table)> = HashMap::new();
    for t in toks {
        let t = t.as_str();
        let arity = if BIN.contains(&t) { 2 } else if t == "!" { 1 } else if t == "?" { 3 } else { 0 };
        if arity > 0 {
            if st.len() < arity {
                return M::Malformed("missing operand".into());
            }
            let a: Vec<(u8, Table)> = st.split_off(st.len() - arity);
            let ks: Vec<u8> = a.iter().map(|x| x.0).collect();
            let op = match (t, &ks[..]) {
                ("!", [BOOL]) => 15,
                ("?", [BOOL, VAL, VAL]) => 18,
                ("?", [BOOL, BOOL, BOOL]) => 19,
                ("==", [BOOL, BOOL]) => 16,
                ("!=", [BOOL, BOOL]) => 17,
                (_, [VAL, VAL]) if !["&&", "||"].contains(&t) => BIN.iter().position(|x| *x == t).unwrap(),
                ("&&", [BOOL, BOOL]) => 12,
                ("||", [BOOL, BOOL]) => 13,
                _ => return M::Skip,
            };
            let mut r = vec![];
            for p in 0..sp.size {
                let x: Vec<i64> = a.iter().map(|y| y.1[p]).collect();
                let sel = op == 18 || op == 19;
                if if sel { x[0] == ANY } else { x.contains(&ANY) } {
                    r.push(ANY);
                    continue;
                }
                r.push(match mt2_point(op, &x) {
                    P::V(v) => v,
                    P::Any => ANY,
                    P::Skip => return M::Skip,
                });
            }
            // an open point could hide an overflow: stay out of range of that
            if r.contains(&ANY) && op < 3 {
                return M::Skip;
            }
            st.push((mt2_ops()[op].2, r));
            continue;
        }
        match t {
            "True" => st.push((BOOL, vec![1; sp.size])),
            "False" => st.push((BOOL, vec![0; sp.size])),
            x if x.starts_with("save(") && x.ends_with(')') => match st.last() {
                None => return M::Malformed("nothing to save".into()),
                Some(y) => {
                    saved.insert(x.replacen("save(", "load(", 1), y.clone());
                }
            },
            x if x.starts_with("load(") && x.ends_with(')') => match saved.get(x) {
                None => return M::Malformed("unknown name".into()),
                Some(y) => st.push(y.clone()),
            },
            x => {
                if let Ok(v) = x.parse::<i32>() {
                    st.push((VAL, vec![v as i64; sp.size]));
                } else if let Some(&v) = idx.get(x) {
                    if !order.iter().any(|o| o == x) {
                        order.push(x.to_string());
                    }
                    st.push((VAL, (0..sp.size).map(|p| sp.digit(p, v) as i64).collect()));
                } else {
                    return M::Skip;
                }
            }
        }
    }
    if st.len() == 1 {
        let (k, t) = st.pop().unwrap();
        M::Ok(k, t)
    } else {
        M::Malformed(format!("{} nodes left", st.len()))
    }
}

fn rpn_gen<V: Val>(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let rg = ranges_for(&mut c, 4, 200);
    let n = rg.len();
    let style = c.below(12);
    let rot = c.below(ODD.len());
    let names: Vec<String> = (0..n).map(|i| if style < 9 { label(STYLES[style], i) } else { ODD[(rot + 5 * i) % ODD.len()].to_string() }).collect();
    let idx: HashMap<String, usize> = names.iter().cloned().enumerate().map(|(i, l)| (l, i)).collect();
    let vm: HashMap<String, usize> = names.iter().cloned().zip(rg.iter().copied()).collect();
    let sp = Space::new(&rg);
    let mut m: MssMgr<V> = MssMgr::new();
    if c.chance(1, 2) {
        m.set_gc_threshold(c.below(60));
    }
    let mut order: Vec<String> = vec![];
    let mut held: Vec<(MddNode<V>, Table)> = vec![];
    let (mut good, mut bad) = (0, 0);
    step!(ctx, "names={names:?} ranges={rg:?}");
    for words in &case.ops {
        let mut s = Src::new(words);
        let mut toks = vec![];
        let depth = s.range(1, 4);
        let kind = s.chance(1, 2) as u8;
        if s.chance(1, 12) {
            long_expr(&mut s, &names, &mut toks);
            ctx.class("long_expression");
        } else {
            gen_expr(&mut s, kind, depth, &names, &mut toks, &mut vec![], true);
        }
        if s.chance(2, 5) {
            damage(&mut toks, &["+", "<", "&&", "!", "?", "min", "==", "/", "load(q)", "save(q)", "0", "True", &names[0]], &mut s);
        }
        let e = join_ws(&toks, &mut s);
        let mut o2 = order.clone();
        let want = rpn_model(&toks, &sp, &idx, &mut o2);
        step!(ctx, "{e:?}");
        match want {
            M::Skip => continue,
            M::Ok(kd, t) => {
                let f = m.rpn(&e, &vm).map_err(|x| format!("well-formed {e:?} was refused: {x}"))?;
                good += 1;
                ensure!(f.is_boolean() == (kd == BOOL), "{e:?} is of the wrong kind");
                let g = dag(&f, &idx)?.table(&sp)?;
                for p in 0..sp.size {
                    ensure!(t[p] == ANY || t[p] == g[p], "{e:?} is {} at {:?}, expected {}", show(&[g[p]]), sp.point(p), show(&[t[p]]));
                }
                order = o2;
                let vo = m.get_varorder();
                let wo: Vec<(String, usize)> = order.iter().map(|x| (x.clone(), vm[x])).collect();
                ensure!(vo == wo, "variables are ordered {vo:?}, first appearances are {wo:?}");
                held.push((f, g));
                if held.len() > 5 {
                    held.remove(0);
                }
            }
            M::Malformed(why) => {
                bad += 1;
                ensure!(m.rpn(&e, &vm).is_err(), "malformed {e:?} ({why}) was accepted");
                let vo: Vec<String> = m.get_varorder().into_iter().map(|x| x.0).collect();
                ensure!(vo.len() >= order.len() && vo[..order.len()] == order[..], "a refused expression changed the variable order to {vo:?}");
                ensure!(vo.iter().collect::<HashSet<_>>().len() == vo.len() && vo.iter().all(|x| names.contains(x)), "a refused expression left a bad variable order {vo:?}");
                order = vo;
            }
        }
        for (f, t) in &held {
            ensure!(dag(f, &idx)?.table(&sp)? == *t, "an earlier result changed");
        }
    }
    if bad > 0 {
        ctx.class("malformed");
    }
    ctx.nontrivial = good >= 2;
    Ok(())
}
pub fn rpn(c: &Case, x: &mut Ctx) -> R {
    if c.cfg[11] % 2 == 0 {
        rpn_gen::<i32>(c, x)
    } else {
        rpn_gen::<i64>(c, x)
    }
}

// ------------------------------------------------------------------ C19/C20 probability

pub trait Num: Copy + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self> + From<f64> + PartialEq {}
impl Num for f64 {}
impl Num for Zp {}

fn zp_dist<V: Val>(w: &X<V>, s: &mut Src) -> HashMap<String, Vec<Zp>> {
    (0..w.sp.n())
        .map(|v| {
            let mut d: Vec<Zp> = (0..w.sp.ranges[v] - 1).map(|_| Zp(s.u64() % PRIME)).collect();
            let tot = d.iter().fold(Zp(0), |a, &b| a + b);
            let at = s.below(d.len() + 1);
            d.insert(at, Zp(1) - tot);
            (w.labels[v].clone(), d)
        })
        .collect()
}
fn f_dist<V: Val>(w: &X<V>, s: &mut Src) -> HashMap<String, Vec<f64>> {
    (0..w.sp.n())
        .map(|v| {
            let r = w.sp.ranges[v];
            let mut d: Vec<f64> = (0..r).map(|_| if s.chance(1, 6) { 0.0 } else { s.unit() }).collect();
            let t: f64 = d.iter().sum();
            if t == 0.0 {
                d[s.below(r)] = 1.0;
            } else {
                d.iter_mut().for_each(|x| *x /= t);
            }
            (w.labels[v].clone(), d)
        })
        .collect()
}

fn prob_model<V: Val, T: Num>(w: &X<V>, t: &[i64], pv: &HashMap<String, Vec<T>>, ss: &[i64], fix: Option<(usize, usize)>) -> T {
    let n = w.sp.n();
    let set: HashSet<i64> = ss.iter().copied().collect();
    let p: Vec<&Vec<T>> = w.labels.iter().map(|l| &pv[l]).collect();
    let mut tot = T::from(0.0);
    for x in 0..w.sp.size {
        if t[x] == UNDET || !set.contains(&t[x]) {
            continue;
        }
        if let Some((v, st)) = fix {
            if w.sp.digit(x, v) != st {
                continue;
            }
        }
        let mut m = T::from(1.0);
        for v in 0..n {
            if fix.map_or(true, |f| f.0 != v) {
                m = m * p[v][w.sp.digit(x, v)];
            }
        }
        tot = tot + m;
    }
    tot
}

fn pick_values(t: &[i64], s: &mut Src) -> Vec<i64> {
    let vals: BTreeSet<i64> = t.iter().copied().filter(|&x| x != UNDET).collect();
    match s.below(6) {
        0 => vals.into_iter().collect(),
        1 => vec![],
        2 => vec![0, 1],
        3 => vec![1, 1, 99, -55],
        _ => vals.into_iter().filter(|_| s.chance(1, 2)).collect(),
    }
}

fn prob_gen<V: Val>(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let rg = ranges_for(&mut c, 5, 300);
    let w: X<V> = X::churning_all(&rg, &mut c);
    step!(ctx, "ranges={rg:?}");
    let mut dep = 0;
    for words in &case.ops {
        let mut s = Src::new(words);
        w.stir(&mut s, ctx);
        let mut d = String::new();
        let undet = s.chance(1, 3);
        let (mut f, kd, t) = any_fn(&w, &mut s, undet, &mut d)?;
        let vals = pick_values(&t, &mut s);
        let ss: Vec<V> = vals.iter().map(|&x| V::of(x)).collect();
        step!(ctx, "{d} kind={kd} ss={vals:?}");
        let pz = zp_dist(&w, &mut s);
        let z = f.prob(&pz, &ss);
        let zw = prob_model(&w, &t, &pz, &vals, None);
        ensure!(z == zw, "exact probability of {vals:?} is {z:?}, summing states gives {zw:?}");
        let pf = f_dist(&w, &mut s);
        let x = f.prob(&pf, &ss);
        let xw = prob_model(&w, &t, &pf, &vals, None);
        ensure!(close(x, xw), "probability {x}, summing states gives {xw}");
        let iv = boxes(&pf, &mut s);
        let i = f.prob(&iv, &ss);
        ensure!(i.has(xw), "interval probability [{}, {}] misses the point value {xw}", i.0, i.1);
        let iv: HashMap<String, Vec<Iv>> = pf.iter().map(|(k, p)| (k.clone(), p.iter().map(|&x| Iv(x, x)).collect())).collect();
        let i = f.prob(&iv, &ss);
        ensure!(close(i.0, xw) && close(i.1, xw), "degenerate interval gives [{}, {}], point gives {xw}", i.0, i.1);
        // an earlier query leaves no trace
        let x2 = f.prob(&pf, &ss);
        ensure!(x2 == x, "asking again gives {x2} instead of {x}");
        if !t.contains(&UNDET) {
            let all: Vec<V> = t.iter().map(|&x| V::of(x)).collect();
            ensure!(f.prob(&pz, &all) == Zp(1), "the probabilities of all values do not sum to one");
        } else {
            ctx.class("undetermined");
        }
        if kd == BOOL {
            ctx.class("boolean");
        }
        dep = dep.max(w.sp.support(&t).len());
    }
    ctx.nontrivial = dep >= 2;
    Ok(())
}
pub fn prob(c: &Case, x: &mut Ctx) -> R {
    if c.cfg[11] % 2 == 0 {
        prob_gen::<i32>(c, x)
    } else {
        prob_gen::<i64>(c, x)
    }
}

fn boxes(pf: &HashMap<String, Vec<f64>>, s: &mut Src) -> HashMap<String, Vec<Iv>> {
    let mut ks: Vec<&String> = pf.keys().collect();
    ks.sort();
    ks.into_iter()
        .map(|k| {
            (
                k.clone(),
                pf[k]
                    .iter()
                    .map(|&x| {
                        let (a, b) = (s.unit() * 0.2, s.unit() * 0.2);
                        Iv((x - a).max(0.0), (x + b).min(1.0))
                    })
                    .collect(),
            )
        })
        .collect()
}
/// Another distribution inside the boxes: moves mass between two states.
fn inside(pf: &HashMap<String, Vec<f64>>, iv: &HashMap<String, Vec<Iv>>, s: &mut Src) -> HashMap<String, Vec<f64>> {
    let mut out = pf.clone();
    let mut ks: Vec<&String> = pf.keys().collect();
    ks.sort();
    for k in ks {
        let p = out.get_mut(k).unwrap();
        for _ in 0..3 {
            let a = s.below(p.len());
            let b = s.below(p.len());
            if a != b {
                let room = (iv[k][a].1 - p[a]).min(p[b] - iv[k][b].0).max(0.0);
                let m = room * if s.chance(1, 2) { 1.0 } else { s.unit() };
                p[a] += m;
                p[b] -= m;
            }
        }
    }
    out
}

fn bmeas_gen<V: Val>(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let rg = ranges_for(&mut c, 4, 120);
    let w: X<V> = X::churning_all(&rg, &mut c);
    step!(ctx, "ranges={rg:?}");
    let mut dep = 0;
    for words in &case.ops {
        let mut s = Src::new(words);
        w.stir(&mut s, ctx);
        let mut d = String::new();
        let undet = s.chance(1, 3);
        let (mut f, kd, t) = any_fn(&w, &mut s, undet, &mut d)?;
        let vals = pick_values(&t, &mut s);
        let ss: Vec<V> = vals.iter().map(|&x| V::of(x)).collect();
        step!(ctx, "{d} kind={kd} ss={vals:?}");
        let pz = zp_dist(&w, &mut s);
        let pf = f_dist(&w, &mut s);
        let iv = boxes(&pf, &mut s);
        let pf2 = inside(&pf, &iv, &mut s);
        let bz = f.bmeas(&pz, &ss);
        let bf = f.bmeas(&pf, &ss);
        let bi = f.bmeas(&iv, &ss);
        for k in bz.keys().chain(bf.keys()).chain(bi.keys()) {
            ensure!(w.idx.contains_key(k), "measure reported for unknown component {k}");
        }
        let sup: HashSet<usize> = w.sp.support(&t).into_iter().collect();
        dep = dep.max(sup.len());
        for v in 0..w.sp.n() {
            let l = &w.labels[v];
            let r = w.sp.ranges[v];
            let cz: Vec<Zp> = (0..r).map(|j| prob_model(&w, &t, &pz, &vals, Some((v, j)))).collect();
            let cf: Vec<f64> = (0..r).map(|j| prob_model(&w, &t, &pf, &vals, Some((v, j)))).collect();
            let cg: Vec<f64> = (0..r).map(|j| prob_model(&w, &t, &pf2, &vals, Some((v, j)))).collect();
            let (a, b, i) = match (bz.get(l), bf.get(l), bi.get(l)) {
                (Some(a), Some(b), Some(i)) => (a, b, i),
                (None, None, None) => {
                    ensure!(!sup.contains(&v), "component {l} matters but has no measure");
                    continue;
                }
                _ => return Err(format!("measure of {l} depends on the number type")),
            };
            ensure!(a.len() == r - 1 && b.len() == r - 1 && i.len() == r - 1, "component {l} with {r} states has {} measures", a.len());
            for j in 1..r {
                ensure!(a[j - 1] == cz[j] - cz[j - 1], "exact measure of {l} from state {} to {j} is {:?}, expected {:?}", j - 1, a[j - 1], cz[j] - cz[j - 1]);
                ensure!(close(b[j - 1], cf[j] - cf[j - 1]), "measure of {l} from state {} to {j} is {}, expected {}", j - 1, b[j - 1], cf[j] - cf[j - 1]);
                for q in [&cf, &cg] {
                    ensure!(i[j - 1].has(q[j] - q[j - 1]), "interval measure of {l} [{}, {}] misses {}", i[j - 1].0, i[j - 1].1, q[j] - q[j - 1]);
                }
            }
        }
    }
    ctx.nontrivial = dep >= 2;
    Ok(())
}
pub fn bmeas(c: &Case, x: &mut Ctx) -> R {
    if c.cfg[11] % 2 == 0 {
        bmeas_gen::<i32>(c, x)
    } else {
        bmeas_gen::<i64>(c, x)
    }
}

// ------------------------------------------------------------------ wide read-once systems

enum RO {
    Var(usize),
    Op(usize, Box<RO>, Box<RO>),
}
fn read_once(vs: &[usize], kind: u8, s: &mut Src) -> RO {
    if vs.len() == 1 {
        return RO::Var(vs[0]);
    }
    let k = s.range(1, vs.len() - 1);
    // additive, lattice and a little multiplication; comparisons only at the root
    let op = if kind == BOOL { 6 + s.below(6) } else { [0, 4, 5, 4, 5, 0, 1, 2][s.below(8)] };
    RO::Op(op, Box::new(read_once(&vs[..k], VAL, s)), Box::new(read_once(&vs[k..], VAL, s)))
}
fn ro_node<V: Val>(r: &RO, w: &X<V>) -> MddNode<V> {
    match r {
        RO::Var(v) => w.v[*v].clone(),
        RO::Op(op, a, b) => apply(*op, &[&ro_node(a, w), &ro_node(b, w)]),
    }
}
/// Exact distribution of the value, by convolution over independent parts.
fn ro_dist(r: &RO, p: &[Vec<Zp>], worst: &mut usize) -> BTreeMap<i64, Zp> {
    match r {
        RO::Var(v) => {
            let mut m = BTreeMap::new();
            for (j, &q) in p[*v].iter().enumerate() {
                m.insert(j as i64, q);
            }
            m
        }
        RO::Op(op, a, b) => {
            let x = ro_dist(a, p, worst);
            let y = ro_dist(b, p, worst);
            let mut m: BTreeMap<i64, Zp> = BTreeMap::new();
            for (i, q) in &x {
                for (j, r) in &y {
                    let v = match mt2_point(*op, &[*i, *j]) {
                        P::V(v) => v,
                        _ => UNDET,
                    };
                    let e = m.entry(v).or_insert(Zp(0));
                    *e = *e + *q * *r;
                }
            }
            *worst = (*worst).max(m.len());
            m
        }
    }
}
fn ro_eval(r: &RO, x: &[usize]) -> i64 {
    match r {
        RO::Var(v) => x[*v] as i64,
        RO::Op(op, a, b) => match mt2_point(*op, &[ro_eval(a, x), ro_eval(b, x)]) {
            P::V(v) => v,
            _ => UNDET,
        },
    }
}

/// Many components: values, exact distribution, measures and counts of read-once systems.
pub fn readonce(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(6, 16);
    let rg: Vec<usize> = (0..n).map(|_| [2, 2, 3, 3, 4][c.below(5)]).collect();
    let mut vs: Vec<usize> = (0..n).collect();
    // how far the tree's order is from the variable order: keeps the diagrams moderate
    if c.chance(1, 2) {
        vs.reverse();
    }
    for _ in 0..c.below(3) {
        let i = c.below(n - 1);
        vs.swap(i, i + 1);
    }
    let kind = c.chance(1, 3) as u8;
    let tree = read_once(&vs, kind, &mut c);
    let mut worst = 0;
    let ones: Vec<Vec<Zp>> = rg.iter().map(|&r| vec![Zp(1); r]).collect();
    let counts = ro_dist(&tree, &ones, &mut worst);
    if worst > 60 || counts.contains_key(&UNDET) {
        return Ok(());
    }
    let mut w: X<i32> = X { m: MssMgr::new(), v: vec![], sp: Space { ranges: rg.clone(), strides: vec![], size: 0 }, churn: 0, spread: 0, fill_seed: 0, labels: vec![], idx: HashMap::new() };
    for i in 0..n {
        let l = label(i % 5, i);
        w.idx.insert(l.clone(), i);
        w.labels.push(l);
    }
    for _ in 0..n {
        w.declare();
    }
    if c.chance(1, 3) {
        w.m.set_gc_threshold(c.range(10, 2000));
    }
    let mut f = ro_node(&tree, &w);
    let g = dag(&f, &w.idx)?;
    step!(ctx, "n={n} ranges={rg:?} nodes={} values={}", g.nodes.len(), counts.len());
    for words in case.ops.iter().take(10) {
        let mut s = Src::new(words);
        let x: Vec<usize> = rg.iter().map(|&r| s.below(r)).collect();
        ensure!(g.eval(|v| x[v])? == ro_eval(&tree, &x), "value at {x:?} is {}, expected {}", g.eval(|v| x[v])?, ro_eval(&tree, &x));
    }
    let mut s = Src::new(&case.ops[0]);
    let pz = zp_dist(&w, &mut s);
    let p: Vec<Vec<Zp>> = w.labels.iter().map(|l| pz[l].clone()).collect();
    let dist = ro_dist(&tree, &p, &mut worst);
    let pick: Vec<i64> = dist.keys().copied().filter(|_| s.chance(1, 2)).collect();
    let ss: Vec<i32> = pick.iter().map(|&x| x as i32).collect();
    let sum = |d: &BTreeMap<i64, Zp>| pick.iter().fold(Zp(0), |a, v| a + d.get(v).copied().unwrap_or(Zp(0)));
    ensure!(f.prob(&pz, &ss) == sum(&dist), "probability of {pick:?} differs from the convolution");
    // counts over the variables up to the root's level
    let lv = f.get_level().map_or(0, |l| l + 1);
    let above: u64 = rg[lv..].iter().product::<usize>() as u64;
    let hs: HashSet<i32> = ss.iter().copied().collect();
    let want = sum(&counts).0 / above;
    ensure!(f.mdd_count(&hs) == want, "count of {pick:?} is {}, expected {want}", f.mdd_count(&hs));
    ensure!(f.mdd_extract(&hs).len() == want, "enumerator length differs from the count");
    let b = f.bmeas(&pz, &ss);
    for v in 0..n {
        let cond: Vec<Zp> = (0..rg[v])
            .map(|j| {
                let mut q = p.clone();
                q[v] = (0..rg[v]).map(|i| Zp((i == j) as u64)).collect();
                sum(&ro_dist(&tree, &q, &mut worst))
            })
            .collect();
        match b.get(&w.labels[v]) {
            Some(m) => {
                ensure!(m.len() == rg[v] - 1, "component {v} has {} measures", m.len());
                for j in 1..rg[v] {
                    ensure!(m[j - 1] == cond[j] - cond[j - 1], "measure of component {v} from {} to {j} differs from the conditional difference", j - 1);
                }
            }
            None => ensure!(cond.iter().all(|x| *x == cond[0]), "component {v} matters but has no measure"),
        }
    }
    ctx.nontrivial = g.nodes.len() > n;
    Ok(())
}

// ------------------------------------------------------------------ wide lattice systems

/// Series, parallel and k-out-of-n structures over components of equally many states.
pub enum La {
    Var(usize),
    Gate(usize, Vec<La>),
}
pub fn lattice(vs: &[usize], s: &mut Src, depth: usize) -> La {
    if vs.len() == 1 {
        return La::Var(vs[0]);
    }
    let parts = if depth > 8 { vs.len() } else { s.range(2, vs.len().min(5)) };
    let mut ch = vec![];
    let mut a = 0;
    for i in 0..parts {
        let left = parts - i;
        let b = if left == 1 { vs.len() } else { a + s.range(1, (vs.len() - a - (left - 1)).min(1 + vs.len() * 2 / parts)) };
        ch.push(lattice(&vs[a..b], s, depth + 1));
        a = b;
    }
    // min or max: at least k of the parts reach a level
    let k = if s.chance(1, 2) { ch.len() } else { 1 };
    La::Gate(k, ch)
}
pub fn la_node<V: Val>(r: &La, w: &X<V>) -> MddNode<V> {
    match r {
        La::Var(v) => w.v[*v].clone(),
        La::Gate(k, ch) => {
            let ns: Vec<MddNode<V>> = ch.iter().map(|c| la_node(c, w)).collect();
            if *k == 1 {
                w.m.max(&ns)
            } else {
                w.m.min(&ns)
            }
        }
    }
}
fn la_eval(r: &La, x: &[usize]) -> usize {
    match r {
        La::Var(v) => x[*v],
        La::Gate(k, ch) => {
            let vs = ch.iter().map(|c| la_eval(c, x));
            if *k == 1 {
                vs.max().unwrap()
            } else {
                vs.min().unwrap()
            }
        }
    }
}
/// Over its own components: how many assignments reach each level at least.
fn la_reach(r: &La, m: usize) -> (Vec<u128>, u128, usize) {
    match r {
        La::Var(_) => ((0..m).map(|j| (m - j) as u128).collect(), m as u128, 1),
        La::Gate(k, ch) => {
            let parts: Vec<_> = ch.iter().map(|c| la_reach(c, m)).collect();
            let all: u128 = parts.iter().map(|p| p.1).product();
            let n = parts.iter().map(|p| p.2).sum();
            let f = (0..m)
                .map(|j| if *k == 1 { all - parts.iter().map(|p| p.1 - p.0[j]).product::<u128>() } else { parts.iter().map(|p| p.0[j]).product() })
                .collect();
            (f, all, n)
        }
    }
}
/// Minimal vectors to one level, or maximal vectors missing it.
fn la_min(r: &La, cut: bool) -> u128 {
    match r {
        La::Var(_) => 1,
        La::Gate(k, ch) => {
            let c = ch.iter().map(|x| la_min(x, cut));
            if (*k == 1) != cut {
                c.sum()
            } else {
                c.product()
            }
        }
    }
}

/// Counts that fit in 64 bits of functions of very many components.
pub fn counts_sparse(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(40, 200);
    let large = c.chance(1, 4);
    let ranges: Vec<usize> = (0..n).map(|_| if large && c.chance(1, 40) { c.range(120, 700) } else { c.range(2, 5) }).collect();
    let mut w: X<i32> = X { m: MssMgr::new(), v: vec![], sp: Space { ranges: ranges.clone(), strides: vec![], size: 0 }, churn: 0, spread: 0, fill_seed: 0, labels: vec![], idx: HashMap::new() };
    for i in 0..n {
        let l = format!("c{i}");
        w.idx.insert(l.clone(), i);
        w.labels.push(l);
    }
    for _ in 0..n {
        w.declare();
    }
    if c.chance(1, 3) {
        w.m.set_gc_threshold(c.range(10, 2000));
    }
    step!(ctx, "{n} components of {ranges:?} states");
    let mut nontrivial = false;
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        let lv = if s.chance(1, 4) { s.range(n / 2, n) } else { n };
        // each component in one set of states; few of them in more than one state
        let mut yes = 1u128;
        let mut cond: Vec<MddNode<i32>> = vec![];
        for v in 0..lv {
            let m = ranges[v];
            let wide = yes * (m as u128) < 1 << 60 && s.chance(1, if m > 100 { 2 } else { 8 });
            let last = v + 1 == lv;
            let states: Vec<usize> = if wide && s.chance(1, 2) && !last { (0..m).collect() } else if wide && m > 2 { (0..s.range(1, m - 1)).map(|_| s.below(m)).collect::<BTreeSet<_>>().into_iter().collect() } else { vec![s.below(m)] };
            yes *= states.len() as u128;
            if states.len() == m {
                continue;
            }
            let parts: Vec<MddNode<i32>> = states.iter().map(|&d| w.v[v].eq(&w.m.value(d as i32))).collect();
            cond.push(w.m.or(&parts));
        }
        if s.chance(1, 2) {
            cond.reverse();
        }
        let b = w.m.and(&cond);
        let kind = s.below(3);
        let (a, z) = (s.range(2, 9) as i32, -(s.below(4) as i32));
        let (f, ss, other): (MddNode<i32>, Vec<i32>, i32) = match kind {
            0 => (b, vec![1], 7),
            1 => (b.not(), vec![0], 7),
            _ => (b.ite(&w.m.value(a), &w.m.value(z)), vec![a], a + 1),
        };
        step!(ctx, "{k}: up to level {}, kind {kind}: {yes}", lv - 1);
        ensure!(f.get_level() == Some(lv - 1), "{k}: root level {:?}, expected {}", f.get_level(), lv - 1);
        let mut ask = ss.clone();
        ask.push(other);
        for (ss, want) in [(ss, yes), (vec![], 0), (vec![other], 0), (ask, yes)] {
            let ss: HashSet<i32> = ss.into_iter().collect();
            let got = f.mdd_count(&ss);
            ensure!(got as u128 == want, "{k}: count of {ss:?} is {got}, expected {want}");
            ensure!(f.mdd_extract(&ss).len() as u128 == want, "{k}: enumerator length for {ss:?} is {}, expected {want}", f.mdd_extract(&ss).len());
        }
        nontrivial |= lv > 64;
    }
    ctx.nontrivial = nontrivial;
    Ok(())
}

/// Counts beyond 32 bits of lattice systems and of their minimal path and cut vectors.
pub fn lattice_wide(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let m = c.range(2, 4);
    let n = c.range(10, [62, 38, 31][m - 2]);
    let mut w: X<i32> = X { m: MssMgr::new(), v: vec![], sp: Space { ranges: vec![m; n], strides: vec![], size: 0 }, churn: 0, spread: 0, fill_seed: 0, labels: vec![], idx: HashMap::new() };
    for i in 0..n {
        let l = format!("c{i}");
        w.idx.insert(l.clone(), i);
        w.labels.push(l);
    }
    for _ in 0..n {
        w.declare();
    }
    if c.chance(1, 3) {
        w.m.set_gc_threshold(c.range(10, 2000));
    }
    step!(ctx, "{n} components of {m} states");
    let mut nontrivial = false;
    let mut hold: Vec<ZmddNode<i32>> = vec![];
    if n >= 16 && c.chance(1, 30) {
        // many families held: later ones get ids beyond 16 bits, next to shared small ids
        let target = 65500 + c.below(80);
        for k in 0..5000 {
            let to = (k + 3).min(n);
            let vs: Vec<usize> = (0..to).filter(|_| c.below(8) < 6).collect();
            if vs.is_empty() {
                continue;
            }
            let f = la_node(&lattice(&vs, &mut c, 0), &w);
            let z = if c.chance(1, 2) { w.m.mincut(&f) } else { w.m.minpath(&f) }.ok_or("a monotone system was refused")?;
            let live = z.get_mgr().borrow().live_node_count();
            hold.push(z);
            if live >= target {
                ctx.class("ids_beyond_16_bits");
                break;
            }
        }
        step!(ctx, "{} families held", hold.len());
    }
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        let dens = s.range(3, 8);
        let gap = s.chance(1, 3).then(|| (s.below(n), s.range(5, 40)));
        let mut vs: Vec<usize> = (0..n).filter(|&i| s.below(8) < dens && gap.map_or(true, |g| i < g.0 || i >= g.0 + g.1)).collect();
        if vs.len() < 2 {
            vs = vec![0, n - 1];
        }
        let r = lattice(&vs, &mut s, 0);
        let f = la_node(&r, &w);
        let (reach, own, _) = la_reach(&r, m);
        let lv = vs[vs.len() - 1] + 1;
        let all = (m as u128).pow(lv as u32);
        let at = |j: usize| (reach[j] - if j + 1 < m { reach[j + 1] } else { 0 }) * (all / own);
        let g = dag(&f, &w.idx)?;
        for _ in 0..8 {
            let x: Vec<usize> = (0..n).map(|_| s.below(m)).collect();
            ensure!(g.eval(|v| x[v])? == la_eval(&r, &x) as i64, "{k}: value at {x:?} is {}, expected {}", g.eval(|v| x[v])?, la_eval(&r, &x));
        }
        step!(ctx, "{k}: {} components up to level {}, {} nodes, {} of {all} at the top level", vs.len(), lv - 1, g.nodes.len(), at(m - 1));
        // the function itself and its upper level sets
        for ask in 1..1usize << m {
            let ss: HashSet<i32> = (0..m).filter(|j| ask >> j & 1 == 1).map(|j| j as i32).collect();
            let want: u128 = (0..m).filter(|j| ask >> j & 1 == 1).map(at).sum();
            ensure!(f.mdd_count(&ss) as u128 == want, "{k}: count of {ss:?} is {}, expected {want}", f.mdd_count(&ss));
            let mut it = f.mdd_extract(&ss);
            ensure!(it.len() as u128 == want, "{k}: enumerator length of {ss:?} is {}, expected {want}", it.len());
            // the enumerator walks all assignments, wanted or not
            if want == all || want > 0 && all < 1 << 15 {
                let mut seen: Vec<HashMap<String, usize>> = vec![];
                for _ in 0..8 {
                    let Some(p) = it.next() else { break };
                    for q in &seen {
                        ensure!(p.iter().any(|(l, x)| q.get(l).is_some_and(|y| y != x)), "{k}: two enumerated assignments overlap");
                    }
                    let mut x: Vec<usize> = (0..n).map(|_| s.below(m)).collect();
                    for (l, &d) in &p {
                        let v = *w.idx.get(l).ok_or_else(|| format!("an assignment names unknown component {l:?}"))?;
                        ensure!(v < lv && d < m, "{k}: assignment {p:?} decides a component above the root or a missing state");
                        x[v] = d;
                    }
                    ensure!(ss.contains(&(la_eval(&r, &x) as i32)), "{k}: an assignment enumerated for {ss:?} has value {}", la_eval(&r, &x));
                    seen.push(p);
                }
                ensure!(!seen.is_empty(), "{k}: nothing enumerated of {want}");
            }
        }
        // the Boolean functions "at least level j"
        for j in 1..m {
            let b = f.ge(&w.m.value(j as i32));
            let scale = all / own;
            let (up, down) = (reach[j] * scale, (own - reach[j]) * scale);
            ensure!(b.get_level() == Some(lv - 1), "{k}: root level of a level set is {:?}, expected {}", b.get_level(), lv - 1);
            for (ss, want) in [(vec![1], up), (vec![0], down), (vec![0, 1], all), (vec![2, -1], 0)] {
                let ss: HashSet<i32> = ss.into_iter().collect();
                let got = b.mdd_count(&ss);
                ensure!(got as u128 == want, "{k}: count of {ss:?} of level set {j} is {got}, expected {want}");
                ensure!(b.mdd_extract(&ss).len() as u128 == want, "{k}: enumerator length of {ss:?} of level set {j} is {}, expected {want}", b.mdd_extract(&ss).len());
            }
        }
        nontrivial |= at(m - 1) > 1 << 32 || at(0) > 1 << 32;
        if s.chance(1, 2) {
            let cut = s.chance(1, 2);
            // the system itself, or the Boolean function "at least level j"
            let at_least = s.chance(1, 2).then(|| s.range(1, m - 1));
            let b = match at_least {
                Some(j) => f.ge(&w.m.value(j as i32)),
                None => f.clone(),
            };
            let n_labels = if at_least.is_some() { 2 } else { m };
            let value = |x: &[usize]| match at_least {
                Some(j) => (la_eval(&r, x) >= j) as usize,
                None => la_eval(&r, x),
            };
            let z = if cut { w.m.mincut(&b) } else { w.m.minpath(&b) }.ok_or("a monotone system was refused")?;
            let labels: Vec<i32> = z.labels();
            ensure!(labels == (0..n_labels as i32).collect::<Vec<_>>(), "{k}: labels {labels:?}");
            let per = la_min(&r, cut);
            let size = |j: usize| if j == if cut { n_labels - 1 } else { 0 } { 1 } else { per };
            for ask in 1..1usize << n_labels {
                let ss: HashSet<i32> = (0..n_labels).filter(|j| ask >> j & 1 == 1).map(|j| j as i32).collect();
                let want: u128 = (0..n_labels).filter(|j| ask >> j & 1 == 1).map(size).sum();
                if want > u64::MAX as u128 {
                    continue;
                }
                ensure!(z.count(&ss) as u128 == want, "{k}: {} vectors of labels {ss:?} counted, expected {want} (cut: {cut}, at least: {at_least:?})", z.count(&ss));
                let mut seen = BTreeSet::new();
                for p in z.extract(&ss).take(8) {
                    ensure!(p.len() == n, "{k}: a vector gives {} of {n} components", p.len());
                    let mut x = vec![0; n];
                    for (l, &d) in &p {
                        x[*w.idx.get(l).ok_or_else(|| format!("a vector names unknown component {l:?}"))?] = d;
                    }
                    let o = value(&x);
                    ensure!(ss.contains(&(o as i32)), "{k}: vector {x:?} of labels {ss:?} has value {o}");
                    for v in 0..n {
                        let mut y = x.clone();
                        if cut && x[v] + 1 < m {
                            y[v] += 1;
                        } else if !cut && x[v] > 0 {
                            y[v] -= 1;
                        } else {
                            continue;
                        }
                        ensure!(value(&y) != o, "{k}: vector {x:?} is not extreme in component {v}");
                    }
                    ensure!(seen.insert(x), "{k}: a vector enumerated twice");
                }
                ensure!(seen.len() as u128 == want.min(8), "{k}: {} vectors enumerated of {want}", seen.len());
            }
            if per > 1 << 16 {
                ctx.class("family_over_2^16");
            }
            if per > 1 << 32 {
                ctx.class("family_over_2^32");
            }
        }
    }
    ctx.nontrivial = nontrivial;
    Ok(())
}

/// Hundreds of components: values, exact distribution, and vector families of more than
/// 256 levels.
pub fn lattice_long(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let m = c.range(2, 3);
    let n = c.range(200, 340);
    let mut w: X<i32> = X { m: MssMgr::new(), v: vec![], sp: Space { ranges: vec![m; n], strides: vec![], size: 0 }, churn: 0, spread: 0, fill_seed: 0, labels: vec![], idx: HashMap::new() };
    for i in 0..n {
        let l = format!("c{i}");
        w.idx.insert(l.clone(), i);
        w.labels.push(l);
    }
    for _ in 0..n {
        w.declare();
    }
    if c.chance(1, 3) {
        w.m.set_gc_threshold(c.range(10, 3000));
    }
    step!(ctx, "{n} components of {m} states");
    fn tail<V: Val>(r: &La, p: &[Vec<Zp>], j: usize, w: &X<V>) -> Zp {
        match r {
            La::Var(v) => p[*v][j..].iter().fold(Zp(0), |a, &x| a + x),
            La::Gate(k, ch) => {
                let q = ch.iter().map(|c| tail(c, p, j, w));
                if *k == 1 {
                    Zp(1) - q.fold(Zp(1), |a, x| a * (Zp(1) - x))
                } else {
                    q.fold(Zp(1), |a, x| a * x)
                }
            }
        }
    }
    /// Number of extremal vectors, capped.
    fn per(r: &La, cut: bool) -> u128 {
        match r {
            La::Var(_) => 1,
            La::Gate(k, ch) => {
                let c = ch.iter().map(|x| per(x, cut));
                let cap = 1u128 << 63;
                if (*k == 1) != cut {
                    c.fold(0, |a, x| (a + x).min(cap))
                } else {
                    c.fold(1, |a, x| (a * x).min(cap))
                }
            }
        }
    }
    let mut deep = false;
    let mut fams = vec![];
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        let dens = s.range(2, 8);
        let mut vs: Vec<usize> = (0..n).filter(|_| s.below(8) < dens).collect();
        if s.chance(1, 3) {
            vs.rotate_left(s.below(3));
        }
        let r = lattice(&vs, &mut s, 0);
        let mut f = la_node(&r, &w);
        let g = dag(&f, &w.idx)?;
        step!(ctx, "{k}: {} components, {} nodes", vs.len(), g.nodes.len());
        for _ in 0..6 {
            let x: Vec<usize> = (0..n).map(|_| s.below(m)).collect();
            ensure!(g.eval(|v| x[v])? == la_eval(&r, &x) as i64, "{k}: value at a sampled state is {}, expected {}", g.eval(|v| x[v])?, la_eval(&r, &x));
        }
        let pz: HashMap<String, Vec<Zp>> = w
            .labels
            .iter()
            .map(|l| {
                let mut d: Vec<Zp> = (1..m).map(|_| Zp(s.u64() % PRIME)).collect();
                d.push(d.iter().fold(Zp(1), |a, &x| a - x));
                (l.clone(), d)
            })
            .collect();
        let p: Vec<Vec<Zp>> = w.labels.iter().map(|l| pz[l].clone()).collect();
        for j in 1..m {
            let ss: Vec<i32> = (j..m).map(|x| x as i32).collect();
            ensure!(f.prob(&pz, &ss) == tail(&r, &p, j, &w), "{k}: probability of at least {j} is wrong");
        }
        let cut = s.chance(1, 2);
        // the system itself, or the Boolean function "at least level j"
        let at_least = s.chance(1, 3).then(|| s.range(1, m - 1));
        if let Some(j) = at_least {
            f = f.ge(&w.m.value(j as i32));
        }
        let states = m;
        let m = if at_least.is_some() { 2 } else { m };
        let value = |x: &[usize]| match at_least {
            Some(j) => (la_eval(&r, x) >= j) as usize,
            None => la_eval(&r, x),
        };
        let z = if cut { w.m.mincut(&f) } else { w.m.minpath(&f) }.ok_or("a monotone system was refused")?;
        let cnt = per(&r, cut);
        for j in 0..m {
            let ss: HashSet<i32> = [j as i32].into_iter().collect();
            let want = if j == if cut { m - 1 } else { 0 } { 1 } else { cnt };
            if want >= 1 << 63 {
                continue;
            }
            ensure!(z.count(&ss) as u128 == want, "{k}: {} vectors of label {j} counted, expected {want} (cut: {cut}, at least: {at_least:?})", z.count(&ss));
            deep |= want > 1 && vs.iter().any(|&v| v > 255);
        }
        // the enumerator walks all vectors, wanted or not: ask for all
        {
            let ss: HashSet<i32> = (0..m as i32).collect();
            let mut seen = BTreeSet::new();
            for p in z.extract(&ss).take(5) {
                ensure!(p.len() == n, "{k}: a vector gives {} of {n} components", p.len());
                let mut x = vec![0; n];
                for (l, &d) in &p {
                    x[*w.idx.get(l).ok_or_else(|| format!("a vector names unknown component {l:?}"))?] = d;
                }
                let o = value(&x);
                for v in 0..n {
                    let mut y = x.clone();
                    if cut && x[v] + 1 < states {
                        y[v] += 1;
                    } else if !cut && x[v] > 0 {
                        y[v] -= 1;
                    } else {
                        continue;
                    }
                    ensure!(value(&y) != o, "{k}: a vector of value {o} is not extreme in component {v}");
                }
                ensure!(seen.insert(x), "{k}: a vector enumerated twice");
            }
            ensure!(seen.len() as u128 == (1 + (m as u128 - 1) * cnt).min(5), "{k}: {} vectors enumerated, {cnt} per label", seen.len());
        }
        if s.chance(1, 2) {
            w.m.clear_cache();
        }
        let z2 = if cut { w.m.mincut(&f) } else { w.m.minpath(&f) }.ok_or("refused the second time")?;
        ensure!(z.get_id() == z2.get_id(), "{k}: asking twice gives two nodes");
        let all: HashSet<i32> = (0..m as i32).collect();
        ensure!(z.setdiff(&z2).count(&all) == 0, "{k}: a family without itself is not empty");
        fams.push((cut, z));
        if fams.len() >= 2 {
            let (a, b) = (&fams[fams.len() - 2], &fams[fams.len() - 1]);
            if a.0 == b.0 {
                let i = a.1.intersect(&b.1);
                let d = a.1.setdiff(&b.1);
                ensure!(i.intersect(&d).count(&all) == 0, "{k}: common part and rest overlap");
                ensure!(i.setdiff(&a.1).count(&all) == 0 && i.setdiff(&b.1).count(&all) == 0, "{k}: the common part is not inside both");
                ensure!(a.1.setdiff(&d).get_id() == i.get_id(), "{k}: a family without its rest is not the common part");
            }
        }
    }
    ctx.nontrivial = deep;
    Ok(())
}

// ------------------------------------------------------------------ C21/C22

fn minsets_gen<V: Val>(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let rg = ranges_for(&mut c, 5, 300);
    let mut w: X<V> = X::churning(&rg, &mut c);
    let first = if c.chance(1, 4) { c.range(1, rg.len()) } else { rg.len() };
    for _ in 0..first {
        w.declare();
    }
    if c.chance(1, 2) {
        w.m.set_gc_threshold(c.below(200));
    }
    step!(ctx, "ranges={rg:?} declared={first}");
    let mut most = 0;
    let (mut mono_n, mut non_n) = (0, 0);
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        w.stir(&mut s, ctx);
        if s.chance(1, 8) {
            w.declare();
        }
        let kind = s.chance(1, 3) as u8;
        let mut t = monotone_table(&w, kind, &mut s);
        match s.below(8) {
            0 => t = w.declared_table(kind, false, &mut s),
            1 | 2 => {
                // one point off: usually not monotone any more
                let sub: usize = w.sp.ranges[..w.v.len()].iter().product();
                let p = s.below(sub);
                let q = s.below(sub);
                let v = if kind == BOOL { 1 - t[p] } else { [t[q], t[p] + 1, t[p] - 1][s.below(3)] };
                for x in 0..w.sp.size {
                    if x % sub == p {
                        t[x] = v;
                    }
                }
            }
            _ => {}
        }
        step!(ctx, "{k}: kind={kind} {}", show(&t));
        let f = w.build(kind, &t);
        let cut = s.chance(1, 2);
        match make_family(&w, &f, &t, cut)? {
            None => {
                non_n += 1;
                ensure!((if cut { w.m.minpath(&f) } else { w.m.mincut(&f) }).is_none(), "a non-monotone function was answered");
            }
            Some(h) => {
                mono_n += 1;
                most = most.max(h.fam.len());
                if s.chance(1, 3) {
                    w.m.clear_cache();
                }
                let h2 = make_family(&w, &f, &t, cut)?.ok_or("refused the second time")?;
                ensure!(h2.z.get_id() == h.z.get_id(), "asking twice gives two nodes");
                make_family(&w, &f, &t, !cut)?.ok_or("refused")?;
                check_family(&w, &h, true, &mut s)?;
                check_level(&w, &h, &t, &mut s)?;
                audit_family(&h.z)?;
                ensure!(w.table(&f)? == t, "the structure function changed");
            }
        }
    }
    if mono_n > 0 {
        ctx.class("monotone");
    }
    if non_n > 0 {
        ctx.class("not_monotone");
    }
    ctx.nontrivial = most >= 3;
    Ok(())
}
pub fn minsets(c: &Case, x: &mut Ctx) -> R {
    if c.cfg[11] % 2 == 0 {
        minsets_gen::<i32>(c, x)
    } else {
        minsets_gen::<i64>(c, x)
    }
}

/// Classical minimal path vectors to a level / maximal cut vectors below it.
fn check_level<V: Val>(w: &X<V>, h: &Hf<V>, t: &[i64], s: &mut Src) -> R {
    let lo = *t.iter().min().unwrap();
    let hi = *t.iter().max().unwrap();
    let mut asks = vec![lo, hi, lo - 1, hi + 1];
    for _ in 0..3 {
        asks.push(lo + s.below((hi - lo + 1) as usize) as i64);
    }
    asks.retain(|v| v.abs() <= V::LIM);
    for v in asks {
        let ok = |p: usize| if h.cut { t[p] <= v } else { t[p] >= v };
        let mut want: Vec<Vec<(String, usize)>> = (0..w.sp.size)
            .filter(|&p| {
                ok(p)
                    && (0..w.sp.n()).all(|i| {
                        let d = w.sp.digit(p, i);
                        if h.cut {
                            d + 1 == w.sp.ranges[i] || !ok(p + w.sp.strides[i])
                        } else {
                            d == 0 || !ok(p - w.sp.strides[i])
                        }
                    })
            })
            .map(|p| dense(w, h.nv, p))
            .collect();
        want.sort();
        let mut got: Vec<Vec<(String, usize)>> = vec![];
        for x in h.z.extract_level(V::of(v)) {
            got.push(sorted(&x, &w.idx)?);
        }
        got.sort();
        ensure!(got == want, "level {v} of a {} family: {} vectors, expected {}", if h.cut { "cut" } else { "path" }, got.len(), want.len());
    }
    Ok(())
}

/// Families of one manager combined in histories.
fn vecfam_gen<V: Val>(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let rg = ranges_for(&mut c, 5, 250);
    let mut w: X<V> = X::churning(&rg, &mut c);
    let first = if c.chance(1, 4) { c.range(1, rg.len()) } else { rg.len() };
    for _ in 0..first {
        w.declare();
    }
    step!(ctx, "ranges={rg:?} declared={first}");
    let mut pool: Vec<Hf<V>> = vec![];
    let mut ops = 0;
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        w.stir(&mut s, ctx);
        if s.chance(1, 15) {
            w.declare();
        }
        if pool.len() < 2 || s.chance(1, 3) {
            let kind = s.chance(1, 3) as u8;
            let t = if s.chance(1, 2) && !pool.is_empty() {
                // a close relative of an existing family's function: same strata partly
                let t0 = monotone_table(&w, kind, &mut s);
                let g = monotone_table(&w, kind, &mut s);
                t0.iter().zip(&g).map(|(a, b)| *a.max(b)).collect()
            } else {
                monotone_table(&w, kind, &mut s)
            };
            let f = w.build(kind, &t);
            let cut = s.chance(1, 2);
            step!(ctx, "{k}: family cut={cut} kind={kind} {}", show(&t));
            let h = make_family(&w, &f, &t, cut)?.ok_or("a monotone function was refused")?;
            check_family(&w, &h, true, &mut s)?;
            pool.push(h);
        } else {
            let i = s.below(pool.len());
            let cand: Vec<usize> = (0..pool.len()).filter(|&j| pool[j].cut == pool[i].cut).collect();
            let j = cand[s.below(cand.len())];
            let inter = s.chance(1, 2);
            let h = family_op(&pool[i], &pool[j], inter);
            step!(ctx, "{k}: {} {i} {j}", if inter { "intersect" } else { "setdiff" });
            check_family(&w, &h, true, &mut s)?;
            audit_family(&h.z)?;
            if !h.fam.is_empty() && h.fam.len() < pool[i].fam.len() {
                ops += 1;
            }
            pool.push(h);
        }
        if pool.len() > 8 {
            let i = s.below(pool.len());
            pool.remove(i);
        }
        for i in 0..pool.len() {
            for j in 0..i {
                if pool[i].cut == pool[j].cut {
                    let same = pool[i].fam == pool[j].fam;
                    ensure!((pool[i].z.get_id() == pool[j].z.get_id()) == same, "families equal: {same}, same node: {}", !same);
                }
            }
        }
    }
    ctx.nontrivial = ops >= 1;
    Ok(())
}
pub fn vecfam(c: &Case, x: &mut Ctx) -> R {
    if c.cfg[11] % 2 == 0 {
        vecfam_gen::<i32>(c, x)
    } else {
        vecfam_gen::<i64>(c, x)
    }
}

// ------------------------------------------------------------------ C23 counts

fn counts_gen<V: Val>(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let rg = ranges_for(&mut c, 5, 300);
    let mut w: X<V> = X::churning_all(&rg, &mut c);
    let late = c.chance(1, 3);
    let mut nlate = 0;
    step!(ctx, "ranges={rg:?}");
    let mut skipping = false;
    for words in &case.ops {
        let mut s = Src::new(words);
        w.stir(&mut s, ctx);
        let mut d = String::new();
        let undet = s.chance(1, 3);
        let (f, kd, t) = any_fn(&w, &mut s, undet, &mut d)?;
        let vals: BTreeSet<i64> = pick_values(&t, &mut s).into_iter().collect();
        let ss: HashSet<V> = vals.iter().map(|&x| V::of(x)).collect();
        step!(ctx, "{d} kind={kd} ss={vals:?}");
        let lv = f.get_level().map_or(0, |l| l + 1);
        let size: usize = w.sp.ranges[..lv].iter().product();
        let inn = |p: usize| t[p] != UNDET && vals.contains(&t[p]);
        let want = (0..size).filter(|&p| inn(p)).count() as u64;
        let got = f.mdd_count(&ss);
        ensure!(got == want, "count of {vals:?} is {got}, expected {want}");
        let mut it = f.mdd_extract(&ss);
        ensure!(it.len() == want, "enumerator length is {}, expected {want}", it.len());
        let sub = Space::new(&w.sp.ranges[..lv]);
        let mut cover = vec![0u32; size];
        let mut steps = 0;
        while let Some(path) = it.next() {
            steps += 1;
            ensure!(steps <= size, "enumeration does not end");
            if steps == 2 {
                it.len();
            }
            let mut fixed = vec![];
            for (k, &x) in &path {
                let v = *w.idx.get(k).ok_or_else(|| format!("a path names unknown component {k:?}"))?;
                ensure!(v < lv, "a path decides a component above the root: {path:?}");
                ensure!(x < w.sp.ranges[v], "a path puts component {k} in state {x}");
                fixed.push((v, x));
            }
            // every point consistent with the path
            let free: Vec<usize> = (0..lv).filter(|v| !fixed.iter().any(|f| f.0 == *v)).collect();
            let base: usize = fixed.iter().map(|&(v, x)| x * sub.strides[v]).sum();
            let fs = Space::new(&free.iter().map(|&v| sub.ranges[v]).collect::<Vec<_>>());
            for q in 0..fs.size {
                let p = base + free.iter().enumerate().map(|(i, &v)| fs.digit(q, i) * sub.strides[v]).sum::<usize>();
                cover[p] += 1;
            }
        }
        ensure!(it.next().is_none(), "an exhausted enumerator yields again");
        for p in 0..size {
            ensure!(cover[p] == inn(p) as u32, "assignment {:?} is covered {} times, expected {}", sub.point(p), cover[p], inn(p) as u32);
        }
        let sup = w.sp.support(&t).len();
        skipping |= lv > sup && sup >= 1;
        if late && nlate < 3 && s.chance(1, 4) {
            let l = format!("late{nlate}");
            nlate += 1;
            w.m.defvar(&l, 3);
            ensure!(f.mdd_count(&ss) == want, "declaring a variable changed the count");
            ensure!(f.mdd_extract(&ss).count() == steps, "declaring a variable changed the enumeration");
        }
    }
    if skipping {
        ctx.class("skipped_levels");
    }
    ctx.nontrivial = skipping;
    Ok(())
}
pub fn counts(c: &Case, x: &mut Ctx) -> R {
    if c.cfg[11] % 2 == 0 {
        counts_gen::<i32>(c, x)
    } else {
        counts_gen::<i64>(c, x)
    }
}

// ------------------------------------------------------------------ C24/C25

fn term_label(kind: u8, v: i64) -> String {
    match (kind, v) {
        (BOOL, 0) => "F".into(),
        (BOOL, 1) => "T".into(),
        (BOOL, _) => "?".into(),
        (_, UNDET) => "Undet".into(),
        (_, v) => v.to_string(),
    }
}

pub fn dot<V: Val>(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let rg = ranges_for(&mut c, 4, 150);
    let w: X<V> = X::churning_all(&rg, &mut c);
    step!(ctx, "ranges={rg:?}");
    let mut most = 0;
    for words in &case.ops {
        let mut s = Src::new(words);
        w.stir(&mut s, ctx);
        let mut d = String::new();
        let undet = s.chance(1, 3);
        let (f, kd, t) = any_fn(&w, &mut s, undet, &mut d)?;
        step!(ctx, "{d}");
        let g = dag(&f, &w.idx)?;
        let is_undet = |k: usize| g.nodes[&k] == D::T(UNDET);
        let raw = |k: usize| match dec(k) {
            N2::Bool(i) | N2::Value(i) => i,
        };
        let mut wn = BTreeMap::new();
        let mut we = BTreeSet::new();
        for (&id, x) in &g.nodes {
            match x {
                D::T(UNDET) if id != g.root => {}
                D::T(v) => {
                    wn.insert(raw(id), term_label(kd, *v));
                }
                D::N { var, ch, .. } => {
                    wn.insert(raw(id), w.labels[*var].clone());
                    for (i, &x) in ch.iter().enumerate() {
                        if !is_undet(x) {
                            we.insert((raw(id), i, raw(x)));
                        }
                    }
                }
            }
        }
        check_dot(&f.dot(), &wn, &we, raw(g.root))?;
        most = most.max(g.nodes.len());
        if !t.contains(&UNDET) && is_monotone(&w.sp, &t) {
            let h = make_family(&w, &f, &t, s.chance(1, 2))?.ok_or("refused")?;
            family_dot(&h.z)?;
            let e = h.z.setdiff(&h.z);
            family_dot(&e)?;
        }
    }
    ctx.nontrivial = most >= 5;
    Ok(())
}
pub fn dot_mss(c: &Case, x: &mut Ctx) -> R {
    dot::<i64>(c, x)
}

fn family_dot<V: Val>(z: &ZmddNode<V>) -> R {
    let mg = z.get_mgr();
    let m = mg.borrow();
    let mut wn = BTreeMap::new();
    let mut we = BTreeSet::new();
    let mut st = vec![z.get_id()];
    let mut seen = HashSet::new();
    while let Some(x) = st.pop() {
        if !seen.insert(x) {
            continue;
        }
        match m.get_node(&x).ok_or("gone")? {
            mddcore::mtmdd::Node::Undet => {
                wn.insert(x, "Undet".to_string());
            }
            mddcore::mtmdd::Node::Terminal(t) => {
                let v: i64 = t.value().into();
                wn.insert(x, v.to_string());
            }
            mddcore::mtmdd::Node::NonTerminal(f) => {
                wn.insert(x, m.label(&x).ok_or("no label")?.to_string());
                for (i, c) in f.iter().enumerate() {
                    if c != m.undet() {
                        we.insert((x, i, c));
                        st.push(c);
                    }
                }
            }
        }
    }
    drop(m);
    check_dot(&z.dot(), &wn, &we, z.get_id())
}

pub fn self_desc(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let rg = ranges_for(&mut c, 5, 200);
    let n = rg.len();
    let mut w: X<i32> = X::new(&rg, &mut c);
    if c.chance(1, 2) {
        w.m.set_gc_threshold(c.below(40));
    }
    step!(ctx, "ranges={rg:?}");
    let mut order: Vec<usize> = vec![];
    let mut most = 0;
    if w.sp.size >= 48 && c.chance(1, 60) {
        w.spread_out(&mut c);
        for _ in 0..n {
            w.declare();
        }
        order = (0..n).collect();
        ctx.class("ids_beyond_16_bits");
    }
    for words in &case.ops {
        let mut s = Src::new(words);
        if s.chance(2, 5) {
            let v = s.below(n);
            let l = w.labels[v].clone();
            step!(ctx, "defvar {v}");
            let again = order.iter().position(|&y| y == v);
            // declaring again ignores the stated number of states
            let x = w.m.defvar(&l, rg[v]);
            match again {
                Some(p) => ensure!(rg[v] == 1 || x.get_level() == Some(p), "declaring {v} again moved it to level {:?}", x.get_level()),
                None => {
                    // a component with one state is a constant, and its node a leaf
                    ensure!(x.get_level() == if rg[v] == 1 { None } else { Some(order.len()) }, "a new variable took level {:?}, expected {}", x.get_level(), order.len());
                    order.push(v);
                }
            }
            ensure!(x.get_node() == w.m.defvar(&l, rg[v]).get_node(), "declaring a variable twice gives two nodes");
            ensure!((x.get_label().as_ref() == Some(&l) || rg[v] == 1 && x.get_label().is_none()) && x.is_value() && !x.is_boolean(), "variable {v} is labelled {:?}", x.get_label());
            ensure!(x.get_id2() == (x.get_id(), 0), "identifier pair of a value node is {:?}", x.get_id2());
            ensure!(w.table(&x)? == w.var_table(v), "a variable's node does not denote the variable");
            let vo = w.m.get_varorder();
            let want: Vec<(String, usize)> = order.iter().map(|&v| (w.labels[v].clone(), rg[v])).collect();
            ensure!(vo == want, "variable order {vo:?}, declared {want:?}");
            continue;
        }
        let names: Vec<String> = order.iter().map(|&v| w.labels[v].clone()).collect();
        let mut toks = vec![];
        let kind = s.chance(1, 2) as u8;
        gen_expr(&mut s, kind, 4, &names, &mut toks, &mut vec![], true);
        let e = toks.join(" ");
        step!(ctx, "{e}");
        let M::Ok(mut kd, mut want) = rpn_model(&toks, &w.sp, &w.idx, &mut vec![]) else { continue };
        let vm = w.vars_map();
        let mut f = w.m.rpn(&e, &vm)?;
        if w.v.len() == n && s.chance(1, 2) {
            let t = w.declared_table(kind, false, &mut s);
            step!(ctx, "instead {}", show(&t));
            f = w.build(kind, &t);
            (kd, want) = (kind, t);
        }
        let g = dag(&f, &w.idx)?;
        let t = g.table(&w.sp)?;
        ensure!(t.iter().zip(&want).all(|(a, b)| *b == ANY || a == b), "expression value");
        let sup: Vec<usize> = w.sp.support(&t).iter().map(|v| order.iter().position(|x| x == v).unwrap()).collect();
        let top = sup.iter().max().copied();
        ensure!(f.get_id2() == if kd == BOOL { (0, f.get_id()) } else { (f.get_id(), 0) }, "identifier pair is {:?}", f.get_id2());
        ensure!(f.get_level() == top, "level is {:?}, support levels {sup:?}", f.get_level());
        ensure!(f.get_label() == top.map(|l| w.labels[order[l]].clone()), "label is {:?}", f.get_label());
        let used: BTreeSet<usize> = g.nodes.values().filter_map(|d| if let D::N { var, .. } = d { Some(*var) } else { None }).collect();
        let ws: BTreeSet<usize> = w.sp.support(&t).into_iter().collect();
        ensure!(used == ws, "the diagram mentions {used:?}, the function depends on {ws:?}");
        let nt = g.nodes.values().filter(|d| matches!(d, D::N { .. })).count() as u64;
        let te = g.nodes.len() as u64 - nt;
        let ed: u64 = g.nodes.values().map(|d| if let D::N { ch, .. } = d { ch.len() as u64 } else { 0 }).sum();
        ensure!(f.size() == (nt, te, ed), "size is {:?}, the diagram has ({nt}, {te}, {ed})", f.size());
        if let (Some(ch), Some(top)) = (f.get_children(), top) {
            let v = order[top];
            ensure!(ch.len() == rg[v], "{} children for {} states", ch.len(), rg[v]);
            for (j, x) in ch.iter().enumerate() {
                let want: Table = (0..w.sp.size).map(|p| t[p - w.sp.digit(p, v) * w.sp.strides[v] + j * w.sp.strides[v]]).collect();
                ensure!(w.table(x)? == want, "child {j} is not the cofactor");
            }
            ensure!(w.m.create_node(f.get_header().ok_or("no header")?, &ch).get_node() == f.get_node(), "re-creating a node from its parts gives another node");
        }
        let cst = t.iter().all(|&x| x == t[0]);
        ensure!(f.is_zero() == (cst && kd == BOOL && t[0] == 0), "is_zero");
        ensure!(f.is_one() == (cst && kd == BOOL && t[0] == 1), "is_one");
        ensure!(f.is_undet() == (cst && t[0] == UNDET), "is_undet");
        ensure!(f.value().map(|x| x as i64) == if cst && kd == VAL && t[0] != UNDET { Some(t[0]) } else { None }, "value() is {:?}", f.value());
        ensure!(f.is_boolean() == (kd == BOOL) && f.is_value() == (kd == VAL), "kind tests");
        most = most.max(nt);
    }
    ctx.nontrivial = most >= 2;
    Ok(())
}

/// Hundreds of declared components: order, labels, levels and the nodes of functions over a
/// few of them.
pub fn self_desc_wide(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = if c.chance(1, 3) { c.range(250, 600) } else { c.range(20, 260) };
    let style = [0, 3, 4, 5, 6, 7, 8, 9, 10][c.below(9)];
    let n = if style == 7 { n.min(80) } else { n };
    let name = |i: usize| label(style, i);
    let rg: Vec<usize> = (0..n).map(|_| if c.chance(1, 60) { c.range(200, 300) } else { c.range(2, 5) }).collect();
    let mut m: MssMgr<i64> = MssMgr::new();
    if c.chance(1, 3) {
        m.set_gc_threshold(c.below(300));
    }
    step!(ctx, "n={n} style={style}");
    let mut order: Vec<(String, usize)> = vec![];
    let mut v: Vec<MddNode<i64>> = vec![];
    let mut top_used = 0;
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        let goal = if k * 3 >= case.ops.len() { n } else { (v.len() + s.range(1, n)).min(n) };
        while v.len() < goal {
            let i = v.len();
            let x = m.defvar(&name(i), rg[i]);
            ensure!(x.get_level() == Some(i) && x.get_label() == Some(name(i)), "variable number {i} has level {:?} and label {:?}, expected {:?}", x.get_level(), x.get_label(), name(i));
            let ch = x.get_children().ok_or("a variable without children")?;
            ensure!(ch.len() == rg[i] && ch.iter().enumerate().all(|(j, y)| y.value() == Some(j as i64)), "the node of variable {i} does not denote it");
            v.push(x);
            order.push((name(i), rg[i]));
        }
        let j = s.below(v.len());
        ensure!(m.defvar(&name(j), rg[j]).get_node() == v[j].get_node(), "declaring {:?} again gives another node", name(j));
        let vo = m.get_varorder();
        ensure!(vo == order, "variable order differs from the declarations ({} against {}; first difference {:?})", vo.len(), order.len(), vo.iter().zip(&order).position(|(a, b)| a != b));
        // a chain: at each component, one state leads on, the others to a value of their own
        let mut vs: Vec<usize> = (0..s.range(1, 8)).map(|_| if s.chance(1, 2) { v.len() - 1 - s.below(v.len().min(20)) } else { s.below(v.len()) }).collect();
        vs.sort();
        vs.dedup();
        let bo = s.chance(1, 3);
        let mut f = if bo { m.boolean(true) } else { m.value(-1) };
        let mut picks = vec![];
        for &x in &vs {
            let pick = s.below(rg[x]);
            picks.push(pick);
            let at = v[x].eq(&m.value(pick as i64));
            let other = if bo { m.boolean(false) } else { m.value(x as i64 + 10) };
            f = at.ite(&f, &other);
        }
        step!(ctx, "chain {vs:?} {picks:?}");
        let top = *vs.last().unwrap();
        top_used = top_used.max(top);
        let terms = if bo { 2 } else { vs.len() as u64 + 1 };
        let edges: usize = vs.iter().map(|&x| rg[x]).sum();
        ensure!(f.size() == (vs.len() as u64, terms, edges as u64), "a chain over {} variables has size {:?}, expected {:?}", vs.len(), f.size(), (vs.len(), terms, edges));
        let mut x = f.clone();
        for (&u, &pick) in vs.iter().zip(&picks).rev() {
            ensure!(x.get_level() == Some(u) && x.get_label() == Some(name(u)), "node at level {:?} labelled {:?}, expected level {u} and {:?}", x.get_level(), x.get_label(), name(u));
            let ch = x.get_children().ok_or("no children")?;
            ensure!(ch.len() == rg[u], "{} children for {} states", ch.len(), rg[u]);
            ensure!(m.create_node(x.get_header().ok_or("no header")?, &ch).get_node() == x.get_node(), "re-creating a node from its parts gives another node");
            for (j, y) in ch.iter().enumerate() {
                ensure!(j == pick || if bo { y.is_zero() } else { y.value() == Some(u as i64 + 10) }, "child {j} at level {u} is not the cofactor");
            }
            x = ch[pick].clone();
        }
        ensure!(if bo { x.is_one() } else { x.value() == Some(-1) }, "the chain does not end in its last value");
    }
    ctx.nontrivial = top_used > 100;
    if top_used > 255 {
        ctx.class("above_level_255");
    }
    Ok(())
}

/// Two systems analysed in turn: neither ever notices the other.
pub fn twins(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let rg = ranges_for(&mut c, 4, 40);
    let n = rg.len();
    let style = c.below(11);
    let mut ws: [X<i32>; 2] = [X::styled(&rg, style), X::styled(&rg, if c.chance(1, 2) { style } else { c.below(11) })];
    for w in &mut ws {
        for _ in 0..n {
            w.declare();
        }
        if c.chance(1, 4) {
            w.m.set_gc_threshold(c.below(40));
        }
    }
    step!(ctx, "two systems of ranges {rg:?}");
    let mut asked = [0, 0];
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        let kind = s.chance(1, 3) as u8;
        let mono = s.chance(2, 3);
        let mut fs: Vec<(MddNode<i32>, Table)> = ws
            .iter()
            .map(|w| {
                let t = if mono { monotone_table(w, kind, &mut s) } else { w.declared_table(kind, false, &mut s) };
                (w.build(kind, &t), t)
            })
            .collect();
        let vals = pick_values(&fs[0].1, &mut s);
        let ss: Vec<i32> = vals.iter().map(|&x| x as i32).collect();
        let hs: HashSet<i32> = ss.iter().copied().collect();
        let pzs = [zp_dist(&ws[0], &mut s), zp_dist(&ws[1], &mut s)];
        let what = s.below(6);
        step!(ctx, "{k}: [{}] and [{}], question {what} {vals:?}", show(&fs[0].1), show(&fs[1].1));
        for round in 0..s.range(2, 4) {
            let i = (round + k) % 2;
            let (w, pz) = (&ws[i], &pzs[i]);
            let (f, t) = &mut fs[i];
            asked[i] += 1;
            match what {
                0 => ensure!(f.prob(pz, &ss) == prob_model(w, t, pz, &vals, None), "{k}: probability in system {i}"),
                1 => {
                    let b = f.bmeas(pz, &ss);
                    for v in w.sp.support(t) {
                        for d in 1..rg[v] {
                            let want = prob_model(w, t, pz, &vals, Some((v, d))) - prob_model(w, t, pz, &vals, Some((v, d - 1)));
                            ensure!(b.get(&w.labels[v]).map(|x| x[d - 1]) == Some(want), "{k}: importance of {v} in system {i}");
                        }
                    }
                }
                2 => {
                    let lv = f.get_level().map_or(0, |l| l + 1);
                    let size: usize = rg[..lv].iter().product();
                    let want = (0..size).filter(|&p| vals.contains(&t[p])).count();
                    ensure!(f.mdd_count(&hs) as usize == want, "{k}: count in system {i} is {}, expected {want}", f.mdd_count(&hs));
                }
                3 => {
                    for cut in [false, true] {
                        if let Some(h) = make_family(w, f, t, cut)? {
                            let want = h.fam.values().filter(|v| vals.contains(v)).count();
                            ensure!(h.z.count(&hs) as usize == want, "{k}: number of extreme vectors in system {i}");
                        }
                    }
                }
                4 if kind == VAL => {
                    let g = f.min(&w.m.value(1)).add(&w.m.value(1));
                    let want: Table = t.iter().map(|&x| x.min(1) + 1).collect();
                    ensure!(w.table(&g)? == want, "{k}: a formula in system {i}");
                    let g = f.ge(&w.m.value(1));
                    let want: Table = t.iter().map(|&x| (x >= 1) as i64).collect();
                    ensure!(w.table(&g)? == want, "{k}: a comparison in system {i}");
                }
                _ if kind == BOOL => {
                    let g = f.not();
                    let want: Table = t.iter().map(|&x| 1 - x).collect();
                    ensure!(w.table(&g)? == want, "{k}: a formula in system {i}");
                }
                _ => {}
            }
            ensure!(w.table(f)? == *t, "{k}: the function of system {i} changed");
        }
    }
    ctx.nontrivial = asked[0] > 2 && asked[1] > 2;
    Ok(())
}
