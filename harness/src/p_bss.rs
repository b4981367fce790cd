//! Checks of the binary-state layer (`bss`): handles, gates, probabilities, importance,
//! minimal path/cut sets, counts, enumerations, expressions.

use crate::nums::*;
use crate::pbt::*;
use crate::tables::*;
use crate::{ensure, step};
use bss::prelude::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

type R = Result<(), String>;
pub type Fam = BTreeSet<u64>;

/// The diagram below a node, read through the handle API.
pub struct Dag {
    pub nodes: HashMap<usize, D>,
    pub root: usize,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum D {
    T(i64),
    N { var: usize, level: usize, lo: usize, hi: usize },
}

pub fn dag(f: &BddNode, idx: &HashMap<String, usize>) -> Result<Dag, String> {
    let mut nodes = HashMap::new();
    let mut st = vec![f.clone()];
    while let Some(x) = st.pop() {
        let id = x.get_id();
        if nodes.contains_key(&id) {
            continue;
        }
        let d = match x.get_children() {
            None => {
                ensure!(x.get_level().is_none() && x.get_label().is_none(), "terminal node {id} claims a level or label");
                let k = (x.is_zero(), x.is_one(), x.is_undet());
                match k {
                    (true, false, false) => D::T(0),
                    (false, true, false) => D::T(1),
                    (false, false, true) => D::T(UNDET),
                    _ => return Err(format!("terminal node {id} is classified {k:?}")),
                }
            }
            Some((lo, hi)) => {
                ensure!(!x.is_zero() && !x.is_one() && !x.is_undet(), "nonterminal node {id} claims to be a constant");
                let label = x.get_label().ok_or("nonterminal without label")?;
                let level = x.get_level().ok_or("nonterminal without level")?;
                let var = *idx.get(&label).ok_or_else(|| format!("unknown label {label}"))?;
                for c in [&lo, &hi] {
                    if let Some(l) = c.get_level() {
                        ensure!(l < level, "child at level {l} under level {level}");
                    }
                }
                let d = D::N { var, level, lo: lo.get_id(), hi: hi.get_id() };
                st.push(lo);
                st.push(hi);
                d
            }
        };
        nodes.insert(id, d);
    }
    Ok(Dag { nodes, root: f.get_id() })
}

impl Dag {
    pub fn eval(&self, bit: impl Fn(usize) -> bool) -> i64 {
        let mut x = self.root;
        loop {
            match self.nodes[&x] {
                D::T(v) => return v,
                D::N { var, lo, hi, .. } => x = if bit(var) { hi } else { lo },
            }
        }
    }
    pub fn table(&self, sp: &Space) -> Table {
        (0..sp.size).map(|p| self.eval(|v| sp.digit(p, v) == 1)).collect()
    }
}

/// A binary manager with `n` named variables (declared lazily in order) and its model space.
pub struct W {
    pub m: BssMgr,
    pub v: Vec<BddNode>,
    pub sp: Space,
    pub labels: Vec<String>,
    pub idx: HashMap<String, usize>,
    pub churn: usize,
    /// 1, 2: nodes (families) left behind by earlier work fill the first 65536 or so ids
    pub spread: u32,
    hold: Vec<ZddNode>,
}

/// A small generator for filling managers.
pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) as usize
    }
}

pub fn label(style: usize, i: usize) -> String {
    match style {
        0 => format!("x{i}"),
        1 => format!("v{}", 99 - i),
        2 => "a".repeat(i + 1),
        3 => format!("é_{i}"),
        4 => format!("Pump-{i}.A"),
        // names that differ only in case, in leading zeros, at the end or at the start
        6 => {
            let l = (b'a' + (i / 2 % 26) as u8) as char;
            format!("{}{}", if i % 2 == 0 { l } else { l.to_ascii_uppercase() }, if i < 52 { String::new() } else { i.to_string() })
        }
        7 => format!("x{}1", "0".repeat(i)),
        8 => format!("a_component_with_a_very_long_name_{i}"),
        9 => format!("{i}_is_the_number_of_this_component_of_the_system"),
        // names with blanks (not for expressions)
        10 => ["a", " a", "a ", " a ", "a a", "  a", "a  ", "a\tb", "a  a", ""][i % 10].to_string() + &if i < 10 { String::new() } else { i.to_string() },
        _ => format!("{}", i + 2),
    }
}
/// Label styles usable in expressions: all of them for binary systems; plain numbers are
/// constants in multi-state expressions.
pub const STYLES: [usize; 10] = [0, 1, 2, 3, 4, 6, 7, 8, 9, 5];

impl W {
    pub fn new(n: usize, s: &mut Src) -> W {
        let style = STYLES[s.below(10)];
        W::styled(n, style)
    }
    pub fn styled(n: usize, style: usize) -> W {
        let labels: Vec<String> = (0..n).map(|i| label(style, i)).collect();
        let idx = labels.iter().enumerate().map(|(i, l)| (l.clone(), i)).collect();
        W { m: BssMgr::new(), v: vec![], sp: Space::new(&vec![2; n]), labels, idx, churn: 0, spread: 0, hold: vec![] }
    }
    /// All variables declared, any label style, and in half of the cases a manager that
    /// collects between queries (low thresholds or `stir`), so that node ids are used again.
    pub fn churning(n: usize, s: &mut Src) -> W {
        let style = s.below(11);
        let mut w = W::styled(n, style);
        for _ in 0..n {
            w.declare();
        }
        w.churn = s.below(4);
        if n >= 5 && s.chance(1, 100) {
            w.spread_out(s);
        }
        if w.churn == 1 {
            w.m.bdd().set_gc_threshold(s.below(40));
            w.m.zdd().set_gc_threshold(s.below(20));
        }
        w
    }
    /// Many declared components; no table over all their states exists.
    pub fn wide(n: usize) -> W {
        let mut w = W { m: BssMgr::new(), v: vec![], sp: Space::new(&[]), churn: 0, spread: 0, hold: vec![], labels: (0..n).map(|i| format!("c{i}")).collect(), idx: (0..n).map(|i| (format!("c{i}"), i)).collect() };
        for _ in 0..n {
            w.declare();
        }
        w
    }
    pub fn spread_out(&mut self, s: &mut Src) {
        self.churn = 3;
        self.spread = if self.labels.len() >= 6 && s.chance(1, 3) { 2 } else { 1 };
        self.fill(s.u64());
    }
    /// Leaves enough dead nodes (held families) behind for later nodes to get ids beyond 16
    /// bits, next to shared nodes with small ids.
    fn fill(&mut self, seed: u64) {
        let mut r = Lcg(seed);
        let target = 65500 + r.next() % 100;
        let (bdd, zdd) = (self.m.bdd().clone(), self.m.zdd().clone());
        bdd.set_gc_threshold(usize::MAX);
        zdd.set_gc_threshold(usize::MAX);
        if self.spread == 1 {
            for _ in 0..30_000 {
                if bdd.live_node_count() >= target {
                    break;
                }
                let t: Table = (0..self.sp.size).map(|_| (r.next() % 2) as i64).collect();
                self.build(&t);
            }
            return;
        }
        for _ in 0..100 {
            let mut t: Table = (0..self.sp.size).map(|_| (r.next() % 8 == 0) as i64).collect();
            for v in 0..self.sp.n() {
                for p in 0..self.sp.size {
                    if self.sp.digit(p, v) > 0 {
                        t[p] = t[p].max(t[p - self.sp.strides[v]]);
                    }
                }
            }
            let f = self.build(&t);
            self.hold.extend(self.m.minpath(&f));
        }
        for _ in 0..60_000 {
            if zdd.live_node_count() >= target {
                break;
            }
            let (a, b) = (&self.hold[r.next() % self.hold.len()], &self.hold[r.next() % self.hold.len()]);
            let z = match r.next() % 4 {
                0 => a.setdiff(b),
                1 => a.intersect(b),
                _ => a.union(b),
            };
            self.hold.push(z);
        }
    }
    pub fn stir(&self, s: &mut Src, ctx: &mut Ctx) {
        if self.spread > 0 {
            ctx.class("ids_beyond_16_bits");
        }
        if self.churn == 2 && s.chance(1, 2) {
            self.m.bdd().gc(&[]);
            self.m.zdd().set_gc_threshold(s.below(6));
            step!(ctx, "gc");
        }
    }
    pub fn declare(&mut self) {
        let i = self.v.len();
        if i < self.labels.len() {
            let x = self.m.defvar(&self.labels[i]);
            self.v.push(x);
        }
    }
    pub fn all(n: usize, s: &mut Src) -> W {
        let mut w = W::new(n, s);
        for _ in 0..n {
            w.declare();
        }
        w
    }
    pub fn table(&self, f: &BddNode) -> Result<Table, String> {
        Ok(dag(f, &self.idx)?.table(&self.sp))
    }
    pub fn var_table(&self, v: usize) -> Table {
        (0..self.sp.size).map(|p| self.sp.digit(p, v) as i64).collect()
    }
    /// Build from a table (over the declared variables) bottom-up with create_node.
    pub fn build(&self, t: &[i64]) -> BddNode {
        fn rec(w: &W, t: &[i64], lv: usize, base: usize) -> BddNode {
            if lv == 0 {
                return if t[base] == 1 { w.m.one() } else { w.m.zero() };
            }
            let v = lv - 1;
            let lo = rec(w, t, v, base);
            let hi = rec(w, t, v, base + w.sp.strides[v]);
            w.m.create_node(w.v[v].get_header().unwrap(), &lo, &hi)
        }
        rec(self, t, self.v.len(), 0)
    }
    /// A table that only depends on declared variables.
    fn declared_table(&self, s: &mut Src) -> Table {
        let d = self.v.len();
        let sub = Space::new(&vec![2; d]);
        let t = random_table(&sub, &[0, 1], s);
        (0..self.sp.size).map(|p| t[p % sub.size]).collect()
    }
}

pub fn map2(a: &[i64], b: &[i64], f: impl Fn(bool, bool) -> bool) -> Table {
    a.iter().zip(b).map(|(&x, &y)| f(x == 1, y == 1) as i64).collect()
}
pub fn dual_table(t: &[i64]) -> Table {
    let n = t.len();
    (0..n).map(|p| 1 - t[n - 1 - p]).collect()
}
pub fn kofn_table(k: usize, ts: &[Table], size: usize) -> Table {
    (0..size).map(|p| (ts.iter().filter(|t| t[p] == 1).count() >= k) as i64).collect()
}
pub fn show(t: &[i64]) -> String {
    t.iter().take(64).map(|&x| if x == UNDET { 'u' } else if x == 0 { '0' } else { '1' }).collect()
}

/// A random formula over the declared variables, built through handles, with its table.
pub fn formula(w: &W, s: &mut Src, depth: usize, mono: bool, out: &mut String) -> (BddNode, Table) {
    let size = w.sp.size;
    if depth == 0 || s.chance(1, 6) {
        if w.v.is_empty() || s.chance(1, 12) {
            let b = s.chance(1, 2);
            out.push_str(if b { "1" } else { "0" });
            return if b { (w.m.one(), vec![1; size]) } else { (w.m.zero(), vec![0; size]) };
        }
        let v = s.below(w.v.len());
        out.push_str(&format!("v{v}"));
        return (w.v[v].clone(), w.var_table(v));
    }
    let k = if mono { s.weighted(&[5, 5, 0, 0, 0, 2, 2, 2]) } else { s.weighted(&[4, 4, 3, 3, 3, 1, 1, 2]) };
    match k {
        0 | 1 => {
            out.push_str(if k == 0 { "(and " } else { "(or " });
            let a = formula(w, s, depth - 1, mono, out);
            out.push(' ');
            let b = formula(w, s, depth - 1, mono, out);
            out.push(')');
            if k == 0 {
                (a.0.and(&b.0), map2(&a.1, &b.1, |x, y| x && y))
            } else {
                (a.0.or(&b.0), map2(&a.1, &b.1, |x, y| x || y))
            }
        }
        2 => {
            out.push_str("(xor ");
            let a = formula(w, s, depth - 1, mono, out);
            out.push(' ');
            let b = formula(w, s, depth - 1, mono, out);
            out.push(')');
            (a.0.xor(&b.0), map2(&a.1, &b.1, |x, y| x ^ y))
        }
        3 => {
            out.push_str("(not ");
            let a = formula(w, s, depth - 1, mono, out);
            out.push(')');
            (a.0.not(), a.1.iter().map(|x| 1 - x).collect())
        }
        4 => {
            out.push_str("(ite ");
            let a = formula(w, s, depth - 1, mono, out);
            out.push(' ');
            let b = formula(w, s, depth - 1, mono, out);
            out.push(' ');
            let c = formula(w, s, depth - 1, mono, out);
            out.push(')');
            let t = (0..size).map(|p| if a.1[p] == 1 { b.1[p] } else { c.1[p] }).collect();
            (a.0.ite(&b.0, &c.0), t)
        }
        _ => {
            let n = s.range(0, 4);
            let kk = s.range(0, n + 1);
            out.push_str(&["(and* ", "(or* ", "(kofn "][k - 5]);
            if k == 7 {
                out.push_str(&format!("{kk} "));
            }
            let (mut ns, mut ts) = (vec![], vec![]);
            for _ in 0..n {
                let a = formula(w, s, depth - 1, mono, out);
                out.push(' ');
                ns.push(a.0);
                ts.push(a.1);
            }
            out.push(')');
            match k {
                5 => (w.m.and(&ns), kofn_table(n, &ts, size)),
                6 => (w.m.or(&ns), kofn_table(1, &ts, size)),
                _ => (w.m.kofn(kk, &ns), kofn_table(kk, &ts, size)),
            }
        }
    }
}

/// Random function over the declared variables by one of several routes.
pub fn any_fn(w: &W, s: &mut Src, out: &mut String) -> (BddNode, Table) {
    match s.below(4) {
        0 | 1 => {
            let d = s.range(1, 4);
            formula(w, s, d, false, out)
        }
        2 => {
            let d = s.range(1, 4);
            formula(w, s, d, true, out)
        }
        _ => {
            let t = w.declared_table(s);
            out.push_str(&format!("table:{}", show(&t)));
            (w.build(&t), t)
        }
    }
}

/// A monotone table: union of up-sets of random vectors, or a weighted threshold.
pub fn monotone_table(w: &W, s: &mut Src) -> Table {
    let d = w.v.len();
    match s.below(3) {
        0 => {
            let k = s.range(0, 5);
            let sets: Vec<usize> = (0..k).map(|_| s.below(1 << d) | if s.chance(1, 2) { 0 } else { s.below(1 << d) }).collect();
            (0..w.sp.size).map(|p| sets.iter().any(|&m| p & m == m) as i64).collect()
        }
        1 => {
            let k = s.range(1, 5);
            let sets: Vec<usize> = (0..k).map(|_| s.below(1 << d) & s.below(1 << d)).collect();
            (0..w.sp.size).map(|p| sets.iter().any(|&m| p & m == m) as i64).collect()
        }
        _ => {
            let ws: Vec<usize> = (0..d).map(|_| s.below(5)).collect();
            let tot: usize = ws.iter().sum();
            let th = s.range(0, tot + 1);
            (0..w.sp.size).map(|p| ((0..d).map(|v| ws[v] * w.sp.digit(p, v)).sum::<usize>() >= th) as i64).collect()
        }
    }
}

pub fn is_monotone(t: &[i64], n: usize) -> bool {
    (0..t.len()).all(|p| (0..n).all(|v| p >> v & 1 == 1 || t[p] <= t[p | 1 << v]))
}

/// Inclusion-minimal sets whose functioning makes a monotone function true.
pub fn min_paths(t: &[i64], n: usize) -> Fam {
    (0..t.len()).filter(|&p| t[p] == 1 && (0..n).all(|v| p >> v & 1 == 0 || t[p & !(1 << v)] == 0)).map(|p| p as u64).collect()
}
/// Inclusion-minimal sets whose failure makes a monotone function false.
pub fn min_cuts(t: &[i64], n: usize) -> Fam {
    let full = t.len() - 1;
    (0..t.len()).filter(|&c| t[full & !c] == 0 && (0..n).all(|v| c >> v & 1 == 0 || t[full & !(c & !(1 << v))] == 1)).map(|p| p as u64).collect()
}

/// The family below a ZDD handle as bit masks over the label index.
pub fn family(z: &ZddNode, idx: &HashMap<String, usize>) -> Result<Fam, String> {
    fn rec(z: &ZddNode, idx: &HashMap<String, usize>, memo: &mut HashMap<usize, Fam>) -> Result<Fam, String> {
        if let Some(f) = memo.get(&z.get_id()) {
            return Ok(f.clone());
        }
        let r: Fam = match z.get_children() {
            None => match (z.is_zero(), z.is_one()) {
                (true, false) => Fam::new(),
                (false, true) => [0].into_iter().collect(),
                k => return Err(format!("family terminal classified {k:?}")),
            },
            Some((lo, hi)) => {
                let l = z.get_label().ok_or("no label")?;
                let lev = z.get_level().ok_or("no level")?;
                for c in [&lo, &hi] {
                    if let Some(cl) = c.get_level() {
                        ensure!(cl < lev, "family node at level {cl} under level {lev}");
                    }
                }
                let bit = 1u64 << *idx.get(&l).ok_or_else(|| format!("unknown element {l}"))?;
                let mut f = rec(&lo, idx, memo)?;
                let h = rec(&hi, idx, memo)?;
                ensure!(!h.is_empty(), "family node with an empty high branch is not suppressed");
                f.extend(h.iter().map(|x| x | bit));
                f
            }
        };
        memo.insert(z.get_id(), r.clone());
        Ok(r)
    }
    rec(z, idx, &mut HashMap::new())
}

pub fn fam_op(op: usize, a: &Fam, b: &Fam) -> Fam {
    match op {
        0 => a.union(b).copied().collect(),
        1 => a.intersection(b).copied().collect(),
        2 => a.difference(b).copied().collect(),
        3 => a.iter().flat_map(|x| b.iter().map(move |y| x | y)).collect(),
        _ => {
            // quotient: all sets c, disjoint from every divisor member d, with c ∪ d in a
            let Some(d0) = b.iter().next() else { return Fam::new() };
            a.iter().filter(|x| *x & d0 == *d0).map(|x| x & !d0).filter(|c| b.iter().all(|d| c & d == 0 && a.contains(&(c | d)))).collect()
        }
    }
}
pub const FAM_OPS: [&str; 5] = ["union", "intersect", "setdiff", "product", "divide"];
pub fn fam_apply(op: usize, a: &ZddNode, b: &ZddNode) -> ZddNode {
    match op {
        0 => a.union(b),
        1 => a.intersect(b),
        2 => a.setdiff(b),
        3 => a.product(b),
        _ => a.divide(b),
    }
}
pub fn show_fam(f: &Fam) -> String {
    format!("{:?}", f.iter().take(20).map(|x| format!("{x:b}")).collect::<Vec<_>>())
}

// ------------------------------------------------------------------ handle histories

/// How many copies a bulk-cloning step makes: around the sizes of small counters.
pub fn crowd(s: &mut Src) -> usize {
    match s.below(400) {
        0 => 66_000,
        1..=40 => s.range(1000, 2000),
        _ => s.range(100, 400),
    }
}

/// Handle histories: every kind of handle is created, cloned, dropped, combined and queried
/// while collection runs at low thresholds; each held handle is compared with its model.
fn handles(case: &Case, ctx: &mut Ctx, gc_heavy: bool) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(2, 6);
    let mut w = W::new(n, &mut c);
    let first = c.range(1, n);
    for _ in 0..first {
        w.declare();
    }
    let th = if gc_heavy { [0, 1, 5, 20, 60, 200][c.below(6)] } else { [5, 1000, 100000][c.below(3)] };
    w.m.bdd().set_gc_threshold(th);
    w.m.zdd().set_gc_threshold(if c.chance(1, 2) { th } else { 10 });
    step!(ctx, "handles n={n} declared={first} threshold={th}");
    let mut pool: Vec<(BddNode, Table)> = vec![];
    let mut fams: Vec<(ZddNode, Fam)> = vec![];
    // enumerators in flight: iterator, what it has yielded, what it must yield
    let mut its: Vec<(BddPath, Vec<Vec<String>>, usize, BTreeSet<Vec<String>>)> = vec![];
    let mut zits: Vec<(ZddPath, Vec<Vec<String>>, BTreeSet<Vec<String>>)> = vec![];
    let (mut nops, mut gcs, mut kept_iter) = (0, 0, false);
    let mut max_live = 0;
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        let live0 = w.m.bdd().live_node_count();
        let weights: [u32; 15] = if gc_heavy { [8, 3, 3, 3, 4, 4, 3, 2, 4, 4, 2, 1, 2, 1, 3] } else { [16, 3, 4, 2, 1, 1, 2, 2, 1, 2, 1, 1, 1, 1, 2] };
        let what = s.weighted(&weights);
        let mut new: Option<(BddNode, Table, String)> = None;
        match what {
            0 if !pool.is_empty() => {
                let op = s.below(5);
                let i = s.below(pool.len());
                let j = s.below(pool.len());
                let l = s.below(pool.len());
                let (a, b, d) = (&pool[i], &pool[j], &pool[l]);
                new = Some(match op {
                    0 => (a.0.and(&b.0), map2(&a.1, &b.1, |x, y| x && y), format!("and {i} {j}")),
                    1 => (a.0.or(&b.0), map2(&a.1, &b.1, |x, y| x || y), format!("or {i} {j}")),
                    2 => (a.0.xor(&b.0), map2(&a.1, &b.1, |x, y| x ^ y), format!("xor {i} {j}")),
                    3 => (a.0.not(), a.1.iter().map(|x| 1 - x).collect(), format!("not {i}")),
                    _ => (a.0.ite(&b.0, &d.0), (0..w.sp.size).map(|p| if a.1[p] == 1 { b.1[p] } else { d.1[p] }).collect(), format!("ite {i} {j} {l}")),
                });
                nops += 1;
            }
            1 if gc_heavy && !pool.is_empty() && s.chance(1, 3) => {
                // one operand after another dropped, collected and replaced; the others stay held
                let op = s.below(5);
                let ar = [2, 2, 2, 1, 3][op];
                let at = s.below(ar);
                let mut args: Vec<(BddNode, Table)> = (0..ar).map(|_| pool[s.below(pool.len())].clone()).collect();
                step!(ctx, "{k}:operation {op} with operand {at} replaced again and again");
                let mut kept: Vec<(BddNode, Table)> = vec![];
                for _ in 0..s.range(2, 6) {
                    let t = w.declared_table(&mut s);
                    args[at] = (w.m.zero(), vec![0; w.sp.size]);
                    w.m.bdd().gc(&[]);
                    args[at] = (w.build(&t), t);
                    let (f, want): (BddNode, Table) = match op {
                        0 => (args[0].0.and(&args[1].0), map2(&args[0].1, &args[1].1, |x, y| x && y)),
                        1 => (args[0].0.or(&args[1].0), map2(&args[0].1, &args[1].1, |x, y| x || y)),
                        2 => (args[0].0.xor(&args[1].0), map2(&args[0].1, &args[1].1, |x, y| x ^ y)),
                        3 => (args[0].0.not(), args[0].1.iter().map(|x| 1 - x).collect()),
                        _ => (args[0].0.ite(&args[1].0, &args[2].0), (0..w.sp.size).map(|p| if args[0].1[p] == 1 { args[1].1[p] } else { args[2].1[p] }).collect()),
                    };
                    let got = w.table(&f)?;
                    ensure!(got == want, "operation {op} after a collection gives {}, expected {}", show(&got), show(&want));
                    kept.push((f, want));
                }
                gcs += 1;
                for (f, t) in &kept {
                    ensure!(w.table(f)? == *t, "a result of operation {op} changed after collections");
                }
                pool.extend(kept.pop());
            }
            1 => {
                let t = w.declared_table(&mut s);
                new = Some((w.build(&t), t.clone(), format!("table {}", show(&t))));
            }
            2 if !pool.is_empty() => {
                let m = s.range(0, 5);
                let ix: Vec<usize> = (0..m).map(|_| s.below(pool.len())).collect();
                let ns: Vec<BddNode> = ix.iter().map(|&i| pool[i].0.clone()).collect();
                let ts: Vec<Table> = ix.iter().map(|&i| pool[i].1.clone()).collect();
                let kk = s.range(0, m + 1);
                new = Some(match s.below(3) {
                    0 => (w.m.and(&ns), kofn_table(m, &ts, w.sp.size), format!("and* {ix:?}")),
                    1 => (w.m.or(&ns), kofn_table(1, &ts, w.sp.size), format!("or* {ix:?}")),
                    _ => (w.m.kofn(kk, &ns), kofn_table(kk, &ts, w.sp.size), format!("kofn {kk} {ix:?}")),
                });
                nops += 1;
            }
            3 => {
                // an expression over declared variables
                let names: Vec<String> = w.labels[..w.v.len()].to_vec();
                let mut toks = vec![];
                gen_expr(&mut s, 3, &names, &mut toks, &mut vec![], true);
                let e = toks.join(" ");
                let t = rpn_model(&toks, &w.sp, &w.idx, &mut vec![]).map_err(|e| format!("generator bug: {e}"))?;
                let f = w.m.rpn(&e).map_err(|m| format!("rpn {e:?} refused: {m}"))?;
                new = Some((f, t, format!("rpn {e:?}")));
            }
            4 if s.chance(1, 4) && !(pool.is_empty() && fams.is_empty()) => {
                // many handles to one node, dropped in bulk; the node itself stays held
                let m = crowd(&mut s);
                if !fams.is_empty() && (pool.is_empty() || s.chance(1, 2)) {
                    let i = s.below(fams.len());
                    let cl: Vec<ZddNode> = (0..m).map(|_| fams[i].0.clone()).collect();
                    if s.chance(1, 2) {
                        fams[i].0 = cl[m / 2].clone();
                    }
                    step!(ctx, "{k}:clone family {i} {m} times");
                } else {
                    let i = s.below(pool.len());
                    let cl: Vec<BddNode> = (0..m).map(|_| pool[i].0.clone()).collect();
                    if s.chance(1, 2) {
                        pool[i].0 = cl[m / 2].clone();
                    }
                    if s.chance(1, 4) {
                        // an operand used many times over
                        let f = w.m.and(&cl[..m.min(300)]);
                        ensure!(f.eq(&pool[i].0), "the conjunction of {} copies of a node is another node", m.min(300));
                    }
                    step!(ctx, "{k}:clone {i} {m} times");
                }
            }
            4 => {
                let m = s.range(1, 3);
                for _ in 0..m {
                    if !pool.is_empty() {
                        let i = s.below(pool.len());
                        pool.swap_remove(i);
                    }
                }
                if s.chance(1, 3) && !fams.is_empty() {
                    let i = s.below(fams.len());
                    fams.swap_remove(i);
                }
                if s.chance(1, 5) && !its.is_empty() {
                    its.swap_remove(0);
                }
                step!(ctx, "{k}:drop {m}");
            }
            5 => {
                let keep: Vec<&BddNode> = if s.chance(1, 2) { vec![] } else { pool.iter().map(|x| &x.0).collect() };
                let r = w.m.bdd().gc(&keep);
                gcs += 1;
                step!(ctx, "{k}:gc reclaimed {r}");
                // exact: held handles + variables + enumerators + 3 terminals
                let mut reach: HashSet<usize> = HashSet::new();
                let hs = pool.iter().map(|x| &x.0).chain(w.v.iter());
                for h in hs {
                    reach.extend(dag(h, &w.idx)?.nodes.keys());
                }
                for it in &its {
                    let _ = it.0.len();
                }
                if its.is_empty() {
                    let mut g = reach.clone();
                    let mgr = w.v[0].get_mgr();
                    let b = mgr.borrow();
                    g.extend([b.zero(), b.one(), b.undet()]);
                    drop(b);
                    let live = w.m.bdd().live_node_count();
                    ensure!(live == g.len(), "after an explicit collection {live} nodes are live, {} are reachable from held handles, variables and terminals", g.len());
                }
            }
            6 if !pool.is_empty() => {
                let i = s.below(pool.len());
                if let Some((lo, hi)) = pool[i].0.get_children() {
                    let ch = if s.chance(1, 2) { lo } else { hi };
                    let t = w.table(&ch)?;
                    new = Some((ch, t, format!("child of {i}")));
                }
            }
            7 if !pool.is_empty() => {
                let i = s.below(pool.len());
                // the dual is over all declared variables
                let t = dual_table(&pool[i].1);
                new = Some((pool[i].0.dual(), t, format!("dual {i}")));
            }
            8 if !pool.is_empty() => {
                if its.is_empty() || s.chance(1, 3) && its.len() < 3 {
                    let i = s.below(pool.len());
                    let ss: &[bool] = [&[true][..], &[false], &[true, false]][s.below(3)];
                    let want = expected_paths(&w, &pool[i].0, &pool[i].1, ss);
                    its.push((pool[i].0.bdd_extract(ss), vec![], want.len(), want));
                    step!(ctx, "{k}:enumerate {i} {ss:?}");
                    if s.chance(1, 2) {
                        pool.swap_remove(i);
                    }
                } else {
                    let j = s.below(its.len());
                    let m = s.range(1, 10);
                    step!(ctx, "{k}:advance {j} by {m}");
                    for _ in 0..m {
                        match its[j].0.next() {
                            Some(p) => its[j].1.push(p),
                            None => {
                                let it = its.swap_remove(j);
                                finish_iter(&it.1, &it.3)?;
                                kept_iter = true;
                                break;
                            }
                        }
                    }
                }
            }
            9 if !pool.is_empty() => {
                let i = s.below(pool.len());
                let cut = s.chance(1, 2);
                let d = w.v.len();
                let mono = is_monotone(&pool[i].1, n);
                let z = if cut { w.m.mincut(&pool[i].0) } else { w.m.minpath(&pool[i].0) };
                let _ = d;
                step!(ctx, "{k}:family {} of {i} mono={mono}", if cut { "mincut" } else { "minpath" });
                match z {
                    None => ensure!(!mono, "a monotone function was refused"),
                    Some(z) => {
                        ensure!(mono, "a non-monotone function was answered");
                        let want = if cut { min_cuts(&pool[i].1, n) } else { min_paths(&pool[i].1, n) };
                        let got = family(&z, &w.idx)?;
                        ensure!(got == want, "family is {}, expected {}", show_fam(&got), show_fam(&want));
                        fams.push((z, want));
                    }
                }
            }
            10 if !pool.is_empty() => {
                let i = s.below(pool.len());
                let pv: HashMap<String, Zp> = w.labels.iter().map(|l| (l.clone(), Zp(s.u64() % PRIME))).collect();
                let got = pool[i].0.prob(&pv, &[true]);
                let want = prob_model(&w, &pool[i].1, &pv, &[true], None);
                ensure!(got == want, "probability polynomial differs");
                step!(ctx, "{k}:prob {i}");
            }
            11 => {
                w.m.clear_cache();
                step!(ctx, "{k}:clear_cache");
            }
            12 => {
                let t = if gc_heavy { [0, 2, 15, 40, 100][s.below(5)] } else { 50000 };
                w.m.bdd().set_gc_threshold(t);
                w.m.zdd().set_gc_threshold(t / 2);
                step!(ctx, "{k}:threshold {t}");
            }
            13 => {
                w.declare();
                step!(ctx, "{k}:declare");
                let i = w.v.len() - 1;
                new = Some((w.v[i].clone(), w.var_table(i), format!("var {i}")));
            }
            14 if !fams.is_empty() => {
                if s.chance(1, 3) {
                    if zits.is_empty() {
                        let i = s.below(fams.len());
                        let want = fam_labels(&fams[i].1, &w.labels);
                        zits.push((fams[i].0.extract(&[true]), vec![], want));
                        fams.swap_remove(i);
                        step!(ctx, "{k}:enumerate family");
                    } else {
                        for _ in 0..s.range(1, 5) {
                            match zits[0].0.next() {
                                Some(p) => zits[0].1.push(p),
                                None => {
                                    let it = zits.remove(0);
                                    finish_iter(&it.1, &it.2)?;
                                    break;
                                }
                            }
                        }
                    }
                } else {
                    let i = s.below(fams.len());
                    let j = s.below(fams.len());
                    let mut op = s.below(5);
                    if op == 4 && fams[j].1.is_empty() || op == 3 && fams[i].1.len() * fams[j].1.len() > 4000 {
                        op = 0;
                    }
                    let z = fam_apply(op, &fams[i].0, &fams[j].0);
                    let want = fam_op(op, &fams[i].1, &fams[j].1);
                    let got = family(&z, &w.idx)?;
                    step!(ctx, "{k}:{} fam{i} fam{j}", FAM_OPS[op]);
                    ensure!(got == want, "{} of {} and {} is {}, expected {}", FAM_OPS[op], show_fam(&fams[i].1), show_fam(&fams[j].1), show_fam(&got), show_fam(&want));
                    fams.push((z, want));
                }
            }
            _ => {}
        }
        if let Some((f, t, d)) = new {
            let got = w.table(&f)?;
            step!(ctx, "{k}:{d}");
            ensure!(got == t, "{d}: got {}, expected {}", show(&got), show(&t));
            if s.chance(1, 6) {
                let g = f.clone();
                drop(f);
                pool.push((g, t));
            } else {
                pool.push((f, t));
            }
        }
        if pool.len() > 12 {
            pool.remove(0);
        }
        if fams.len() > 8 {
            fams.remove(0);
        }
        let live = w.m.bdd().live_node_count();
        max_live = max_live.max(live);
        if live < live0 {
            gcs += 1;
        }
        // everything held still means the same; same function <=> same node
        for (i, (f, t)) in pool.iter().enumerate() {
            let got = w.table(f)?;
            ensure!(got == *t, "held handle {i} now denotes {}, expected {}", show(&got), show(t));
            let cst = t.iter().all(|&x| x == t[0]);
            ensure!(f.is_zero() == (cst && t[0] == 0) && f.is_one() == (cst && t[0] == 1), "constant test of held handle {i} is wrong");
            for (g, u) in &pool[..i] {
                ensure!(f.eq(g) == (t == u), "handle equality says {}, functions equal: {}", f.eq(g), t == u);
            }
        }
        for (i, (z, fam)) in fams.iter().enumerate() {
            let got = family(z, &w.idx)?;
            ensure!(got == *fam, "held family {i} is now {}, expected {}", show_fam(&got), show_fam(fam));
            ensure!(z.count(&[true]) == fam.len() as u64, "held family {i} counts {}", z.count(&[true]));
            for (y, e) in &fams[..i] {
                ensure!(z.eq(y) == (fam == e), "family handle equality says {}, families equal: {}", z.eq(y), fam == e);
            }
        }
    }
    while let Some(mut it) = its.pop() {
        it.1.extend(it.0.by_ref());
        finish_iter(&it.1, &it.3)?;
        ensure!(it.0.next().is_none(), "an exhausted enumerator yields again");
        kept_iter = true;
    }
    while let Some(mut it) = zits.pop() {
        it.1.extend(it.0.by_ref());
        finish_iter(&it.1, &it.2)?;
    }
    if gcs > 0 {
        ctx.class("collected");
    }
    if kept_iter {
        ctx.class("enumerated_across_steps");
    }
    if !fams.is_empty() {
        ctx.class("families_held");
    }
    ctx.nontrivial = nops >= 2 && (!gc_heavy || gcs > 0);
    Ok(())
}

fn finish_iter(got: &[Vec<String>], want: &BTreeSet<Vec<String>>) -> R {
    let mut g: Vec<Vec<String>> = got
        .iter()
        .map(|p| {
            let mut q = p.clone();
            q.sort();
            q
        })
        .collect();
    g.sort();
    let l = g.len();
    g.dedup();
    ensure!(g.len() == l, "an enumeration yielded an element twice");
    let gs: BTreeSet<Vec<String>> = g.into_iter().collect();
    ensure!(gs == *want, "enumeration yielded {} elements, expected {}; first difference {:?}", gs.len(), want.len(), gs.symmetric_difference(want).next());
    Ok(())
}

/// Paths of the full expansion over the levels up to the root's.
fn expected_paths(w: &W, f: &BddNode, t: &Table, ss: &[bool]) -> BTreeSet<Vec<String>> {
    let lv = f.get_level().map_or(0, |l| l + 1);
    (0..1usize << lv)
        .filter(|&p| ss.contains(&(t[p] == 1)))
        .map(|p| {
            let mut v: Vec<String> = (0..lv).map(|i| if p >> i & 1 == 1 { w.labels[i].clone() } else { format!("~{}", w.labels[i]) }).collect();
            v.sort();
            v
        })
        .collect()
}
fn fam_labels(f: &Fam, labels: &[String]) -> BTreeSet<Vec<String>> {
    f.iter()
        .map(|m| {
            let mut v: Vec<String> = (0..labels.len()).filter(|&i| m >> i & 1 == 1).map(|i| labels[i].clone()).collect();
            v.sort();
            v
        })
        .collect()
}

pub fn handle_ops(c: &Case, x: &mut Ctx) -> R {
    handles(c, x, false)
}
pub fn handle_gc(c: &Case, x: &mut Ctx) -> R {
    handles(c, x, true)
}

/// One operation of the handle layer only, on many pairs of held operands, results dropped:
/// every operation gives the collector its chance.
pub fn op_bound(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let op = c.below(10);
    let n = if op == 8 { 5 } else { c.range(7, 8) };
    let mut w = W::all(n, &mut c);
    let th = c.range(0, 400);
    w.m.bdd().set_gc_threshold(th);
    let name = ["and", "or", "xor", "ite", "and*", "or*", "kofn", "rpn", "create_node", "mixed"][op];
    step!(ctx, "op_bound {name} n={n} threshold={th}");
    let m = if op == 8 { 130 } else { 24 };
    let mut s = Src::new(&case.ops[0]);
    let mut held: Vec<(BddNode, Table)> = vec![];
    for _ in 0..m {
        // for create_node: functions of the variables below the first one
        let t: Table = if op == 8 {
            let v = n - 1;
            let sub: Table = (0..w.sp.size).map(|_| s.below(2) as i64).collect();
            (0..w.sp.size).map(|p| sub[p - w.sp.digit(p, v) * w.sp.strides[v]]).collect()
        } else {
            (0..w.sp.size).map(|_| s.below(2) as i64).collect()
        };
        held.push((w.build(&t), t));
    }
    let mut reach: HashSet<usize> = HashSet::new();
    for h in held.iter().map(|x| &x.0).chain(w.v.iter()) {
        reach.extend(dag(h, &w.idx)?.nodes.keys());
    }
    let bound = 4 * th + 8 * reach.len() + 16 * w.sp.size;
    let (mut last, mut drops, mut made) = (w.m.bdd().live_node_count(), 0, 0usize);
    let names: Vec<String> = w.labels.clone();
    for r in 0..if op == 8 { 12000 } else { 700 } {
        let (i, j, l) = (s.below(m), s.below(m), s.below(m));
        let (a, b, d) = (&held[i], &held[j], &held[l]);
        let three = [a.0.clone(), b.0.clone(), d.0.clone()];
        let o = if op == 9 { s.below(7) } else { op };
        let (f, want): (BddNode, Option<Table>) = match o {
            0 => (a.0.and(&b.0), Some(map2(&a.1, &b.1, |x, y| x && y))),
            1 => (a.0.or(&b.0), Some(map2(&a.1, &b.1, |x, y| x || y))),
            2 => (a.0.xor(&b.0), Some(map2(&a.1, &b.1, |x, y| x ^ y))),
            3 => (a.0.ite(&b.0, &d.0), Some((0..w.sp.size).map(|p| if a.1[p] == 1 { b.1[p] } else { d.1[p] }).collect())),
            4 => (w.m.and(&three), Some((0..w.sp.size).map(|p| a.1[p] & b.1[p] & d.1[p]).collect())),
            5 => (w.m.or(&three), Some((0..w.sp.size).map(|p| a.1[p] | b.1[p] | d.1[p]).collect())),
            6 => (w.m.kofn(2, &three), Some((0..w.sp.size).map(|p| (a.1[p] + b.1[p] + d.1[p] >= 2) as i64).collect())),
            7 => {
                let mut toks = vec![];
                gen_expr(&mut s, 6, &names, &mut toks, &mut vec![], true);
                let e = toks.join(" ");
                (w.m.rpn(&e).map_err(|m| format!("rpn {e:?} refused: {m}"))?, None)
            }
            _ => {
                let v = n - 1;
                let h = w.v[v].get_header().unwrap();
                let t = (0..w.sp.size).map(|p| if w.sp.digit(p, v) == 0 { a.1[p] } else { b.1[p] }).collect();
                (w.m.create_node(h, &a.0, &b.0), Some(t))
            }
        };
        let live = w.m.bdd().live_node_count();
        made += live.saturating_sub(last);
        ensure!(live <= bound, "{live} nodes are live after {r} times {name} with dropped results; {} are reachable and the threshold is {th}", reach.len());
        if live < last || r % 61 == 0 {
            if let Some(t) = want {
                ensure!(w.table(&f)? == t, "{name} result wrong");
            }
        }
        drops += (live < last) as usize;
        last = live;
    }
    for (f, t) in &held {
        ensure!(w.table(f)? == *t, "held handle changed");
    }
    step!(ctx, "made {made}, {drops} collections, bound {bound}");
    ctx.nontrivial = made > bound && drops > 0;
    if ctx.nontrivial {
        ctx.class(name);
    }
    Ok(())
}
/// The same for the algebra of families.
pub fn fam_op_bound(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let op = c.below(6);
    let n = c.range(9, 11);
    let labels: Vec<String> = (0..n).map(|i| format!("e{i}")).collect();
    let idx: HashMap<String, usize> = labels.iter().cloned().enumerate().map(|(i, l)| (l, i)).collect();
    let mut m = ZddMgr::new();
    let th = c.range(0, 300);
    m.set_gc_threshold(th);
    let name = if op == 5 { "singleton and from_sets" } else { FAM_OPS[op] };
    step!(ctx, "fam_op_bound {name} n={n} threshold={th}");
    let mut s = Src::new(&case.ops[0]);
    let small = op >= 3;
    let common: Vec<u64> = (0..90).map(|_| s.u64() & ((1 << n) - 1)).collect();
    let mut mk = |m: &mut ZddMgr, sz: usize, s: &mut Src| {
        let fam: Fam = (0..sz).map(|_| if small { s.u64() & ((1 << n) - 1) } else { common[s.below(common.len())] }).collect();
        let sets: Vec<Vec<String>> = fam.iter().map(|x| (0..n).filter(|i| x >> i & 1 == 1).map(|i| labels[i].clone()).collect()).collect();
        (m.from_sets(&sets), fam)
    };
    let held: Vec<(ZddNode, Fam)> = (0..40).map(|k| { let sz = if small { 3 + k % 9 } else { 60 }; mk(&mut m, sz, &mut s) }).collect();
    m.set_gc_threshold(0);
    held[0].0.union(&held[1].0);
    let bound = 4 * th + 8 * m.live_node_count() + 4000;
    m.set_gc_threshold(th);
    let (mut last, mut drops, mut made) = (m.live_node_count(), 0, 0usize);
    for r in 0..2500 {
        let (i, j) = (s.below(held.len()), s.below(held.len()));
        let (a, b) = (&held[i], &held[j]);
        let o = if op == 4 { 3 } else { op };
        let z = match op {
            5 => mk(&mut m, 40, &mut s),
            _ => {
                let z = fam_apply(o, &a.0, &b.0);
                if op == 4 && !b.1.is_empty() {
                    fam_apply(4, &z, &held[r % held.len()].0);
                }
                (z, if r % 37 == 0 { fam_op(o, &a.1, &b.1) } else { Fam::default() })
            }
        };
        let live = m.live_node_count();
        made += live.saturating_sub(last);
        ensure!(live <= bound, "{live} family nodes are live after {r} times {name} with dropped results (threshold {th})");
        if r % 37 == 0 {
            ensure!(family(&z.0, &idx)? == z.1, "{name} of two families is wrong");
        }
        drops += (live < last) as usize;
        last = live;
    }
    for (z, f) in &held {
        ensure!(family(z, &idx)? == *f, "a held family changed");
    }
    step!(ctx, "made {made}, {drops} collections, bound {bound}");
    ctx.nontrivial = made > bound && drops > 0;
    if ctx.nontrivial {
        ctx.class(name);
    }
    Ok(())
}

/// With a low threshold, dead results do not pile up.
pub fn handle_bound(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(6, 10);
    let w = W::all(n, &mut c);
    let th = c.range(0, 300);
    w.m.bdd().set_gc_threshold(th);
    let zth = c.range(0, 200);
    w.m.zdd().set_gc_threshold(zth);
    step!(ctx, "bound n={n} threshold={th} zdd threshold={zth}");
    let mut made = 0usize;
    let mut keep: Vec<(BddNode, Table)> = vec![];
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        if s.chance(1, 6) {
            let t = w.declared_table(&mut s);
            keep.push((w.build(&t), t));
            if keep.len() > 3 {
                keep.remove(0);
            }
        }
        for r in 0..12 {
            let t: Table = if s.chance(1, 5) { random_table(&w.sp, &[0, 1], &mut s) } else { (0..w.sp.size).map(|_| s.below(2) as i64).collect() };
            let f = w.build(&t);
            let sz = dag(&f, &w.idx)?.nodes.len();
            made += sz;
            let g = f.xor(&w.v[r % n]);
            ensure!(w.table(&g)? == map2(&t, &w.var_table(r % n), |a, b| a ^ b), "xor result wrong");
            let mt = monotone_table(&w, &mut s);
            let mf = w.build(&mt);
            let z = w.m.minpath(&mf).ok_or("monotone function refused")?;
            ensure!(family(&z, &w.idx)? == min_paths(&mt, n), "minimal paths wrong");
        }
        let live = w.m.bdd().live_node_count();
        let mut reach: HashSet<usize> = HashSet::new();
        for h in keep.iter().map(|x| &x.0).chain(w.v.iter()) {
            reach.extend(dag(h, &w.idx)?.nodes.keys());
        }
        // The largest diagrams over n variables are below 2^n nodes; a collector that
        // re-arms at a small multiple of the surviving nodes stays below this bound.
        let bound = 4 * th + 8 * reach.len() + 16 * (1 << n);
        ensure!(live <= bound, "after {made} nodes of dropped results, {live} nodes are live although {} are reachable and the threshold is {th}", reach.len());
        let zl = w.m.zdd().live_node_count();
        ensure!(zl <= 4 * zth + 8 * (1 << n) + 500, "{zl} family nodes are live although none is held (threshold {zth})");
        for (f, t) in &keep {
            ensure!(w.table(f)? == *t, "kept handle changed");
        }
        step!(ctx, "{k}:made {made} live {live} reach {} zdd {zl}", reach.len());
    }
    ctx.nontrivial = made > 2 * (4 * th + 20 * (1 << n));
    Ok(())
}

/// Diagrams of tens of thousands of nodes behind handles, so that the manager holds and
/// reclaims more of them than 16 bits can number.
pub fn handle_heavy(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(17, 18);
    let w = W::all(n, &mut c);
    let th = [None, Some(1000), Some(70_000), Some(150_000), Some(usize::MAX)][c.weighted(&[3, 1, 2, 2, 2])];
    if let Some(t) = th {
        w.m.bdd().set_gc_threshold(t);
    }
    step!(ctx, "heavy n={n} threshold={th:?}");
    let mut pool: Vec<(BddNode, Table)> = vec![];
    let mut most = 0;
    let mut collected = 0;
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        let before = w.m.bdd().live_node_count();
        match s.weighted(&[6, 4, 3, 3]) {
            0 => {
                let mut st = s.u64() | 1;
                let mut t: Table = (0..w.sp.size)
                    .map(|_| {
                        st ^= st << 13;
                        st ^= st >> 7;
                        st ^= st << 17;
                        (st >> 40 & 1) as i64
                    })
                    .collect();
                if s.chance(1, 3) && !pool.is_empty() {
                    // shares half of its nodes with a held one
                    let u = &pool[s.below(pool.len())].1;
                    let h = t.len() / 2;
                    t[..h].copy_from_slice(&u[..h]);
                }
                let f = w.build(&t);
                ensure!(w.table(&f)? == t, "{k}: a built diagram denotes another function");
                step!(ctx, "{k}: build, live {}", w.m.bdd().live_node_count());
                pool.push((f, t));
            }
            1 if !pool.is_empty() => {
                let i = s.below(pool.len());
                let j = s.below(pool.len());
                let (a, b) = (&pool[i], &pool[j]);
                let op = s.below(4);
                let (f, t) = match op {
                    0 => (a.0.and(&b.0), map2(&a.1, &b.1, |x, y| x & y)),
                    1 => (a.0.or(&b.0), map2(&a.1, &b.1, |x, y| x | y)),
                    2 => (a.0.xor(&b.0), map2(&a.1, &b.1, |x, y| x ^ y)),
                    _ => (a.0.not(), a.1.iter().map(|x| 1 - x).collect()),
                };
                step!(ctx, "{k}: op {op} {i} {j}, live {}", w.m.bdd().live_node_count());
                ensure!(w.table(&f)? == t, "{k}: result of operation {op} is wrong");
                pool.push((f, t));
            }
            2 if !pool.is_empty() => {
                let i = s.below(pool.len());
                pool.remove(i);
                step!(ctx, "{k}: drop {i}");
            }
            3 => {
                w.m.bdd().gc(&[]);
                let live = w.m.bdd().live_node_count();
                let mut reach: HashSet<usize> = HashSet::new();
                for h in pool.iter().map(|x| &x.0).chain(w.v.iter()) {
                    reach.extend(dag(h, &w.idx)?.nodes.into_keys());
                }
                let mgr = w.v[0].get_mgr();
                let b = mgr.borrow();
                reach.extend([b.zero(), b.one(), b.undet()]);
                drop(b);
                ensure!(live == reach.len(), "after collection {live} nodes are live, {} are reachable or permanent", reach.len());
                step!(ctx, "{k}: gc -> {live}");
            }
            _ => continue,
        }
        let now = w.m.bdd().live_node_count();
        most = most.max(now);
        if now < before {
            collected += 1;
        }
        if pool.len() > 5 {
            pool.remove(0);
        }
        for (i, (f, t)) in pool.iter().enumerate() {
            let d = dag(f, &w.idx)?;
            let salt = s.u32() as usize;
            for q in 0..2000usize {
                let p = (q * 2654435761 + salt) % w.sp.size;
                ensure!(d.eval(|v| p >> v & 1 == 1) == t[p], "{k}: held handle {i} changed at {p:b}");
            }
        }
    }
    if most > 1 << 16 {
        ctx.class("over_65536_nodes");
    }
    ctx.nontrivial = most > 1 << 16 && collected >= 1;
    Ok(())
}

/// Families that are dropped do not pile up in the standalone family manager either.
pub fn family_bound(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(7, 11);
    let labels: Vec<String> = (0..n).map(|i| format!("e{i}")).collect();
    let idx: HashMap<String, usize> = labels.iter().cloned().enumerate().map(|(i, l)| (l, i)).collect();
    let mut m = ZddMgr::new();
    let th = c.range(0, 300);
    m.set_gc_threshold(th);
    step!(ctx, "family bound n={n} threshold={th}");
    let mut held: Vec<(ZddNode, Fam)> = vec![];
    let mut made = 0usize;
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        for _ in 0..10 {
            let mut mk = |m: &mut ZddMgr| {
                let fam: Fam = (0..s.range(20, 50)).map(|_| s.u64() & ((1 << n) - 1)).collect();
                let sets: Vec<Vec<String>> = fam.iter().map(|x| (0..n).filter(|i| x >> i & 1 == 1).map(|i| labels[i].clone()).collect()).collect();
                (m.from_sets(&sets), fam)
            };
            let (a, b) = (mk(&mut m), mk(&mut m));
            let op = s.below(3);
            let z = fam_apply(op, &a.0, &b.0);
            let want = fam_op(op, &a.1, &b.1);
            ensure!(family(&z, &idx)? == want, "{} of two families is wrong", FAM_OPS[op]);
            made += a.1.len() + b.1.len();
            if s.chance(1, 20) {
                held.push((z, want));
                if held.len() > 2 {
                    held.remove(0);
                }
            }
        }
        let live = m.live_node_count();
        let bound = 4 * th + 8 * (held.len() + 5) * (2 << n).min(50 * n);
        ensure!(live <= bound, "{live} family nodes are live although {} families are held (threshold {th})", held.len());
        for (z, f) in &held {
            ensure!(family(z, &idx)? == *f, "a held family changed");
        }
        step!(ctx, "{k}:made {made} sets, live {live}");
    }
    ctx.nontrivial = made > 10_000;
    Ok(())
}

// ------------------------------------------------------------------ C07/C08 families

/// Families built and combined through the standalone family manager.
pub fn families(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(1, 7);
    let style = c.below(11);
    let labels: Vec<String> = (0..n).map(|i| label(style, i)).collect();
    let idx: HashMap<String, usize> = labels.iter().cloned().enumerate().map(|(i, l)| (l, i)).collect();
    let mut m = ZddMgr::new();
    let th = [0, 3, 10, 50, 1 << 16][c.below(5)];
    m.set_gc_threshold(th);
    step!(ctx, "families n={n} threshold={th}");
    let mut pool: Vec<(ZddNode, Fam)> = vec![];
    let mut big = 0;
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        let (z, want, d) = match s.weighted(&[5, 2, 1, 8, 1, 3]) {
            0 => {
                let cnt = s.range(0, 8);
                let mut sets: Vec<Vec<String>> = vec![];
                let mut fam = Fam::new();
                for _ in 0..cnt {
                    if !sets.is_empty() && s.chance(1, 6) {
                        let mut d = sets[s.below(sets.len())].clone();
                        d.reverse();
                        sets.push(d);
                        continue;
                    }
                    let len = s.range(0, n.min(5) + 1);
                    let mut mask = 0;
                    let set: Vec<String> = (0..len)
                        .map(|_| {
                            let e = s.below(n);
                            mask |= 1u64 << e;
                            labels[e].clone()
                        })
                        .collect();
                    fam.insert(mask);
                    sets.push(set);
                }
                let d = format!("from_sets {sets:?}");
                (m.from_sets(&sets), fam, d)
            }
            1 => {
                let e = s.below(n);
                (m.singleton(&labels[e]), [1u64 << e].into_iter().collect(), format!("singleton {e}"))
            }
            2 => {
                if s.chance(1, 2) {
                    (m.empty(), Fam::new(), "empty".into())
                } else {
                    (m.base(), [0].into_iter().collect(), "base".into())
                }
            }
            3 if !pool.is_empty() => {
                let i = s.below(pool.len());
                let j = s.below(pool.len());
                let mut op = s.below(5);
                if op == 4 && pool[j].1.is_empty() || op == 3 && pool[i].1.len() * pool[j].1.len() > 4000 {
                    op = s.below(3);
                }
                let want = fam_op(op, &pool[i].1, &pool[j].1);
                (fam_apply(op, &pool[i].0, &pool[j].0), want, format!("{} {i} {j}", FAM_OPS[op]))
            }
            4 => {
                m.clear_cache();
                step!(ctx, "{k}:clear");
                continue;
            }
            5 if !pool.is_empty() => {
                // a branch of a held family: the sets without, or with, its top element
                let i = s.below(pool.len());
                let Some((lo, hi)) = pool[i].0.get_children() else { continue };
                let l = pool[i].0.get_label().ok_or("no label")?;
                let e = 1u64 << *idx.get(&l).ok_or_else(|| format!("unknown label {l:?}"))?;
                if s.chance(1, 2) {
                    (lo, pool[i].1.iter().filter(|x| *x & e == 0).copied().collect(), format!("low {i}"))
                } else {
                    (hi, pool[i].1.iter().filter(|x| *x & e != 0).map(|x| x & !e).collect(), format!("high {i}"))
                }
            }
            _ => continue,
        };
        step!(ctx, "{k}:{d}");
        let got = family(&z, &idx)?;
        ensure!(got == want, "{d}: got {}, expected {}", show_fam(&got), show_fam(&want));
        big = big.max(want.len());
        if s.chance(1, 25) {
            let m = crowd(&mut s);
            let cl: Vec<ZddNode> = (0..m).map(|_| z.clone()).collect();
            drop(cl);
            step!(ctx, "{k}:cloned {m} times");
        }
        pool.push((z, want));
        if pool.len() > 8 {
            let i = s.below(pool.len());
            pool.swap_remove(i);
        }
        for (i, (z, f)) in pool.iter().enumerate() {
            ensure!(family(z, &idx)? == *f, "held family {i} changed");
            ensure!(z.is_zero() == f.is_empty(), "is_zero is {} for a family of {} sets", z.is_zero(), f.len());
            ensure!(z.is_one() == (f.len() == 1 && f.contains(&0)), "is_one wrong for {}", show_fam(f));
            for (y, g) in &pool[..i] {
                ensure!(z.eq(y) == (f == g), "family equality says {}, families {} and {}", z.eq(y), show_fam(f), show_fam(g));
            }
        }
        enumerate_family(&pool[pool.len() - 1], &labels)?;
    }
    ctx.nontrivial = big >= 3;
    Ok(())
}

fn enumerate_family(x: &(ZddNode, Fam), labels: &[String]) -> R {
    let (z, f) = x;
    ensure!(z.count(&[true]) == f.len() as u64, "count is {}, the family has {} sets", z.count(&[true]), f.len());
    ensure!(z.count(&[true, true]) == f.len() as u64, "asked twice for members, count is {}, the family has {} sets", z.count(&[true, true]), f.len());
    ensure!(z.extract(&[true, true]).count() == f.len(), "asked twice for members, enumeration differs from {} sets", f.len());
    ensure!(z.count(&[]) == 0, "count with an empty filter is {}", z.count(&[]));
    ensure!(z.extract(&[]).next().is_none(), "enumeration with an empty filter yields a set");
    let mut it = z.extract(&[true]);
    ensure!(it.len() == f.len() as u64, "enumerator length {}, family size {}", it.len(), f.len());
    let mut got = vec![];
    for _ in 0..f.len() + 1 {
        match it.next() {
            Some(p) => {
                if got.len() == 1 {
                    it.len();
                }
                let mut q = p.clone();
                q.sort();
                let l = q.len();
                q.dedup();
                ensure!(q.len() == l, "a set lists an element twice: {p:?}");
                got.push(p);
            }
            None => break,
        }
    }
    ensure!(it.next().is_none(), "enumeration does not end");
    finish_iter(&got, &fam_labels(f, labels))?;
    // asking for non-members as well: the branches of the diagram that end in the empty family
    if labels.len() <= 8 {
        let mut dead: Vec<Vec<String>> = vec![];
        let mut st = vec![(z.clone(), vec![])];
        while let Some((x, p)) = st.pop() {
            match x.get_children() {
                None if x.is_zero() => dead.push(p),
                None => {}
                Some((lo, hi)) => {
                    let mut q = p.clone();
                    q.push(x.get_label().ok_or("no label")?);
                    st.push((lo, p));
                    st.push((hi, q));
                }
            }
        }
        let norm = |v: Vec<Vec<String>>| {
            let mut v: Vec<Vec<String>> = v.into_iter().map(|mut p| { p.sort(); p }).collect();
            v.sort();
            v
        };
        let dead = norm(dead);
        ensure!(z.count(&[false]) == dead.len() as u64, "count of non-members is {}, the diagram has {} such branches", z.count(&[false]), dead.len());
        let it = z.extract(&[false]);
        ensure!(it.len() == dead.len() as u64, "enumerator length of non-members is {}, expected {}", it.len(), dead.len());
        ensure!(norm(it.take(dead.len() + 1).collect()) == dead, "enumerated non-members differ from the branches of the diagram");
        for ss in [[true, false], [false, true]] {
            ensure!(z.count(&ss) == (dead.len() + f.len()) as u64, "count of everything is {}, expected {}", z.count(&ss), dead.len() + f.len());
            let mut all = norm(got.clone());
            all.extend(dead.iter().cloned());
            all.sort();
            ensure!(norm(z.extract(&ss).take(all.len() + 1).collect()) == all, "enumerating everything differs from members and non-members");
        }
    }
    Ok(())
}

/// Thousands of handles held at once, across explicit and automatic collections.
pub fn hoard(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(6, 9);
    let w = W::all(n, &mut c);
    let want = [600, 1100, 2100, 4200][c.below(4)];
    let th = [None, Some(10), Some(1500), Some(20_000)][c.below(4)];
    if let Some(t) = th {
        w.m.bdd().set_gc_threshold(t);
    }
    step!(ctx, "hoard n={n} want={want} threshold={th:?}");
    let mut pool: Vec<(BddNode, Table)> = vec![];
    let (mut most, mut later) = (0, 0);
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        if k > 0 {
            let m = pool.len() / (2 + s.below(8));
            match s.below(3) {
                0 => drop(pool.drain(..m)),
                1 => pool.truncate(pool.len() - m),
                _ => {
                    for _ in 0..m {
                        let i = s.below(pool.len());
                        pool.swap_remove(i);
                    }
                }
            }
        }
        while pool.len() < want {
            if !pool.is_empty() && s.chance(1, 3) {
                let (a, b) = (&pool[s.below(pool.len())], &pool[s.below(pool.len())]);
                let op = s.below(5);
                let (f, t): (BddNode, Table) = match op {
                    0 => (a.0.and(&b.0), map2(&a.1, &b.1, |x, y| x & y)),
                    1 => (a.0.or(&b.0), map2(&a.1, &b.1, |x, y| x | y)),
                    2 => (a.0.xor(&b.0), map2(&a.1, &b.1, |x, y| x ^ y)),
                    3 => (a.0.not(), a.1.iter().map(|x| 1 - x).collect()),
                    _ => {
                        let d = &pool[s.below(pool.len())];
                        (a.0.ite(&b.0, &d.0), (0..w.sp.size).map(|p| if a.1[p] == 1 { b.1[p] } else { d.1[p] }).collect())
                    }
                };
                ensure!(w.table(&f)? == t, "{k} ({} held): result of operation {op} is wrong", pool.len());
                pool.push((f, t));
                later += (k > 0) as usize;
            } else {
                let t: Table = (0..w.sp.size).map(|_| s.below(2) as i64).collect();
                pool.push((w.build(&t), t));
            }
        }
        let mut reach: HashSet<usize> = HashSet::new();
        for h in pool.iter().map(|x| &x.0).chain(w.v.iter()) {
            reach.extend(dag(h, &w.idx)?.nodes.into_keys());
        }
        let mgr = w.v[0].get_mgr();
        {
            let b = mgr.borrow();
            reach.extend([b.zero(), b.one(), b.undet()]);
        }
        w.m.bdd().gc(&[]);
        let live = w.m.bdd().live_node_count();
        ensure!(live == reach.len(), "{k}: {live} live after the collection, {} reachable from {} handles", reach.len(), pool.len());
        let mut ids: HashMap<usize, &Table> = HashMap::new();
        let mut by: HashMap<&Table, usize> = HashMap::new();
        for (i, (f, t)) in pool.iter().enumerate() {
            let d = dag(f, &w.idx).map_err(|m| format!("{k}: handle {i} of {}: {m}", pool.len()))?;
            ensure!(d.table(&w.sp) == *t, "{k}: handle {i} of {} denotes another function after the collection", pool.len());
            ids.insert(f.get_id(), t);
            ensure!(*by.entry(t).or_insert(f.get_id()) == f.get_id(), "{k}: handle {i}: the same function at another node");
        }
        most = most.max(ids.len());
        step!(ctx, "{k}: {} held, {live} live", pool.len());
    }
    if most > 1024 {
        ctx.class("over_1024_handles");
    }
    ctx.nontrivial = most > 500 && later > 20;
    Ok(())
}

/// Thousands of families held at once.
pub fn families_hoard(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(6, 9);
    let style = c.below(11);
    let labels: Vec<String> = (0..n).map(|i| label(style, i)).collect();
    let idx: HashMap<String, usize> = labels.iter().cloned().enumerate().map(|(i, l)| (l, i)).collect();
    let mut m = ZddMgr::new();
    let want = [600, 1100, 2100, 4200][c.below(4)];
    let th = [0, 10, 1500, 20_000, 1 << 16][c.below(5)];
    m.set_gc_threshold(th);
    step!(ctx, "families_hoard n={n} want={want} threshold={th}");
    // fixes the order of the elements
    let mut pool: Vec<(ZddNode, Fam)> = vec![(m.from_sets(&[labels.clone()]), [(1u64 << n) - 1].into_iter().collect())];
    let (mut most, mut later) = (0, 0);
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        if k > 0 {
            let x = pool.len() / (2 + s.below(8));
            match s.below(3) {
                0 => drop(pool.drain(..x)),
                1 => pool.truncate(pool.len() - x),
                _ => {
                    for _ in 0..x {
                        let i = s.below(pool.len());
                        pool.swap_remove(i);
                    }
                }
            }
        }
        while pool.len() < want {
            let (z, f) = if s.chance(1, 2) {
                let (a, b) = (&pool[s.below(pool.len())], &pool[s.below(pool.len())]);
                let mut op = s.below(5);
                if op == 4 && b.1.is_empty() || op == 3 && a.1.len() * b.1.len() > 400 {
                    op = s.below(3);
                }
                later += (k > 0) as usize;
                (fam_apply(op, &a.0, &b.0), fam_op(op, &a.1, &b.1))
            } else {
                let masks: Vec<u64> = (0..s.range(1, 12)).map(|_| s.below(1 << n) as u64).collect();
                let sets: Vec<Vec<String>> = masks.iter().map(|x| (0..n).filter(|e| x >> e & 1 == 1).map(|e| labels[e].clone()).collect()).collect();
                (m.from_sets(&sets), masks.into_iter().collect())
            };
            if s.chance(1, 8) {
                ensure!(family(&z, &idx)? == f, "{k} ({} held): a new family is wrong", pool.len());
            }
            pool.push((z, f));
        }
        if s.chance(1, 3) {
            m.clear_cache();
        }
        let mut by: HashMap<&Fam, usize> = HashMap::new();
        for (i, (z, f)) in pool.iter().enumerate() {
            let got = family(z, &idx).map_err(|m| format!("{k}: family {i} of {}: {m}", pool.len()))?;
            ensure!(got == *f, "{k}: family {i} of {} changed: {} instead of {}", pool.len(), show_fam(&got), show_fam(f));
            let j = *by.entry(f).or_insert(i);
            ensure!(pool[j].0.eq(z), "{k}: the same family twice, not equal");
        }
        most = most.max(by.len());
        step!(ctx, "{k}: {} held", pool.len());
    }
    if most > 1024 {
        ctx.class("over_1024_families");
    }
    ctx.nontrivial = most > 400 && later > 20;
    Ok(())
}

/// Large sparse families over many elements.
pub fn families_wide(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(20, 300);
    let labels: Vec<String> = (0..n).map(|i| format!("e{i}")).collect();
    let mut m = ZddMgr::new();
    m.set_gc_threshold([0, 100, 1 << 16][c.below(3)]);
    type F = BTreeSet<BTreeSet<usize>>;
    let mut pool: Vec<(ZddNode, F)> = vec![];
    step!(ctx, "wide families n={n}");
    let mut big = 0;
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        let (z, want): (ZddNode, F) = if pool.len() < 2 || s.chance(1, 2) {
            let cnt = s.range(1, 25);
            let base: Vec<usize> = (0..s.range(0, 6)).map(|_| s.below(n)).collect();
            let mut f = F::new();
            let mut sets = vec![];
            for _ in 0..cnt {
                let mut set: Vec<usize> = base.clone();
                for _ in 0..s.range(0, 8) {
                    set.push(s.below(n));
                }
                f.insert(set.iter().copied().collect());
                sets.push(set.iter().map(|&e| labels[e].clone()).collect::<Vec<_>>());
            }
            (m.from_sets(&sets), f)
        } else {
            let i = s.below(pool.len());
            let j = s.below(pool.len());
            let (a, b) = (&pool[i].1, &pool[j].1);
            let op = if a.len() * b.len() > 600 { s.below(3) } else { s.below(5) };
            if op == 4 && b.is_empty() {
                continue;
            }
            let want: F = match op {
                0 => a.union(b).cloned().collect(),
                1 => a.intersection(b).cloned().collect(),
                2 => a.difference(b).cloned().collect(),
                3 => a.iter().flat_map(|x| b.iter().map(move |y| x.union(y).copied().collect())).collect(),
                _ => {
                    let d0 = b.iter().next().unwrap();
                    a.iter()
                        .filter(|x| d0.is_subset(x))
                        .map(|x| x.difference(d0).copied().collect::<BTreeSet<usize>>())
                        .filter(|c| b.iter().all(|d| c.is_disjoint(d) && a.contains(&c.union(d).copied().collect::<BTreeSet<_>>())))
                        .collect()
                }
            };
            step!(ctx, "{k}:{} {i} {j}", FAM_OPS[op]);
            (fam_apply(op, &pool[i].0, &pool[j].0), want)
        };
        let got: Vec<BTreeSet<usize>> = z.extract(&[true]).map(|p| p.iter().map(|l| l[1..].parse::<usize>().unwrap()).collect()).collect();
        ensure!(got.len() == want.len() && z.count(&[true]) == want.len() as u64, "family of {} sets enumerates {} and counts {}", want.len(), got.len(), z.count(&[true]));
        let g: F = got.into_iter().collect();
        ensure!(g == want, "family differs: {:?}", g.symmetric_difference(&want).next());
        step!(ctx, "{k}:size {}", want.len());
        big = big.max(want.len());
        if want.len() <= 400 {
            pool.push((z, want));
        }
        if pool.len() > 6 {
            pool.remove(0);
        }
    }
    ctx.nontrivial = big >= 10;
    Ok(())
}

/// Families too large to list: products of small families over disjoint elements.
pub fn families_count(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let style = c.below(2);
    let mut m = ZddMgr::new();
    m.set_gc_threshold([0, 30, 1 << 16][c.below(3)]);
    let mut nontrivial = false;
    let name = |g: usize, e: usize| if style == 0 { format!("g{g}_{e}") } else { format!("{}", g * 10 + e + 2) };
    // elements of one group are neighbours in the order, or the diagrams explode
    let mut order: Vec<usize> = (0..30).collect();
    let shift = c.below(30);
    order.rotate_left(shift);
    for &g in &order {
        for e in 0..4 {
            m.singleton(&name(g, if shift % 2 == 0 { e } else { 3 - e }));
        }
    }
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        let (groups, max) = (s.range(2, 30), s.range(2, 6));
        let wid = s.range(1, 4);
        let mut fams: Vec<Fam> = vec![];
        let mut z = m.base();
        let mut total: u128 = 1;
        let mut order: Vec<usize> = (0..groups).collect();
        if s.chance(1, 2) {
            order.reverse();
        }
        let mut used = vec![];
        for &g in &order {
            let f: Fam = (0..s.range(1, max)).map(|_| s.u64() & ((1 << wid) - 1)).collect();
            if total * f.len() as u128 > u64::MAX as u128 {
                continue;
            }
            total *= f.len() as u128;
            let sets: Vec<Vec<String>> = f.iter().map(|x| (0..wid).filter(|i| x >> i & 1 == 1).map(|i| name(g, i)).collect()).collect();
            let y = m.from_sets(&sets);
            z = if s.chance(1, 2) { z.product(&y) } else { y.product(&z) };
            fams.push(f);
            used.push(g);
        }
        // optionally without, or with more than, the members of another such family
        let pick: Fam2 = fams.iter().map(|f| f.iter().copied().filter(|_| s.chance(2, 3)).collect()).collect();
        let sub: u128 = pick.iter().map(|f: &Fam| f.len() as u128).product();
        let op = s.below(3);
        let (mut z, mut total) = (z, total);
        if op > 0 && sub > 0 {
            let mut y = m.base();
            for (f, &g) in pick.iter().zip(&used) {
                let sets: Vec<Vec<String>> = f.iter().map(|x| (0..wid).filter(|i| x >> i & 1 == 1).map(|i| name(g, i)).collect()).collect();
                y = y.product(&m.from_sets(&sets));
            }
            ensure!(y.count(&[true]) as u128 == sub, "{k}: a family of {sub} sets counts {}", y.count(&[true]));
            if op == 1 {
                z = z.setdiff(&y);
                total -= sub;
            } else {
                z = z.intersect(&y);
                total = sub;
            }
        }
        let sub_in = op > 0 && sub > 0;
        step!(ctx, "{k}: {} groups of up to {wid} elements, {total} sets", fams.len());
        for ss in [&[true][..], &[true, true]] {
            let got = z.count(ss);
            ensure!(got as u128 == total, "{k}: count {ss:?} is {got}, the family has {total} sets");
            let mut it = z.extract(ss);
            ensure!(it.len() as u128 == total, "{k}: enumerator length {ss:?} is {}, the family has {total} sets", it.len());
            let mut seen: BTreeSet<Vec<String>> = BTreeSet::new();
            for _ in 0..20 {
                let Some(p) = it.next() else { break };
                let mut q = p.clone();
                q.sort();
                let mut rest = q.len();
                let mut inside = true;
                for ((f, sm), &g) in fams.iter().zip(&pick).zip(&used) {
                    let mask: u64 = (0..wid).filter(|&i| q.contains(&name(g, i))).map(|i| 1u64 << i).sum();
                    rest -= mask.count_ones() as usize;
                    ensure!(f.contains(&mask), "{k}: enumerated {p:?}, which is not a member (group {g})");
                    inside &= sm.contains(&mask);
                }
                ensure!(rest == 0, "{k}: enumerated {p:?}, with elements repeated or of no group");
                ensure!(!sub_in || inside == (op == 2), "{k}: enumerated {p:?}, which is not a member of the difference or intersection");
                ensure!(seen.insert(q), "{k}: enumerated {p:?} twice");
            }
            ensure!(seen.len() as u128 == total.min(20), "{k}: {} sets enumerated of {total}", seen.len());
        }
        nontrivial |= total > 1 << 32;
    }
    if nontrivial {
        ctx.class("more_than_2^32");
    }
    ctx.nontrivial = nontrivial;
    Ok(())
}
type Fam2 = Vec<Fam>;

// ------------------------------------------------------------------ C09/C10 probabilities

trait Num: Copy + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self> + From<f64> + PartialEq {}
impl Num for f64 {}
impl Num for Zp {}

/// Sum over all component states; `fix` conditions one component's state.
fn prob_model<T: Num>(w: &W, t: &[i64], pv: &HashMap<String, T>, ss: &[bool], fix: Option<(usize, usize)>) -> T {
    let n = w.sp.n();
    let p: Vec<[T; 2]> = (0..n)
        .map(|v| {
            if let Some((f, st)) = fix {
                if f == v {
                    return if st == 1 { [T::from(0.0), T::from(1.0)] } else { [T::from(1.0), T::from(0.0)] };
                }
            }
            let q = pv[&w.labels[v]];
            [T::from(1.0) - q, q]
        })
        .collect();
    let mut tot = T::from(0.0);
    for x in 0..w.sp.size {
        if !ss.contains(&(t[x] == 1)) {
            continue;
        }
        let mut m = T::from(1.0);
        for v in 0..n {
            m = m * p[v][x >> v & 1];
        }
        tot = tot + m;
    }
    tot
}

pub const SS: [&[bool]; 7] = [&[true], &[false], &[true, false], &[], &[true, true], &[false, true], &[false, false]];

pub fn prob_bdd(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(1, 8);
    let w = W::churning(n, &mut c);
    step!(ctx, "n={n}");
    let mut dep = 0;
    for words in &case.ops {
        let mut s = Src::new(words);
        w.stir(&mut s, ctx);
        let mut d = String::new();
        let (f, t) = any_fn(&w, &mut s, &mut d);
        let pf: HashMap<String, f64> = w.labels.iter().map(|l| (l.clone(), [0.0, 1.0, 0.5, s.unit(), s.unit(), s.unit() * 1e-4][s.below(6)])).collect();
        let pz: HashMap<String, Zp> = w.labels.iter().map(|l| (l.clone(), Zp(s.u64() % PRIME))).collect();
        let ss = SS[s.below(SS.len())];
        step!(ctx, "{d} ss={ss:?}");
        let z = f.prob(&pz, ss);
        let zw = prob_model(&w, &t, &pz, ss, None);
        ensure!(z == zw, "exact probability of {ss:?} is {z:?}, summing states gives {zw:?}");
        let x = f.prob(&pf, ss);
        let xw = prob_model(&w, &t, &pf, ss, None);
        ensure!(close(x, xw), "probability {x}, summing states gives {xw}");
        ensure!(x >= -1e-9 && x <= 1.0 + 1e-9, "probability {x} outside [0,1]");
        let one = f.prob(&pf, &[true]) + f.prob(&pf, &[false]);
        ensure!(close(one, 1.0), "P(up)+P(down) = {one}");
        // interval enclosure of every point inside
        let iv: HashMap<String, Iv> = pf.iter().map(|(k, &p)| { let r = s.unit() * 0.2; (k.clone(), Iv((p - r).max(0.0), (p + r).min(1.0))) }).collect();
        let i = f.prob(&iv, ss);
        ensure!(i.has(xw), "interval probability [{}, {}] misses the point value {xw}", i.0, i.1);
        // degenerate intervals reproduce the point result
        let iv: HashMap<String, Iv> = pf.iter().map(|(k, &p)| (k.clone(), Iv(p, p))).collect();
        let i = f.prob(&iv, ss);
        ensure!(close(i.0, xw) && close(i.1, xw), "degenerate interval gives [{}, {}], point gives {xw}", i.0, i.1);
        dep = dep.max(w.sp.support(&t).len());
    }
    ctx.nontrivial = dep >= 2;
    Ok(())
}

pub fn bmeas_bdd(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(1, 7);
    let w = W::churning(n, &mut c);
    step!(ctx, "n={n}");
    let mut dep = 0;
    for words in &case.ops {
        let mut s = Src::new(words);
        w.stir(&mut s, ctx);
        let mut d = String::new();
        let (f, t) = any_fn(&w, &mut s, &mut d);
        let pf: HashMap<String, f64> = w.labels.iter().map(|l| (l.clone(), [0.0, 1.0, 0.5, s.unit(), s.unit(), s.unit()][s.below(6)])).collect();
        let pz: HashMap<String, Zp> = w.labels.iter().map(|l| (l.clone(), Zp(s.u64() % PRIME))).collect();
        let ss = SS[s.below(SS.len())];
        step!(ctx, "{d} ss={ss:?}");
        let bz = f.bmeas(&pz, ss);
        let bf = f.bmeas(&pf, ss);
        let iv: HashMap<String, Iv> = pf.iter().map(|(k, &p)| { let r = s.unit() * 0.2; (k.clone(), Iv((p - r).max(0.0), (p + r).min(1.0))) }).collect();
        let bi = f.bmeas(&iv, ss);
        let sup: HashSet<usize> = w.sp.support(&t).into_iter().collect();
        dep = dep.max(sup.len());
        for k in bz.keys().chain(bf.keys()) {
            ensure!(w.idx.contains_key(k), "measure reported for unknown component {k}");
        }
        for v in 0..n {
            let l = &w.labels[v];
            let want = prob_model(&w, &t, &pz, ss, Some((v, 1))) - prob_model(&w, &t, &pz, ss, Some((v, 0)));
            let wf = prob_model(&w, &t, &pf, ss, Some((v, 1))) - prob_model(&w, &t, &pf, ss, Some((v, 0)));
            match (bz.get(l), bf.get(l)) {
                (Some(a), Some(b)) => {
                    ensure!(*a == want, "exact Birnbaum measure of {l} is {a:?}, expected {want:?}");
                    ensure!(close(*b, wf), "Birnbaum measure of {l} is {b}, expected {wf}");
                }
                (None, None) => ensure!(!sup.contains(&v), "component {l} matters but has no measure"),
                _ => return Err(format!("measure of {l} depends on the number type")),
            }
            if let Some(i) = bi.get(l) {
                ensure!(i.has(wf), "interval measure of {l} [{}, {}] misses {wf}", i.0, i.1);
            }
        }
    }
    ctx.nontrivial = dep >= 2;
    Ok(())
}

// ------------------------------------------------------------------ wide read-once systems

pub enum RO {
    Var(usize),
    Gate(u8, Vec<RO>),
}
pub fn read_once(vars: &[usize], s: &mut Src, depth: usize) -> RO {
    if vars.len() == 1 {
        return RO::Var(vars[0]);
    }
    let parts = if depth > 12 { vars.len().min(8) } else { s.range(2, vars.len().min(6)) };
    let mut cuts: Vec<usize> = vec![];
    while cuts.len() < parts - 1 {
        let x = s.range(1, vars.len() - 1);
        if !cuts.contains(&x) {
            cuts.push(x);
        } else if cuts.len() + 1 >= vars.len() {
            break;
        }
    }
    cuts.sort();
    let mut ch = vec![];
    let mut a = 0;
    for &x in cuts.iter().chain([&vars.len()]) {
        ch.push(read_once(&vars[a..x], s, depth + 1));
        a = x;
    }
    let k = match s.below(5) {
        0 | 1 => 0,          // and
        2 | 3 => 1,          // or
        _ => 2,              // majority-like
    };
    RO::Gate(k, ch)
}
fn ro_k(k: u8, n: usize) -> usize {
    match k {
        0 => n,
        1 => 1,
        _ => n / 2 + 1,
    }
}
pub fn ro_node(r: &RO, w: &W) -> BddNode {
    match r {
        RO::Var(v) => w.v[*v].clone(),
        RO::Gate(k, ch) => {
            let ns: Vec<BddNode> = ch.iter().map(|c| ro_node(c, w)).collect();
            match k {
                0 => w.m.and(&ns),
                1 => w.m.or(&ns),
                _ => w.m.kofn(ro_k(2, ns.len()), &ns),
            }
        }
    }
}
/// Probability that at least k of independent events happen, by convolution.
fn at_least(k: usize, p: &[Zp]) -> Zp {
    let mut d = vec![Zp(1)];
    for &q in p {
        let mut e = vec![Zp(0); d.len() + 1];
        for (i, &x) in d.iter().enumerate() {
            e[i] = e[i] + x * (Zp(1) - q);
            e[i + 1] = e[i + 1] + x * q;
        }
        d = e;
    }
    d.iter().skip(k).fold(Zp(0), |a, &b| a + b)
}
pub fn ro_prob(r: &RO, p: &[Zp]) -> Zp {
    match r {
        RO::Var(v) => p[*v],
        RO::Gate(k, ch) => {
            let q: Vec<Zp> = ch.iter().map(|c| ro_prob(c, p)).collect();
            at_least(ro_k(*k, q.len()), &q)
        }
    }
}
/// Number of minimal paths, and of minimal cuts.
fn ro_paths(r: &RO, cut: bool) -> f64 {
    match r {
        RO::Var(_) => 1.0,
        RO::Gate(k, ch) => {
            let n = ch.len();
            let kk = if cut { n + 1 - ro_k(*k, n) } else { ro_k(*k, n) };
            let c: Vec<f64> = ch.iter().map(|x| ro_paths(x, cut)).collect();
            // elementary symmetric polynomial of degree kk
            let mut e = vec![1.0];
            e.resize(n + 1, 0.0);
            for x in c {
                for i in (0..n).rev() {
                    e[i + 1] += e[i] * x;
                }
            }
            e[kk]
        }
    }
}

pub fn readonce(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = if c.chance(1, 25) { c.range(250, 340) } else { c.range(10, if ctx.thorough { 250 } else { 120 }) };
    if n > 256 {
        ctx.class("over_256_components");
    }
    let mut w = W { m: BssMgr::new(), v: vec![], sp: Space::new(&[]), churn: 0, spread: 0, hold: vec![], labels: (0..n).map(|i| format!("c{i}")).collect(), idx: HashMap::new() };
    for i in 0..n {
        w.idx.insert(format!("c{i}"), i);
        let l = w.labels[i].clone();
        let x = w.m.defvar(&l);
        w.v.push(x);
    }
    // blocks of consecutive variables keep diagrams small; a few swaps mix the order
    let mut order: Vec<usize> = (0..n).collect();
    for _ in 0..c.below(6) {
        let i = c.below(n - 1);
        order.swap(i, i + 1);
    }
    if c.chance(1, 3) {
        order.reverse();
    }
    w.m.bdd().set_gc_threshold([50, 5000, 1 << 16][c.below(3)]);
    let r = read_once(&order, &mut c, 0);
    let f = ro_node(&r, &w);
    let size = f.size();
    step!(ctx, "read-once n={n} size={size:?}");
    for words in &case.ops {
        let mut s = Src::new(words);
        let p: Vec<Zp> = (0..n).map(|_| Zp(s.u64() % PRIME)).collect();
        let pv: HashMap<String, Zp> = (0..n).map(|i| (w.labels[i].clone(), p[i])).collect();
        let want = ro_prob(&r, &p);
        ensure!(f.prob(&pv, &[true]) == want, "probability of a read-once system differs");
        ensure!(f.prob(&pv, &[false]) == Zp(1) - want, "probability of failure of a read-once system differs");
        let b = f.bmeas(&pv, &[true]);
        for _ in 0..8 {
            let v = s.below(n);
            let mut p1 = p.clone();
            p1[v] = Zp(1);
            let mut p0 = p.clone();
            p0[v] = Zp(0);
            let d = ro_prob(&r, &p1) - ro_prob(&r, &p0);
            ensure!(b.get(&w.labels[v]) == Some(&d), "Birnbaum measure of component {v} in a read-once system differs");
        }
        step!(ctx, "p0={}", p[0].0);
    }
    for cut in [false, true] {
        let want = ro_paths(&r, cut);
        if want < 1e15 {
            let z = if cut { w.m.mincut(&f) } else { w.m.minpath(&f) }.ok_or("monotone system refused")?;
            ensure!(z.count(&[true]) as f64 == want, "{} minimal {}, expected {want}", z.count(&[true]), if cut { "cuts" } else { "paths" });
            // sampled members really are minimal
            let up: Vec<bool> = vec![true; n];
            for set in z.extract(&[true]).take(5) {
                let m: HashSet<usize> = set.iter().map(|l| w.idx[l]).collect();
                let ev = |m: &HashSet<usize>| ro_eval(&r, &|v| if cut { up[v] && !m.contains(&v) } else { m.contains(&v) });
                ensure!(ev(&m) != cut, "a reported minimal {} does not decide the system", if cut { "cut" } else { "path" });
                for &x in &m {
                    let mut q = m.clone();
                    q.remove(&x);
                    ensure!(ev(&q) == cut, "a reported minimal {} is not minimal", if cut { "cut" } else { "path" });
                }
            }
        }
    }
    ensure!(f.dual().dual().eq(&f), "the dual of the dual differs");
    // one xor makes it non-monotone in a variable it depends on
    let g = f.xor(&w.v[order[0]]);
    let (z, y) = (w.m.minpath(&g), w.m.mincut(&g));
    ensure!(z.is_none() && y.is_none(), "a system xor-ed with one of its components was not refused");
    ctx.nontrivial = size.0 > 15;
    Ok(())
}
fn ro_eval(r: &RO, up: &impl Fn(usize) -> bool) -> bool {
    match r {
        RO::Var(v) => up(*v),
        RO::Gate(k, ch) => ch.iter().filter(|c| ro_eval(c, up)).count() >= ro_k(*k, ch.len()),
    }
}

// ------------------------------------------------------------------ C11 minimal sets

pub fn minsets(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(1, 8);
    let w = W::churning(n, &mut c);
    if c.chance(1, 3) {
        w.m.zdd().set_gc_threshold(c.below(30));
        w.m.bdd().set_gc_threshold(c.below(60));
    }
    step!(ctx, "n={n}");
    let mut seen: BTreeMap<Fam, ZddNode> = BTreeMap::new();
    let (mut most, mut refused) = (0, 0);
    for words in &case.ops {
        let mut s = Src::new(words);
        w.stir(&mut s, ctx);
        let mut d = String::new();
        let (f, t) = match s.below(5) {
            0 => any_fn(&w, &mut s, &mut d),
            1 => {
                // a monotone table with one point flipped: usually not monotone any more
                let mut t = monotone_table(&w, &mut s);
                let p = s.below(t.len());
                t[p] = 1 - t[p];
                d = format!("flip {}", show(&t));
                (w.build(&t), t)
            }
            2 => {
                let dep = s.range(1, 4);
                formula(&w, &mut s, dep, true, &mut d)
            }
            _ => {
                let t = monotone_table(&w, &mut s);
                d = format!("mono {}", show(&t));
                (w.build(&t), t)
            }
        };
        step!(ctx, "{d}");
        let mono = is_monotone(&t, n);
        for cut in [false, true] {
            let what = if cut { "cut" } else { "path" };
            let z = if cut { w.m.mincut(&f) } else { w.m.minpath(&f) };
            match z {
                None => {
                    ensure!(!mono, "minimal {what} sets of a monotone function were refused");
                    refused += 1;
                }
                Some(z) => {
                    ensure!(mono, "minimal {what} sets of a non-monotone function {} were answered", show(&t));
                    let want = if cut { min_cuts(&t, n) } else { min_paths(&t, n) };
                    let got = family(&z, &w.idx)?;
                    ensure!(got == want, "minimal {what} sets {}, expected {}", show_fam(&got), show_fam(&want));
                    most = most.max(want.len());
                    enumerate_family(&(z.clone(), want.clone()), &w.labels)?;
                    let again = if cut { w.m.mincut(&f) } else { w.m.minpath(&f) }.ok_or("refused on the second request")?;
                    ensure!(again.eq(&z), "asking twice gives two different nodes");
                    if let Some(y) = seen.get(&want) {
                        ensure!(y.eq(&z), "an equal family asked for earlier is a different node");
                    }
                    for (g, y) in &seen {
                        ensure!(*g == want || !y.eq(&z), "different families share a node");
                    }
                    if seen.len() < 12 {
                        seen.insert(want, z);
                    }
                }
            }
        }
        ensure!(w.table(&f)? == t, "the structure function changed while its minimal sets were computed");
    }
    if refused > 0 {
        ctx.class("refused");
    }
    ctx.nontrivial = most >= 2;
    Ok(())
}

// ------------------------------------------------------------------ C12 gates

pub fn gates(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(1, 8);
    let w = W::churning(n, &mut c);
    step!(ctx, "n={n}");
    let mut widest = 0;
    for words in &case.ops {
        let mut s = Src::new(words);
        w.stir(&mut s, ctx);
        let m = s.range(0, 9);
        let (mut ns, mut ts, mut d) = (vec![], vec![], String::new());
        for _ in 0..m {
            let (f, t) = match s.below(6) {
                0 => any_fn(&w, &mut s, &mut d),
                1 if !ns.is_empty() => {
                    let i = s.below(ns.len());
                    let x: &BddNode = &ns[i];
                    let y: &Table = &ts[i];
                    (x.clone(), y.clone())
                }
                2 => {
                    let v = s.below(n);
                    (w.v[v].not(), w.var_table(v).iter().map(|x| 1 - x).collect())
                }
                3 if s.chance(1, 2) => {
                    let b = s.chance(1, 2);
                    (if b { w.m.one() } else { w.m.zero() }, vec![b as i64; w.sp.size])
                }
                _ => {
                    let v = s.below(n);
                    (w.v[v].clone(), w.var_table(v))
                }
            };
            ns.push(f);
            ts.push(t);
        }
        widest = widest.max(m);
        step!(ctx, "m={m} {d} {}", ts.iter().map(|t| show(t)).collect::<Vec<_>>().join("/"));
        let sz = w.sp.size;
        let and = w.m.and(&ns);
        ensure!(w.table(&and)? == kofn_table(m, &ts, sz), "and over {m} inputs is wrong");
        let or = w.m.or(&ns);
        ensure!(w.table(&or)? == kofn_table(1, &ts, sz), "or over {m} inputs is wrong");
        for k in (0..=m + 2).chain([255, 256, 65536, 1 << 32, (1 << 32) + 1, 1 << 62, usize::MAX - 1, usize::MAX]) {
            let f = w.m.kofn(k, &ns);
            let want = kofn_table(k, &ts, sz);
            let got = w.table(&f)?;
            ensure!(got == want, "{k}-out-of-{m} is {}, expected {}", show(&got), show(&want));
        }
        if let Some((f, t)) = ns.first().zip(ts.first()) {
            let du = f.dual();
            ensure!(w.table(&du)? == dual_table(t), "dual of {} is wrong", show(t));
            ensure!(du.dual().eq(f), "the dual of the dual is another node");
        }
    }
    ctx.nontrivial = widest >= 3;
    Ok(())
}

/// k-out-of-n of many distinct components (also with a repeated block), checked by exact
/// probability and by count.
pub fn kofn_wide(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let long = c.chance(1, 80);
    let n = if long { c.range(60, 300) } else { c.range(5, 45) };
    let mut m = BssMgr::new();
    let vs: Vec<BddNode> = (0..n).map(|i| m.defvar(&format!("c{i}"))).collect();
    step!(ctx, "n={n}");
    for words in case.ops.iter().take(if long { 2 } else { 6 }) {
        let mut s = Src::new(words);
        let k = match s.below(if long { 8 } else { 1 }) {
            1 => n,
            2 => 1,
            3 => s.range(n.saturating_sub(4), n + 1),
            4 => s.range(0, 4),
            5 => s.range(250, 260),
            _ => s.range(0, n + 1),
        };
        let mut ord: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            ord.swap(i, s.below(i + 1));
        }
        let f = m.kofn(k, &ord.iter().map(|&i| vs[i].clone()).collect::<Vec<_>>());
        let p: Vec<Zp> = (0..n).map(|_| Zp(s.u64() % PRIME)).collect();
        let pv: HashMap<String, Zp> = (0..n).map(|i| (format!("c{i}"), p[i])).collect();
        ensure!(f.prob(&pv, &[true]) == at_least(k, &p), "{k}-out-of-{n} has the wrong probability");
        if long {
            ctx.class("over_60_inputs");
            let m0: Vec<BddNode> = ord.iter().map(|&i| vs[i].clone()).collect();
            let all = |it: &mut dyn Iterator<Item = Zp>| it.fold(Zp(1), |a, x| a * x);
            ensure!(m.and(&m0).prob(&pv, &[true]) == all(&mut p.iter().copied()), "the conjunction of {n} variables has the wrong probability");
            ensure!(m.or(&m0).prob(&pv, &[false]) == all(&mut p.iter().map(|&x| Zp(1) - x)), "the disjunction of {n} variables has the wrong probability");
        }
        // count over all n variables when the root is the top one
        if n < 60 && f.get_level() == Some(n - 1) {
            let mut binom = vec![1u64];
            for _ in 0..n {
                let mut b = vec![1u64];
                for i in 1..binom.len() {
                    b.push(binom[i - 1] + binom[i]);
                }
                b.push(1);
                binom = b;
            }
            let want: u64 = binom.iter().skip(k).sum();
            ensure!(f.bdd_count(&[true]) == want, "{k}-out-of-{n} counts {}, expected {want}", f.bdd_count(&[true]));
        }
        let du = f.dual();
        if k >= 1 && k <= n {
            ensure!(du.eq(&m.kofn(n + 1 - k, &vs)), "the dual of {k}-out-of-{n} is not {}-out-of-{n}", n + 1 - k);
        }
        step!(ctx, "k={k} ord={ord:?}");
    }
    ctx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C13 counts and paths

pub fn counts(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(1, 9);
    let mut w = W::churning(n, &mut c);
    let declared_late = c.chance(1, 3);
    step!(ctx, "n={n}");
    let mut skipping = false;
    for words in &case.ops {
        let mut s = Src::new(words);
        w.stir(&mut s, ctx);
        let mut d = String::new();
        let (f, t) = any_fn(&w, &mut s, &mut d);
        let ss = SS[s.below(SS.len())];
        step!(ctx, "{d} ss={ss:?}");
        let want = expected_paths(&w, &f, &t, ss);
        let got = f.bdd_count(ss);
        ensure!(got == want.len() as u64, "count of {ss:?} is {got}, expected {}", want.len());
        let mut it = f.bdd_extract(ss);
        ensure!(it.len() == want.len() as u64, "enumerator length is {}, expected {}", it.len(), want.len());
        // paths may leave variables open as long as they are disjoint, sound and complete
        let lv = f.get_level().map_or(0, |l| l + 1);
        let mut cover = vec![0u32; 1 << lv];
        let mut steps = 0usize;
        while let Some(path) = it.next() {
            steps += 1;
            ensure!(steps <= 1 << lv, "enumeration does not end");
            if steps == 2 {
                it.len(); // asking in the middle does not disturb
            }
            let mut fixed: HashMap<usize, bool> = HashMap::new();
            for l in &path {
                let (name, b) = match w.idx.get(l) {
                    Some(&v) => (v, true),
                    None => (*l.strip_prefix('~').and_then(|x| w.idx.get(x)).ok_or_else(|| format!("path names unknown component {l:?}"))?, false),
                };
                ensure!(fixed.insert(name, b).is_none(), "path names a component twice: {path:?}");
                ensure!(name < lv, "path decides a component above the root: {path:?}");
            }
            for p in 0..1usize << lv {
                if fixed.iter().all(|(&v, &b)| (p >> v & 1 == 1) == b) {
                    cover[p] += 1;
                }
            }
        }
        ensure!(it.next().is_none(), "an exhausted enumerator yields again");
        for p in 0..1usize << lv {
            let inn = ss.contains(&(t[p] == 1));
            ensure!(cover[p] == inn as u32, "assignment {p:b} is covered {} times, expected {}", cover[p], inn as u32);
        }
        let sup = w.sp.support(&t).len();
        skipping |= lv > sup && sup >= 1;
        if declared_late && s.chance(1, 4) && w.labels.len() < n + 3 {
            // a later variable does not change counts over levels up to the root's
            let l = format!("late{}", w.labels.len());
            w.m.defvar(&l);
            ensure!(f.bdd_count(ss) == want.len() as u64, "declaring a variable changed the count");
            ensure!(f.bdd_extract(ss).count() == steps, "declaring a variable changed the enumeration");
        }
    }
    if skipping {
        ctx.class("skipped_levels");
    }
    ctx.nontrivial = skipping;
    Ok(())
}

/// Assignments of its own variables that make a read-once function true, and all of them.
fn ro_count(r: &RO) -> (u128, u128) {
    match r {
        RO::Var(_) => (1, 2),
        RO::Gate(k, ch) => {
            let mut d = vec![1u128];
            let mut all = 1;
            for x in ch {
                let (a, b) = ro_count(x);
                all *= b;
                let mut e = vec![0; d.len() + 1];
                for (i, &y) in d.iter().enumerate() {
                    e[i] += y * (b - a);
                    e[i + 1] += y * a;
                }
                d = e;
            }
            (d.iter().skip(ro_k(*k, ch.len())).sum(), all)
        }
    }
}

/// Counts and enumerations over up to 63 levels, against counts computed part by part.
pub fn counts_wide(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = if c.chance(1, 4) { c.range(55, 63) } else { c.range(12, 62) };
    let w = W { m: BssMgr::new(), v: vec![], sp: Space::new(&[]), churn: 0, spread: 0, hold: vec![], labels: (0..n).map(|i| format!("c{i}")).collect(), idx: (0..n).map(|i| (format!("c{i}"), i)).collect() };
    let mut w = w;
    for i in 0..n {
        let l = w.labels[i].clone();
        let x = w.m.defvar(&l);
        w.v.push(x);
    }
    w.m.bdd().set_gc_threshold([50, 5000, 1 << 16][c.below(3)]);
    step!(ctx, "n={n}");
    let mut nontrivial = false;
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        // two read-once functions over disjoint sets of variables, with gaps
        let dens = s.range(1, 8);
        let gap = s.chance(1, 3).then(|| (s.below(n), s.range(20, 50)));
        let mut vs: Vec<usize> = (0..n).filter(|&i| s.below(8) < dens && gap.map_or(true, |g| i < g.0 || i >= g.0 + g.1)).collect();
        if vs.len() < 2 {
            vs = vec![0, n - 1];
        }
        let cut = s.range(1, vs.len() - 1);
        let (ra, rb) = (read_once(&vs[..cut], &mut s, 0), read_once(&vs[cut..], &mut s, 0));
        let (fa, fb) = (ro_node(&ra, &w), ro_node(&rb, &w));
        let ((a, ta), (b, tb)) = (ro_count(&ra), ro_count(&rb));
        let op = s.below(3);
        let (f, yes) = match op {
            0 => (fa.and(&fb), a * b),
            1 => (fa.or(&fb), ta * tb - (ta - a) * (tb - b)),
            _ => (fa.xor(&fb), a * (tb - b) + (ta - a) * b),
        };
        let ev = |p: &dyn Fn(usize) -> bool| {
            let (x, y) = (ro_eval(&ra, &|v| p(v)), ro_eval(&rb, &|v| p(v)));
            match op {
                0 => x && y,
                1 => x || y,
                _ => x != y,
            }
        };
        let lv = vs[vs.len() - 1] + 1;
        ensure!(f.get_level() == Some(lv - 1), "{k}: root level {:?}, expected {}", f.get_level(), lv - 1);
        let all = 1u128 << lv;
        let yes = yes * (all / (ta * tb));
        step!(ctx, "{k}: {} variables up to level {}, op {op}, {yes} of {all}", vs.len(), lv - 1);
        let ask = SS[s.below(SS.len())];
        for ss in [&[true][..], &[false], ask] {
            let mut want = 0;
            if ss.contains(&true) {
                want += yes;
            }
            if ss.contains(&false) {
                want += all - yes;
            }
            let got = f.bdd_count(ss);
            ensure!(got as u128 == want, "{k}: count of {ss:?} is {got}, expected {want}");
            let mut it = f.bdd_extract(ss);
            ensure!(it.len() as u128 == want, "{k}: enumerator length for {ss:?} is {}, expected {want}", it.len());
            if !(ss.contains(&true) && ss.contains(&false)) && lv > 15 {
                continue; // the enumerator walks all assignments, wanted or not
            }
            if want == 0 {
                ensure!(it.next().is_none(), "{k}: enumeration of {ss:?} yields a path");
                continue;
            }
            // the first paths are disjoint and sound
            let mut seen: Vec<HashMap<usize, bool>> = vec![];
            for _ in 0..12 {
                let Some(path) = it.next() else { break };
                let mut fixed: HashMap<usize, bool> = HashMap::new();
                for l in &path {
                    let (v, b) = match l.strip_prefix('~') {
                        Some(x) => (w.idx.get(x), false),
                        None => (w.idx.get(l), true),
                    };
                    let v = *v.ok_or_else(|| format!("path names unknown component {l:?}"))?;
                    ensure!(v < lv && fixed.insert(v, b).is_none(), "{k}: path {path:?} repeats a component or decides one above the root");
                }
                for x in &seen {
                    ensure!(x.iter().any(|(v, b)| fixed.get(v).is_some_and(|c| c != b)), "{k}: two paths overlap");
                }
                for _ in 0..4 {
                    let r = s.u64();
                    let o = ev(&|v| fixed.get(&v).copied().unwrap_or(r >> (v % 64) & 1 == 1));
                    ensure!(ss.contains(&o), "{k}: a path of {ss:?} leads to {o}");
                }
                seen.push(fixed);
            }
            ensure!(!seen.is_empty(), "{k}: {want} assignments but no path");
        }
        nontrivial |= all > 1 << 32 && yes > 1 << 32;
    }
    if nontrivial {
        ctx.class("more_than_2^32");
    }
    ctx.nontrivial = nontrivial;
    Ok(())
}

/// Counts that fit in 64 bits of functions reaching far above level 63.
pub fn counts_sparse(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(60, 300);
    let mut w = W { m: BssMgr::new(), v: vec![], sp: Space::new(&[]), churn: 0, spread: 0, hold: vec![], labels: (0..n).map(|i| format!("c{i}")).collect(), idx: (0..n).map(|i| (format!("c{i}"), i)).collect() };
    for i in 0..n {
        let l = w.labels[i].clone();
        let x = w.m.defvar(&l);
        w.v.push(x);
    }
    w.m.bdd().set_gc_threshold([50, 5000, 1 << 16][c.below(3)]);
    step!(ctx, "n={n}");
    let mut nontrivial = false;
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        // the root is the last variable that is not left out
        let lv = if s.chance(1, 4) { s.range(n / 2, n) } else { n };
        let free: Vec<usize> = (0..s.below(20)).map(|_| s.below(lv - 1)).collect();
        let mut rest: Vec<usize> = (0..s.range(1, 25)).map(|_| s.below(lv)).filter(|v| !free.contains(v)).collect();
        rest.sort();
        rest.dedup();
        let split = s.below(lv - 1);
        let split = (s.chance(1, 2) && !free.contains(&split) && !rest.contains(&split)).then_some(split);
        // one cube, or two cubes that differ at `split`, each with a read-once function of the rest
        let open = |v: &usize| free.contains(v);
        let gap = { let mut f = free.clone(); f.sort(); f.dedup(); f.len() as u32 };
        let mut f = w.m.zero();
        let mut yes = 0u128;
        for side in 0..1 + split.is_some() as usize {
            let mut ls: Vec<BddNode> = vec![];
            let all_rest = s.chance(1, 5);
            for v in (0..lv).filter(|v| !open(v) && (all_rest || !rest.contains(v))) {
                let up = if Some(v) == split { side == 1 } else { s.chance(1, 2) };
                ls.push(if up { w.v[v].clone() } else { w.v[v].not() });
            }
            if s.chance(1, 2) {
                ls.reverse();
            }
            let mut g = w.m.and(&ls);
            let mut own = 1;
            if !all_rest && !rest.is_empty() {
                let r = read_once(&rest, &mut s, 0);
                own = ro_count(&r).0;
                g = ro_node(&r, &w).and(&g);
            }
            f = f.or(&g);
            yes += own << gap;
        }
        let negated = s.chance(1, 2);
        if negated {
            f = f.not();
        }
        step!(ctx, "{k}: up to level {}, {gap} left out, {} in parts, split {split:?}, negated {negated}: {yes}", lv - 1, rest.len());
        ensure!(f.get_level() == Some(lv - 1), "{k}: root level {:?}, expected {}", f.get_level(), lv - 1);
        for (ss, want) in [(&[!negated][..], yes), (&[], 0), (&[!negated, !negated], yes)] {
            let got = f.bdd_count(ss);
            ensure!(got as u128 == want, "{k}: count of {ss:?} is {got}, expected {want}");
            let it = f.bdd_extract(ss);
            ensure!(it.len() as u128 == want, "{k}: enumerator length for {ss:?} is {}, expected {want}", it.len());
        }
        nontrivial |= lv > 64;
    }
    ctx.nontrivial = nontrivial;
    Ok(())
}

// ------------------------------------------------------------------ C14 expressions

/// Names for saved sub-expressions, many of them easily mistaken for one another.
pub fn save_name(s: &mut Src, vars: &[String]) -> String {
    const G: [&[&str]; 10] = [
        &["a", "A", "a ", "aa", "b"],
        &["s1", "S1", "s01", "s10", "s"],
        &["1", "01", "1.0", "+1", "-1", "0"],
        &["", "(", ")", "()", "save(a)", "load(a)", "x)"],
        &["é", "e\u{301}", "É", "e", "ß", "ss"],
        &["sub_expression_number_one_a", "sub_expression_number_one_b", "sub_expression_number_one", "sub_expression_number_two_a"],
        &["x-y", "x_y", "xy", "x.y", "x,y"],
        &["&", "|", "?", "+", "&&", "=="],
        &["True", "False", "true", "TRUE"],
        &["a(b)", "a", "(b)", "a("],
    ];
    if s.chance(1, 8) && !vars.is_empty() {
        return vars[s.below(vars.len())].clone();
    }
    let g = G[if s.chance(1, 2) { s.below(2) } else { s.below(G.len()) }];
    g[s.below(g.len())].replace(' ', "_")
}

/// Appends a well-formed expression in reverse Polish order.
pub fn gen_expr(s: &mut Src, depth: usize, names: &[String], out: &mut Vec<String>, saved: &mut Vec<String>, root: bool) {
    if !root && !saved.is_empty() && s.chance(1, 6) {
        let i = s.below(saved.len());
        out.push(format!("load({})", saved[i]));
    } else if depth == 0 || s.chance(1, 7) {
        if names.is_empty() || s.chance(1, 10) {
            out.push(["0", "1", "False", "True"][s.below(4)].into());
        } else {
            out.push(names[s.below(names.len())].clone());
        }
    } else {
        match s.below(5) {
            k @ 0..=2 => {
                gen_expr(s, depth - 1, names, out, saved, false);
                gen_expr(s, depth - 1, names, out, saved, false);
                out.push(["&", "|", "^"][k].into());
            }
            3 => {
                gen_expr(s, depth - 1, names, out, saved, false);
                out.push("~".into());
            }
            _ => {
                for _ in 0..3 {
                    gen_expr(s, depth - 1, names, out, saved, false);
                }
                out.push("?".into());
            }
        }
    }
    if s.chance(1, 8) {
        let id = save_name(s, names);
        out.push(format!("save({id})"));
        if !saved.contains(&id) {
            saved.push(id);
        }
    }
}

/// Names that look like something else but are variables.
const ODD: [&str; 18] = ["save", "load", "TRUE", "true", "min", "+", "00", "-1", "||", "&&", "10", "x&y", "~x", "x~", "!", "0.5", "False1", "?x"];

/// Hundreds of tokens: operands first and operators later, deep stacks, long chains.
fn long_expr(s: &mut Src, names: &[String], out: &mut Vec<String>) {
    let len = s.range(30, 600);
    let mut saved: Vec<String> = vec![];
    let mut h = 0;
    let mut push = s.range(5, 95);
    for _ in 0..len {
        if s.chance(1, 60) {
            push = s.range(5, 95);
        }
        if h == 0 || s.below(100) < push {
            if !saved.is_empty() && s.chance(1, 8) {
                out.push(format!("load({})", saved[s.below(saved.len())]));
            } else if s.chance(1, 10) {
                out.push(["0", "1", "True", "False"][s.below(4)].into());
            } else {
                out.push(names[s.below(names.len())].clone());
            }
            h += 1;
        } else if h >= 3 && s.chance(1, 3) {
            out.push("?".into());
            h -= 2;
        } else if h >= 2 && s.chance(3, 4) {
            out.push(["&", "|", "^", "^", "^"][s.below(5)].into());
            h -= 1;
        } else {
            out.push("~".into());
        }
        if s.chance(1, 25) {
            let id = save_name(s, names);
            out.push(format!("save({id})"));
            saved.push(id);
        }
    }
    while h > 1 {
        let three = h > 2 && s.chance(1, 2);
        out.push(if three { "?" } else { ["&", "|", "^", "^", "^"][s.below(5)] }.into());
        h -= 1 + three as usize;
    }
}

/// Reference evaluation of a token list. `order` collects variables in order of first use.
pub fn rpn_model(toks: &[String], sp: &Space, idx: &HashMap<String, usize>, order: &mut Vec<String>) -> Result<Table, String> {
    let mut st: Vec<Table> = vec![];
    let mut saved: HashMap<String, Table> = HashMap::new();
    for t in toks {
        let under = || "missing operand".to_string();
        match t.as_str() {
            "0" | "False" => st.push(vec![0; sp.size]),
            "1" | "True" => st.push(vec![1; sp.size]),
            "&" | "|" | "^" => {
                let b = st.pop().ok_or_else(under)?;
                let a = st.pop().ok_or_else(under)?;
                st.push(map2(&a, &b, |x, y| match t.as_str() {
                    "&" => x && y,
                    "|" => x || y,
                    _ => x ^ y,
                }));
            }
            "~" => {
                let a = st.pop().ok_or_else(under)?;
                st.push(a.iter().map(|x| 1 - x).collect());
            }
            "?" => {
                let c = st.pop().ok_or_else(under)?;
                let b = st.pop().ok_or_else(under)?;
                let a = st.pop().ok_or_else(under)?;
                st.push((0..sp.size).map(|p| if a[p] == 1 { b[p] } else { c[p] }).collect());
            }
            x if x.starts_with("save(") && x.ends_with(')') => {
                saved.insert(x.into(), st.last().ok_or_else(under)?.clone());
            }
            x if x.starts_with("load(") && x.ends_with(')') => {
                let k = x.replacen("load(", "save(", 1);
                st.push(saved.get(&k).ok_or("unknown name")?.clone());
            }
            x => {
                let v = idx[x];
                if !order.contains(t) {
                    order.push(t.clone());
                }
                st.push((0..sp.size).map(|p| sp.digit(p, v) as i64).collect());
            }
        }
    }
    if st.len() == 1 {
        Ok(st.pop().unwrap())
    } else {
        Err(format!("{} nodes left", st.len()))
    }
}

pub fn join_ws(toks: &[String], s: &mut Src) -> String {
    let mut e = String::new();
    let pad = |s: &mut Src| ["", " ", "\t", " \n ", "\u{a0}"][s.below(5)].to_string();
    e.push_str(&pad(s));
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            e.push_str([" ", " ", " ", "  ", "\t", "\n", " \r\n", "\u{b}", "\u{c}", "\u{a0}", "\u{3000}", "\u{2003}", "\u{2028} "][if s.chance(1, 4) { s.below(13) } else { s.below(7) }]);
        }
        e.push_str(t);
    }
    e.push_str(&pad(s));
    e
}

/// Damage a token list: usually makes it malformed (the reference decides).
pub fn damage(toks: &mut Vec<String>, extra: &[&str], s: &mut Src) {
    for _ in 0..s.range(1, 2) {
        let i = s.below(toks.len() + 1);
        match s.below(5) {
            0 | 1 if !toks.is_empty() => {
                toks.remove(i.min(toks.len() - 1));
            }
            2 => toks.insert(i, extra[s.below(extra.len())].to_string()),
            3 => toks.truncate(i),
            _ => {
                toks.drain(..i.min(toks.len()));
            }
        }
    }
}

pub fn rpn_bdd(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(1, 6);
    let style = c.below(13);
    let rot = c.below(ODD.len());
    let names: Vec<String> = (0..n).map(|i| if style < 10 { label(STYLES[style], i) } else { ODD[(rot + 5 * i) % ODD.len()].to_string() }).collect();
    let idx: HashMap<String, usize> = names.iter().cloned().enumerate().map(|(i, l)| (l, i)).collect();
    let sp = Space::new(&vec![2; n]);
    let mut m = BssMgr::new();
    if c.chance(1, 2) {
        m.bdd().set_gc_threshold(c.below(40));
    }
    let mut order: Vec<String> = vec![];
    let mut held: Vec<(BddNode, Table)> = vec![];
    let (mut good, mut bad) = (0, 0);
    step!(ctx, "names={names:?}");
    for words in &case.ops {
        let mut s = Src::new(words);
        let mut toks = vec![];
        let depth = s.range(1, 4);
        if s.chance(1, 12) {
            long_expr(&mut s, &names, &mut toks);
            ctx.class("long_expression");
        } else {
            gen_expr(&mut s, depth, &names, &mut toks, &mut vec![], true);
        }
        if s.chance(2, 5) {
            damage(&mut toks, &["&", "|", "^", "~", "?", "load(q)", "save(q)", "0", "True", &names[0]], &mut s);
        }
        let e = join_ws(&toks, &mut s);
        let mut o2 = order.clone();
        let want = rpn_model(&toks, &sp, &idx, &mut o2);
        step!(ctx, "{e:?}");
        let got = m.rpn(&e);
        match (want, got) {
            (Ok(t), Ok(f)) => {
                good += 1;
                let g = dag(&f, &idx)?.table(&sp);
                ensure!(g == t, "{e:?} denotes {}, expected {}", show(&g), show(&t));
                order = o2;
                let vo = m.get_varorder();
                ensure!(vo == order, "variables are ordered {vo:?}, first appearances are {order:?}");
                held.push((f, t));
                if held.len() > 5 {
                    held.remove(0);
                }
            }
            (Err(_), Err(_)) => {
                bad += 1;
                let vo = m.get_varorder();
                ensure!(vo.len() >= order.len() && vo[..order.len()] == order[..], "a refused expression changed the variable order to {vo:?}");
                ensure!(vo.iter().collect::<HashSet<_>>().len() == vo.len() && vo.iter().all(|x| names.contains(x)), "a refused expression left a bad variable order {vo:?}");
                order = vo;
            }
            (Ok(_), Err(m)) => return Err(format!("well-formed {e:?} was refused: {m}")),
            (Err(m), Ok(_)) => return Err(format!("malformed {e:?} ({m}) was accepted")),
        }
        for (f, t) in &held {
            ensure!(dag(f, &idx)?.table(&sp) == *t, "an earlier result changed");
        }
    }
    if bad > 0 {
        ctx.class("malformed");
    }
    ctx.nontrivial = good >= 1 && case.ops.len() >= 2;
    Ok(())
}

// ------------------------------------------------------------------ C24/C25

pub fn parse_dot(txt: &str) -> Result<(BTreeMap<String, String>, BTreeSet<(String, String, String)>, Option<String>), String> {
    let body = txt.trim();
    ensure!(body.starts_with("digraph") && body.ends_with('}'), "not a digraph: {body:?}");
    let mut nodes: BTreeMap<String, String> = BTreeMap::new();
    let mut edges = BTreeSet::new();
    let mut first = None;
    let attr = |l: &str, k: &str| -> Option<String> {
        let i = l.find(&format!("{k}=\""))? + k.len() + 2;
        let j = l[i..].find('"')? + i;
        Some(l[i..j].to_string())
    };
    for l in body.lines().skip(1) {
        let l = l.trim();
        if l.is_empty() || l == "}" {
            continue;
        }
        let q: Vec<&str> = l.split('"').collect();
        ensure!(q.len() >= 3, "unreadable line {l:?}");
        if l.contains("\" -> \"") {
            let e = (q[1].to_string(), attr(l, "label").ok_or("edge without label")?, q[3].to_string());
            ensure!(edges.insert(e.clone()), "edge listed twice: {e:?}");
        } else {
            let name = q[1].to_string();
            if first.is_none() {
                first = Some(name.clone());
            }
            let lab = attr(l, "label").ok_or("node without label")?;
            ensure!(nodes.insert(name.clone(), lab).is_none(), "node {name} declared twice");
        }
    }
    Ok((nodes, edges, first))
}

/// Compare a DOT text with the diagram: expected node labels and expected edges.
pub fn check_dot(txt: &str, want_nodes: &BTreeMap<usize, String>, want_edges: &BTreeSet<(usize, usize, usize)>, root: usize) -> R {
    let (nodes, edges, _) = parse_dot(txt)?;
    // node names are arbitrary: match by walking from the root, whose name contains its id
    let name = |id: usize| format!("obj{id}");
    ensure!(nodes.contains_key(&name(root)), "the root is not declared in the graph");
    let got_n: BTreeMap<String, String> = nodes;
    let exp_n: BTreeMap<String, String> = want_nodes.iter().map(|(k, v)| (name(*k), v.clone())).collect();
    ensure!(got_n == exp_n, "graph declares nodes {:?}, diagram has {:?}", diff(&got_n, &exp_n), diff(&exp_n, &got_n));
    let exp_e: BTreeSet<(String, String, String)> = want_edges.iter().map(|(a, i, b)| (name(*a), i.to_string(), name(*b))).collect();
    ensure!(edges == exp_e, "graph edges differ: extra {:?}, missing {:?}", edges.difference(&exp_e).take(3).collect::<Vec<_>>(), exp_e.difference(&edges).take(3).collect::<Vec<_>>());
    Ok(())
}
fn diff(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> Vec<(String, String)> {
    a.iter().filter(|(k, v)| b.get(*k) != Some(v)).take(4).map(|(k, v)| (k.clone(), v.clone())).collect()
}

pub fn dot_bdd(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(1, 6);
    let w = W::churning(n, &mut c);
    step!(ctx, "n={n}");
    let mut most = 0;
    for words in &case.ops {
        let mut s = Src::new(words);
        w.stir(&mut s, ctx);
        let mut d = String::new();
        let (f, t) = any_fn(&w, &mut s, &mut d);
        step!(ctx, "{d}");
        let g = dag(&f, &w.idx)?;
        let mut wn = BTreeMap::new();
        let mut we = BTreeSet::new();
        for (&id, x) in &g.nodes {
            match *x {
                D::T(v) => {
                    wn.insert(id, v.to_string());
                }
                D::N { var, lo, hi, .. } => {
                    wn.insert(id, w.labels[var].clone());
                    we.insert((id, 0, lo));
                    we.insert((id, 1, hi));
                }
            }
        }
        check_dot(&f.dot(), &wn, &we, f.get_id())?;
        // read back and evaluate
        let (nodes, edges, _) = parse_dot(&f.dot())?;
        let next: HashMap<(String, String), String> = edges.into_iter().map(|(a, l, b)| ((a, l), b)).collect();
        for p in 0..w.sp.size {
            let mut x = format!("obj{}", f.get_id());
            for _ in 0..n + 1 {
                let l = &nodes[&x];
                if let Some(&v) = w.idx.get(l) {
                    if next.contains_key(&(x.clone(), "0".into())) || next.contains_key(&(x.clone(), "1".into())) {
                        x = next.get(&(x.clone(), w.sp.digit(p, v).to_string())).ok_or("missing branch")?.clone();
                        continue;
                    }
                }
                break;
            }
            ensure!(nodes[&x] == t[p].to_string(), "the graph evaluates to {} at {p:b}, the function to {}", nodes[&x], t[p]);
        }
        // the family of minimal paths as a graph
        if is_monotone(&t, n) {
            let z = w.m.minpath(&f).ok_or("refused")?;
            dot_family(&z)?;
        }
        most = most.max(g.nodes.len());
    }
    ctx.nontrivial = most >= 5;
    Ok(())
}

pub fn dot_family(z: &ZddNode) -> R {
    let mut wn = BTreeMap::new();
    let mut we = BTreeSet::new();
    let mut st = vec![z.clone()];
    let mut seen = HashSet::new();
    while let Some(x) = st.pop() {
        if !seen.insert(x.get_id()) {
            continue;
        }
        match x.get_children() {
            None => {
                wn.insert(x.get_id(), if x.is_zero() { "0".into() } else { "1".to_string() });
            }
            Some((lo, hi)) => {
                wn.insert(x.get_id(), x.get_label().ok_or("no label")?);
                for (i, ch) in [lo, hi].into_iter().enumerate() {
                    if !ch.is_zero() {
                        we.insert((x.get_id(), i, ch.get_id()));
                        st.push(ch);
                    }
                }
            }
        }
    }
    check_dot(&z.dot(), &wn, &we, z.get_id())
}

pub fn self_desc_bdd(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(1, 7);
    let mut w = W::new(n, &mut c);
    if c.chance(1, 2) {
        w.m.bdd().set_gc_threshold(c.below(30));
    }
    step!(ctx, "n={n}");
    let mut most = 0;
    let mut order: Vec<usize> = vec![];
    if n >= 5 && c.chance(1, 60) {
        for _ in 0..n {
            w.declare();
        }
        order = (0..n).collect();
        w.spread_out(&mut c);
        ctx.class("ids_beyond_16_bits");
    }
    for words in &case.ops {
        let mut s = Src::new(words);
        if s.chance(1, 2) {
            // declare (again): same node, next level for new ones
            let v = s.below(n);
            let x = w.m.defvar(&w.labels[v].clone());
            step!(ctx, "defvar {v}");
            if let Some(p) = order.iter().position(|&y| y == v) {
                ensure!(x.get_level() == Some(p), "declaring {v} again moved it to level {:?}", x.get_level());
                ensure!(x.eq(&w.m.defvar(&w.labels[v].clone())), "declaring a variable twice gives two nodes");
            } else {
                ensure!(x.get_level() == Some(order.len()), "a new variable took level {:?}, expected {}", x.get_level(), order.len());
                order.push(v);
            }
            ensure!(x.get_label().as_ref() == Some(&w.labels[v]), "variable {v} is labelled {:?}", x.get_label());
            ensure!(w.table(&x)? == w.var_table(v), "a variable's node does not denote the variable");
            let vo = w.m.get_varorder();
            let want: Vec<String> = order.iter().map(|&v| w.labels[v].clone()).collect();
            ensure!(vo == want, "variable order {vo:?}, declared {want:?}");
            continue;
        }
        // functions over declared variables, through rpn over names in any order
        let names: Vec<String> = order.iter().map(|&v| w.labels[v].clone()).collect();
        let mut toks = vec![];
        gen_expr(&mut s, 4, &names, &mut toks, &mut vec![], true);
        let e = toks.join(" ");
        step!(ctx, "{e}");
        let t = rpn_model(&toks, &w.sp, &w.idx, &mut vec![])?;
        let f = w.m.rpn(&e)?;
        let g = dag(&f, &w.idx)?;
        ensure!(g.table(&w.sp) == t, "expression value");
        // level = highest level of a variable the function depends on
        let sup: Vec<usize> = w.sp.support(&t).iter().map(|v| order.iter().position(|x| x == v).unwrap()).collect();
        ensure!(f.get_level() == sup.iter().max().copied(), "level is {:?}, support levels {sup:?}", f.get_level());
        ensure!(f.get_label() == sup.iter().max().map(|&l| w.labels[order[l]].clone()), "label is {:?}", f.get_label());
        // labels of nodes = support
        let used: BTreeSet<usize> = g.nodes.values().filter_map(|d| if let D::N { var, .. } = d { Some(*var) } else { None }).collect();
        let ws: BTreeSet<usize> = w.sp.support(&t).into_iter().collect();
        ensure!(used == ws, "the diagram mentions {used:?}, the function depends on {ws:?}");
        // size
        let nt = g.nodes.values().filter(|d| matches!(d, D::N { .. })).count() as u64;
        let te = g.nodes.len() as u64 - nt;
        ensure!(f.size() == (nt, te, 2 * nt), "size is {:?}, the diagram has ({nt}, {te}, {})", f.size(), 2 * nt);
        // children are the cofactors
        if let (Some((lo, hi)), Some(&top)) = (f.get_children(), sup.iter().max()) {
            let v = order[top];
            for (b, ch) in [(0usize, lo), (1, hi)] {
                let want: Table = (0..w.sp.size).map(|p| { let q = p & !(1 << v) | b << v; t[q] }).collect();
                ensure!(w.table(&ch)? == want, "child {b} is not the cofactor");
            }
        }
        // header round trip
        if let (Some(h), Some((lo, hi))) = (f.get_header(), f.get_children()) {
            ensure!(w.m.create_node(h, &lo, &hi).eq(&f), "re-creating a node from its parts gives another node");
        }
        ensure!(f.is_zero() == t.iter().all(|&x| x == 0) && f.is_one() == t.iter().all(|&x| x == 1) && !f.is_undet(), "constant tests");
        most = most.max(nt);
        if is_monotone(&t, n) {
            let z = w.m.minpath(&f).ok_or("refused")?;
            let fam = family(&z, &w.idx)?;
            let elems: BTreeSet<usize> = (0..n).filter(|i| fam.iter().any(|m| m >> i & 1 == 1)).collect();
            let top = elems.iter().map(|v| order.iter().position(|x| x == v).unwrap()).max();
            ensure!(z.get_level() == top, "family level {:?}, elements at {top:?}", z.get_level());
            ensure!(z.get_label() == top.map(|l| w.labels[order[l]].clone()), "family label {:?}", z.get_label());
            let mut ids = HashSet::new();
            let mut ntz = 0;
            let mut st = vec![z.clone()];
            while let Some(x) = st.pop() {
                if ids.insert(x.get_id()) {
                    if let Some((a, b)) = x.get_children() {
                        ntz += 1;
                        st.push(a);
                        st.push(b);
                    }
                }
            }
            ensure!(z.size() == (ntz, ids.len() as u64 - ntz, 2 * ntz), "family size is {:?}, the diagram has {} nodes", z.size(), ids.len());
        }
    }
    ctx.nontrivial = most >= 3;
    Ok(())
}

/// Hundreds of declared variables: order, labels, levels, nodes of functions over a few of
/// them, and families over a few of them.
pub fn self_desc_wide(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = if c.chance(1, 3) { c.range(250, 600) } else { c.range(20, 260) };
    let style = [0, 3, 4, 5, 6, 7, 8, 9, 10][c.below(9)];
    let n = if style == 7 { n.min(80) } else { n };
    let name = |i: usize| label(style, i);
    let mut m = BssMgr::new();
    if c.chance(1, 3) {
        m.bdd().set_gc_threshold(c.below(300));
    }
    step!(ctx, "n={n} style={style}");
    let mut order: Vec<String> = vec![];
    let mut v: Vec<BddNode> = vec![];
    let mut top_used = 0;
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        // declare the next batch (all that remain, last), with repeats in between
        let goal = if k * 3 >= case.ops.len() { n } else { (v.len() + s.range(1, n)).min(n) };
        while v.len() < goal {
            let i = v.len();
            let x = m.defvar(&name(i));
            ensure!(x.get_level() == Some(i) && x.get_label() == Some(name(i)), "variable number {i} has level {:?} and label {:?}, expected {:?}", x.get_level(), x.get_label(), name(i));
            v.push(x);
            order.push(name(i));
        }
        let j = s.below(v.len());
        ensure!(m.defvar(&name(j)).eq(&v[j]), "declaring {:?} again gives another node", name(j));
        let vo = m.get_varorder();
        ensure!(vo == order, "variable order differs from the declarations ({} against {} names; first difference {:?})", vo.len(), order.len(), vo.iter().zip(&order).position(|(a, b)| a != b));
        // a read-once chain over a few variables
        let mut vs: Vec<usize> = (0..s.range(1, 8)).map(|_| if s.chance(1, 2) { v.len() - 1 - s.below(v.len().min(20)) } else { s.below(v.len()) }).collect();
        vs.sort();
        vs.dedup();
        let and: Vec<bool> = vs.iter().map(|_| s.chance(1, 2)).collect();
        let mut f = v[vs[0]].clone();
        for (i, &x) in vs.iter().enumerate().skip(1) {
            f = if and[i] { f.and(&v[x]) } else { f.or(&v[x]) };
        }
        step!(ctx, "chain {vs:?} {and:?}");
        let top = *vs.last().unwrap();
        top_used = top_used.max(top);
        ensure!(f.size() == (vs.len() as u64, 2, 2 * vs.len() as u64), "a chain over {} variables has size {:?}", vs.len(), f.size());
        // walk down: each variable once, from the top
        let mut x = f.clone();
        for (i, &u) in vs.iter().enumerate().rev() {
            ensure!(x.get_level() == Some(u) && x.get_label() == Some(name(u)), "node at level {:?} labelled {:?}, expected level {u} and {:?}", x.get_level(), x.get_label(), name(u));
            let h = x.get_header().ok_or("no header")?;
            let (lo, hi) = x.get_children().ok_or("no children")?;
            ensure!(m.create_node(h, &lo, &hi).eq(&x), "re-creating a node from its parts gives another node");
            let (next, dead) = match (i, and[i]) {
                (0, _) => (hi.clone(), !lo.is_zero() || !hi.is_one()),
                (_, true) => (hi, !lo.is_zero()),
                (_, false) => (lo, !hi.is_one()),
            };
            ensure!(!dead, "a child at level {u} is not the cofactor");
            x = next;
        }
        // minimal path sets of the chain
        let z = m.minpath(&f).ok_or("refused")?;
        let idx: HashMap<String, usize> = vs.iter().enumerate().map(|(i, &u)| (name(u), i)).collect();
        let mut want = Fam::from([1]);
        for i in 1..vs.len() {
            want = if and[i] { want.iter().map(|p| p | 1 << i).collect() } else { want.into_iter().chain([1 << i]).collect() };
        }
        ensure!(z.get_level() == Some(top) && z.get_label() == Some(name(top)), "family level {:?} and label {:?}, expected {top} and {:?}", z.get_level(), z.get_label(), name(top));
        ensure!(family(&z, &idx)? == want, "minimal paths of the chain are {}, expected {}", show_fam(&family(&z, &idx)?), show_fam(&want));
    }
    ctx.nontrivial = top_used > 100;
    if top_used > 255 {
        ctx.class("above_level_255");
    }
    Ok(())
}

/// Two systems analysed in turn: neither ever notices the other.
pub fn twins(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(2, 6);
    let style = c.below(11);
    let mut ws = [W::styled(n, style), W::styled(n, if c.chance(1, 2) { style } else { c.below(11) })];
    for w in &mut ws {
        for _ in 0..n {
            w.declare();
        }
        if c.chance(1, 4) {
            w.m.bdd().set_gc_threshold(c.below(40));
        }
    }
    step!(ctx, "two systems of {n}");
    let mut asked = [0, 0];
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        let mut d = String::new();
        let fs: Vec<(BddNode, Table)> = ws
            .iter()
            .map(|w| match s.below(3) {
                0 => any_fn(w, &mut s, &mut d),
                _ => {
                    let t = monotone_table(w, &mut s);
                    (w.build(&t), t)
                }
            })
            .collect();
        let pz: HashMap<String, Zp> = ws.iter().flat_map(|w| w.labels.clone()).map(|l| (l, Zp(s.u64() % PRIME))).collect();
        let ss = SS[s.below(SS.len())];
        let what = s.below(6);
        step!(ctx, "{k}: [{}] and [{}], question {what}", show(&fs[0].1), show(&fs[1].1));
        for round in 0..s.range(2, 4) {
            let i = (round + k) % 2;
            let (w, (f, t)) = (&ws[i], &fs[i]);
            asked[i] += 1;
            match what {
                0 => ensure!(f.prob(&pz, ss) == prob_model(w, t, &pz, ss, None), "{k}: probability in system {i}"),
                1 => {
                    let b = f.bmeas(&pz, ss);
                    for v in w.sp.support(t) {
                        let want = prob_model(w, t, &pz, ss, Some((v, 1))) - prob_model(w, t, &pz, ss, Some((v, 0)));
                        ensure!(b.get(&w.labels[v]) == Some(&want), "{k}: importance of {v} in system {i}");
                    }
                }
                2 => {
                    let lv = f.get_level().map_or(0, |l| l + 1);
                    let want = (0..1usize << lv).filter(|&p| ss.contains(&(t[p] == 1))).count();
                    ensure!(f.bdd_count(ss) as usize == want, "{k}: count in system {i} is {}, expected {want}", f.bdd_count(ss));
                }
                3 => {
                    for cut in [false, true] {
                        let z = if cut { w.m.mincut(f) } else { w.m.minpath(f) };
                        ensure!(z.is_some() == is_monotone(t, n), "{k}: a family was {} in system {i}", if z.is_some() { "given" } else { "refused" });
                        if let Some(z) = z {
                            let want = if cut { min_cuts(t, n) } else { min_paths(t, n) };
                            ensure!(family(&z, &w.idx)? == want, "{k}: minimal sets in system {i}");
                            ensure!(z.count(&[true]) as usize == want.len(), "{k}: number of minimal sets in system {i}");
                        }
                    }
                }
                4 => {
                    let g = f.dual();
                    ensure!(w.table(&g)? == dual_table(t), "{k}: dual in system {i}");
                }
                _ => {
                    let v = s.below(n);
                    let g = f.and(&w.v[v]).xor(&f.not());
                    let vt = w.var_table(v);
                    let want: Table = (0..t.len()).map(|p| (t[p] & vt[p]) ^ (1 - t[p])).collect();
                    ensure!(w.table(&g)? == want, "{k}: a formula in system {i}");
                }
            }
            ensure!(w.table(f)? == *t, "{k}: the function of system {i} changed");
        }
    }
    ctx.nontrivial = asked[0] > 2 && asked[1] > 2;
    Ok(())
}
