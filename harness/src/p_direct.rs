//! The public analysis functions called directly: on core managers with variables declared in
//! any order, undetermined leaves and level gaps, and with number types wider than 64 bits.

use crate::engines::{dec, Bdd, Engine, Layout, Mt2, Val};
use crate::nums::*;
use crate::p_bss::{read_once, ro_node, ro_prob, Lcg, SS, W};
use crate::p_mss::{la_node, lattice, La, X};
use crate::pbt::*;
use crate::tables::*;
use crate::{ensure, step};
use bddcore::prelude::{BddHashMap, BddHashSet};
use bss::prelude::{bdd_count, BddNode};
use bss::zdd_count::zdd_count;
use mddcore::mtmdd2::Node as N2;
use mss::mdd_count::{mdd_count, mddnode_count};
use mss::prelude::MddNode;
use std::collections::{HashMap, HashSet};

type R = Result<(), String>;

fn bcount<T>(f: &BddNode, ss: &[bool]) -> T
where
    T: std::ops::Add<Output = T> + std::ops::Mul<Output = T> + Clone + From<u32>,
{
    bdd_count(&f.get_mgr().borrow(), ss, f.get_id(), &mut BddHashMap::default())
}
fn mcount<V: Val, T>(f: &MddNode<V>, ss: &HashSet<V>) -> T
where
    T: std::ops::Add<Output = T> + std::ops::Mul<Output = T> + Clone + From<u32>,
{
    mdd_count(&f.get_mgr().borrow(), &f.get_node(), ss)
}
/// Two ways of adding up many positive terms, in floating point.
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * b.abs()
}

// ------------------------------------------------------------------ C13 counts in any type

/// Counts of functions of up to 340 components, in numbers that hold them: modular (exact),
/// 128-bit where they fit, floating point.
pub fn bss_counts(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = if c.chance(1, 3) { c.range(2, 126) } else { c.range(65, 340) };
    let w = W::wide(n);
    w.m.bdd().set_gc_threshold([50, 5000, 1 << 16][c.below(3)]);
    step!(ctx, "n={n}");
    let half = Zp(2).pow(PRIME - 2);
    let p = vec![half; n];
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        let dens = s.range(1, 8);
        let gap = s.chance(1, 2).then(|| (s.below(n), s.range(20, 150)));
        let mut vs: Vec<usize> = (0..n).filter(|&i| s.below(8) < dens && gap.map_or(true, |g| i < g.0 || i >= g.0 + g.1)).collect();
        if vs.len() < 2 {
            vs = vec![0, n - 1];
        }
        let cut = s.range(1, vs.len() - 1);
        let (ra, rb) = (read_once(&vs[..cut], &mut s, 0), read_once(&vs[cut..], &mut s, 0));
        let (fa, fb) = (ro_node(&ra, &w), ro_node(&rb, &w));
        let (a, b) = (ro_prob(&ra, &p), ro_prob(&rb, &p));
        let one = Zp(1);
        let op = s.below(4);
        let (f, yes) = match op {
            0 => (fa.and(&fb), a * b),
            1 => (fa.or(&fb), one - (one - a) * (one - b)),
            2 => (fa.xor(&fb), a * (one - b) + (one - a) * b),
            _ => (fa.and(&fb.not()), a * (one - b)),
        };
        let lv = vs[vs.len() - 1] + 1;
        step!(ctx, "{k}: {} components up to level {}, op {op}", vs.len(), lv - 1);
        ensure!(f.get_level() == Some(lv - 1), "{k}: root level {:?}, expected {}", f.get_level(), lv - 1);
        let all = Zp(2).pow(lv as u64);
        let ask = SS[s.below(SS.len())];
        let mut fl = 0.0;
        for (i, ss) in [&[true][..], &[false], ask].into_iter().enumerate() {
            let mut want = Zp(0);
            if ss.contains(&true) {
                want = want + yes * all;
            }
            if ss.contains(&false) {
                want = want + (one - yes) * all;
            }
            let got: Zp = bcount(&f, ss);
            ensure!(got == want, "{k}: count of {ss:?} modulo 2^61-1 is {got:?}, expected {want:?}");
            let fp: F = bcount(&f, ss);
            if lv <= 126 {
                let u: U = bcount(&f, ss);
                ensure!((u.0 % PRIME as u128) as u64 == want.0, "{k}: count of {ss:?} is {}, which is not {want:?} modulo 2^61-1", u.0);
                ensure!(near(fp.0, u.0 as f64), "{k}: count of {ss:?} in floating point is {}, exactly {}", fp.0, u.0);
                if u.0 <= u64::MAX as u128 / 4 && lv <= 62 {
                    ensure!(f.bdd_count(ss) as u128 == u.0, "{k}: counts of {ss:?} in two types differ: {} and {}", f.bdd_count(ss), u.0);
                }
            }
            if i < 2 {
                fl += fp.0;
            }
        }
        ensure!(near(fl, 2f64.powi(lv as i32)), "{k}: the counts of both outcomes add up to {fl}, there are 2^{lv} assignments");
        ctx.nontrivial |= lv > 64;
    }
    Ok(())
}

// ------------------------------------------------------------------ C12, C13 core diagrams

/// Counts and duals of diagrams with undetermined leaves, whose variables were declared in
/// any order.
pub fn bdd_direct(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(1, 7);
    let sp = Space::new(&vec![2; n]);
    let mut lay = Layout::random(&sp.ranges, &mut c);
    let gaps = lay.levels[n - 1] + 1 != n;
    if gaps && c.chance(1, 2) {
        lay.levels = (0..n).collect();
    }
    let gaps = lay.levels[n - 1] + 1 != n;
    let mut e = Bdd::new(&lay);
    step!(ctx, "{lay:?}");
    let mut fs: Vec<(usize, Table)> = vec![];
    let mut kinds = HashSet::new();
    for words in &case.ops {
        let mut s = Src::new(words);
        let vals: &[i64] = if s.chance(1, 2) { &[0, 1, UNDET] } else { &[0, 1] };
        let t = if fs.is_empty() || s.chance(1, 2) { random_table(&sp, vals, &mut s) } else { fs[s.below(fs.len())].1.clone() };
        let f = e.build(&sp, 0, &t);
        step!(ctx, "{}", crate::p_bss::show(&t));
        fs.push((f, t.clone()));
        match s.below(4) {
            0 => {
                let d = bss::prelude::dual(&mut e.m, f, &mut BddHashMap::default());
                let want: Table = (0..sp.size).map(|p| match t[sp.size - 1 - p] { UNDET => UNDET, x => 1 - x }).collect();
                let got = e.table(&sp, d)?;
                ensure!(got == want, "the dual of {} is {}, expected {}", crate::p_bss::show(&t), crate::p_bss::show(&got), crate::p_bss::show(&want));
                let dd = bss::prelude::dual(&mut e.m, d, &mut BddHashMap::default());
                ensure!(dd == f, "the dual of the dual is another node");
                kinds.insert(0);
            }
            1 if !gaps => {
                let sup = sp.support(&t);
                let upto = sup.iter().max().map_or(1, |&v| sp.strides[v] * 2);
                let ss = SS[s.below(SS.len())];
                let want = (0..upto).filter(|&p| t[p] != UNDET && ss.contains(&(t[p] == 1))).count() as u128;
                let got: U = bdd_count(&e.m, ss, f, &mut BddHashMap::default());
                ensure!(got.0 == want, "count of {ss:?} in {} is {}, expected {want}", crate::p_bss::show(&t), got.0);
                kinds.insert(1);
            }
            2 => {
                let ins: Vec<(usize, Table)> = (0..s.range(0, 7)).map(|_| fs[s.below(fs.len())].clone()).filter(|f| !f.1.contains(&UNDET)).collect();
                let ids: Vec<usize> = ins.iter().map(|f| f.0).collect();
                let k = s.range(0, ins.len() + 2);
                let cnt = |p: usize| ins.iter().filter(|f| f.1[p] == 1).count();
                for (name, g, want) in [
                    ("and", bss::bdd_kofn::and(&mut e.m, &ids), (0..sp.size).map(|p| (cnt(p) == ins.len()) as i64).collect::<Table>()),
                    ("or", bss::bdd_kofn::or(&mut e.m, &ids), (0..sp.size).map(|p| (cnt(p) > 0) as i64).collect()),
                    ("kofn", bss::bdd_kofn::kofn(&mut e.m, k, &ids), (0..sp.size).map(|p| (cnt(p) >= k) as i64).collect()),
                ] {
                    let got = e.table(&sp, g)?;
                    ensure!(got == want, "{name} (k={k}) over {} inputs is {}, expected {}", ins.len(), crate::p_bss::show(&got), crate::p_bss::show(&want));
                }
                kinds.insert(2);
            }
            _ if !t.contains(&UNDET) => {
                let pz: HashMap<String, Zp> = (0..n).map(|v| (format!("x{v}"), Zp(s.u64() % PRIME))).collect();
                let ss = SS[s.below(SS.len())];
                let weigh = |fix: Option<(usize, usize)>| {
                    (0..sp.size).filter(|&p| ss.contains(&(t[p] == 1)) && fix.map_or(true, |(v, d)| sp.digit(p, v) == d)).fold(Zp(0), |a, p| {
                        a + (0..n).filter(|&v| fix.map_or(true, |f| f.0 != v)).fold(Zp(1), |w, v| {
                            let x = pz[&format!("x{v}")];
                            w * if sp.digit(p, v) == 1 { x } else { Zp(1) - x }
                        })
                    })
                };
                let got = bss::bdd_prob::prob(&e.m, f, &pz, ss, &mut BddHashMap::default());
                ensure!(got == weigh(None), "probability of {ss:?} is {got:?}, summing states gives {:?}", weigh(None));
                let b = bss::bdd_prob::bmeas(&e.m, ss, f, &pz);
                let sup = sp.support(&t);
                for v in 0..n {
                    let want = weigh(Some((v, 1))) - weigh(Some((v, 0)));
                    match b.get(&format!("x{v}")) {
                        Some(x) => ensure!(*x == want, "measure of x{v} is {x:?}, expected {want:?}"),
                        None => ensure!(!sup.contains(&v), "no measure of x{v}, on which the function depends"),
                    }
                }
                kinds.insert(3);
            }
            _ => {
                let mut seen = BddHashSet::default();
                let (nn, nt, ne): (U, U, U) = bss::prelude::node_count(&e.m, f, &mut seen);
                let ids = e.reach(&[f])?;
                let inner = ids.iter().filter(|&&x| !matches!(e.raw(x), Ok(crate::engines::N::T(_)))).count() as u128;
                ensure!((nn.0, nt.0, ne.0) == (inner, ids.len() as u128 - inner, 2 * inner + 1), "counted {nn:?} nodes, {nt:?} terminals, {ne:?} references; the diagram has {inner} and {} nodes", ids.len());
            }
        }
        if s.chance(1, 6) {
            let keep: Vec<usize> = fs.iter().map(|f| f.0).collect();
            e.gc(&keep);
            step!(ctx, "gc");
        }
    }
    ctx.nontrivial = kinds.len() >= 2 && n >= 2;
    Ok(())
}

// ------------------------------------------------------------------ C19, C20, C23 core diagrams

/// Probabilities, measures and counts of combined diagrams whose variables were declared in
/// any order.
pub fn mt2_direct<V: Val>(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let ranges = random_ranges(&mut c, 4, 200, false);
    let sp = Space::new(&ranges);
    let n = sp.n();
    let mut lay = Layout::random(&ranges, &mut c);
    if c.chance(1, 2) {
        lay.levels = (0..n).collect();
    }
    let gaps = lay.levels[n - 1] + 1 != n;
    let mut e = Mt2::<V>::new(&lay);
    step!(ctx, "{lay:?}");
    let mut fs: Vec<usize> = vec![];
    let mut kinds = HashSet::new();
    for words in &case.ops {
        let mut s = Src::new(words);
        let sort = s.chance(1, 3) as u8;
        let mut vals = Mt2::<V>::vals(sort);
        if s.chance(1, 2) {
            vals.pop();
        }
        let t = random_table(&sp, &vals, &mut s);
        let f = e.build(&sp, sort, &t);
        fs.push(f);
        let node: N2 = dec(f);
        let want_set: Vec<i64> = match s.below(4) {
            0 => vec![],
            1 => vec![1],
            2 => vec![0, 2, 7],
            _ => (0..s.range(1, 4)).map(|_| [0, 1, 2, -1, 3, -4, 7, 5][s.below(8)]).collect(),
        };
        let ss: HashSet<V> = want_set.iter().map(|&v| V::of(v)).collect();
        let hit = |p: usize| t[p] != UNDET && want_set.contains(&t[p]);
        step!(ctx, "sort {sort} {t:?} ss={want_set:?}");
        match s.below(3) {
            0 if !gaps => {
                let sup = sp.support(&t);
                let upto = sup.iter().max().map_or(1, |&v| sp.strides[v] * sp.ranges[v]);
                let want = (0..upto).filter(|&p| hit(p)).count() as u128;
                let got: U = mdd_count(&e.m, &node, &ss);
                ensure!(got.0 == want, "count is {}, expected {want}", got.0);
                kinds.insert(0);
            }
            0 => {
                let (nn, nt, ne): (Zi, Zi, Zi) = mddnode_count(&e.m, &node);
                let ids = e.reach(&[f])?;
                let (mut inner, mut edges) = (0, 0);
                for &x in &ids {
                    if let crate::engines::N::NT { ch, .. } = e.raw(x)? {
                        inner += 1;
                        edges += ch.len();
                    }
                }
                ensure!((nn.0, nt.0, ne.0) == (inner, (ids.len() - inner as usize) as i128, edges as i128), "counted {nn:?} nodes, {nt:?} terminals, {ne:?} edges; there are {inner} of {} nodes and {edges} edges", ids.len());
            }
            _ => {
                let pz: HashMap<String, Vec<Zp>> = (0..n)
                    .map(|v| {
                        let mut d: Vec<Zp> = (1..ranges[v]).map(|_| Zp(s.u64() % PRIME)).collect();
                        d.push(d.iter().fold(Zp(1), |a, &x| a - x));
                        (format!("x{v}"), d)
                    })
                    .collect();
                let pv: Vec<&Vec<Zp>> = (0..n).map(|v| &pz[&format!("x{v}")]).collect();
                let mut total = Zp(0);
                // conditional sums per variable and state
                let mut cond: Vec<Vec<Zp>> = ranges.iter().map(|&r| vec![Zp(0); r]).collect();
                for p in (0..sp.size).filter(|&p| hit(p)) {
                    let w: Vec<Zp> = (0..n).map(|v| pv[v][sp.digit(p, v)]).collect();
                    total = total + w.iter().fold(Zp(1), |a, &x| a * x);
                    for v in 0..n {
                        let o = (0..n).filter(|&u| u != v).fold(Zp(1), |a, u| a * w[u]);
                        cond[v][sp.digit(p, v)] = cond[v][sp.digit(p, v)] + o;
                    }
                }
                let got = mss::mdd_prob::prob(&mut e.m, &node, &pz, &ss);
                ensure!(got == total, "probability is {got:?}, summing states gives {total:?}");
                let b = mss::mdd_prob::bmeas(&mut e.m, &node, &pz, &ss);
                let sup = sp.support(&t);
                for v in 0..n {
                    let want: Vec<Zp> = cond[v].windows(2).map(|x| x[1] - x[0]).collect();
                    match b.get(&format!("x{v}")) {
                        Some(x) => ensure!(*x == want, "measure of x{v} is {x:?}, expected {want:?}"),
                        None => ensure!(!sup.contains(&v), "no measure of x{v}, on which the function depends"),
                    }
                }
                kinds.insert(1);
            }
        }
        if s.chance(1, 6) {
            e.gc(&fs);
            step!(ctx, "gc");
        }
    }
    ctx.nontrivial = kinds.contains(&1) && n >= 2;
    Ok(())
}
pub fn mss_direct(c: &Case, x: &mut Ctx) -> R {
    if c.cfg[11] % 2 == 0 {
        mt2_direct::<i32>(c, x)
    } else {
        mt2_direct::<i64>(c, x)
    }
}

// ------------------------------------------------------------------ C23 counts in any type

/// Share of the assignments at which the lattice reaches level j at least.
fn share(r: &La, j: usize, ranges: &[usize], inv: &[Zp]) -> Zp {
    match r {
        La::Var(v) => Zp(ranges[*v].saturating_sub(j) as u64) * inv[ranges[*v]],
        La::Gate(k, ch) => {
            let q = ch.iter().map(|c| share(c, j, ranges, inv));
            if *k == 1 {
                Zp(1) - q.fold(Zp(1), |a, x| a * (Zp(1) - x))
            } else {
                q.fold(Zp(1), |a, x| a * x)
            }
        }
    }
}

/// Counts of functions of up to 340 components with mixed numbers of states.
pub fn mss_counts(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = if c.chance(1, 2) { c.range(2, 60) } else { c.range(60, 340) };
    let m = c.range(2, 6);
    let ranges: Vec<usize> = (0..n).map(|_| c.range(2, m)).collect();
    let w: X<i32> = X::wide(&ranges);
    if c.chance(1, 3) {
        w.m.set_gc_threshold(c.range(10, 3000));
    }
    let inv: Vec<Zp> = (0..=m).map(|r| Zp(r as u64).pow(PRIME - 2)).collect();
    step!(ctx, "components of {ranges:?} states");
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        let dens = s.range(1, 8);
        let gap = s.chance(1, 2).then(|| (s.below(n), s.range(20, 150)));
        let mut vs: Vec<usize> = (0..n).filter(|&i| s.below(8) < dens && gap.map_or(true, |g| i < g.0 || i >= g.0 + g.1)).collect();
        if vs.len() < 2 {
            vs = vec![0, n - 1];
        }
        let r = lattice(&vs, &mut s, 0);
        let f = la_node(&r, &w);
        let reach: Vec<Zp> = (0..=m).map(|j| if j == 0 { Zp(1) } else { share(&r, j, &ranges, &inv) }).collect();
        step!(ctx, "{k}: {} components", vs.len());
        let total = |g: &MddNode<i32>| g.get_level().map_or((Zp(1), 1.0), |l| ranges[..=l].iter().fold((Zp(1), 1.0), |a, &x| (a.0 * Zp(x as u64), a.1 * x as f64)));
        ensure!(f.get_level() == vs.last().copied(), "{k}: root level {:?}, expected {:?}", f.get_level(), vs.last());
        let ss: Vec<usize> = (0..m).filter(|_| s.chance(1, 2)).collect();
        let set: HashSet<i32> = ss.iter().map(|&x| x as i32).chain([99]).collect();
        let want = ss.iter().fold(Zp(0), |a, &j| a + reach[j] - reach[j + 1]) * total(&f).0;
        let got: Zp = mcount(&f, &set);
        ensure!(got == want, "{k}: count of {ss:?} modulo 2^61-1 is {got:?}, expected {want:?}");
        let small = total(&f).1 < 1e37;
        let exact = |g: &MddNode<i32>, set: &HashSet<i32>, want: Zp| -> R {
            let u: U = mcount(g, set);
            ensure!((u.0 % PRIME as u128) as u64 == want.0, "{k}: count of {set:?} is {}, which is not {want:?} modulo 2^61-1", u.0);
            let x: F = mcount(g, set);
            ensure!(near(x.0, u.0 as f64), "{k}: count of {set:?} in floating point is {}, exactly {}", x.0, u.0);
            Ok(())
        };
        if small {
            exact(&f, &set, want)?;
        }
        // the Boolean function "at least level j"
        let j = s.range(1, m - 1);
        let b = f.ge(&w.m.value(j as i32));
        for one in [true, false] {
            let set: HashSet<i32> = [one as i32].into_iter().collect();
            let want = (if one { reach[j] } else { Zp(1) - reach[j] }) * total(&b).0;
            let got: Zp = mcount(&b, &set);
            ensure!(got == want, "{k}: count of {one} of \"at least {j}\" modulo 2^61-1 is {got:?}, expected {want:?}");
            if small {
                exact(&b, &set, want)?;
            }
        }
        ctx.nontrivial |= total(&f).1 > 2e19;
    }
    Ok(())
}

// ------------------------------------------------------------------ C08 counts in any type

/// Numbers of members beyond 64 bits: products of families over disjoint elements.
pub fn family_counts(case: &Case, ctx: &mut Ctx) -> R {
    let mut c = Src::new(&case.cfg);
    let n = c.range(10, 300);
    let labels: Vec<String> = (0..n).map(|i| format!("e{i}")).collect();
    let mut z = bss::prelude::ZddMgr::new();
    z.set_gc_threshold([0, 300, 1 << 16][c.below(3)]);
    // levels in the order of the elements: blocks do not interleave
    for l in &labels {
        z.singleton(l);
    }
    step!(ctx, "{n} elements");
    let mut lcg = Lcg(c.u64());
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        // blocks of consecutive elements (declaration order of the family manager)
        let mut at = 0;
        let mut f = z.base();
        let mut size = Zp(1);
        let mut fsize = 1.0f64;
        let mut small = 1u128;
        let mut member: Vec<String> = vec![];
        while at + 6 < n {
            let b = s.range(1, 6);
            let cnt = s.range(1, 1 << b.min(3));
            let mut sets = HashSet::new();
            for _ in 0..cnt {
                sets.insert(lcg.next() % (1 << b));
            }
            let sets: Vec<usize> = sets.into_iter().collect();
            let lists: Vec<Vec<String>> = sets.iter().map(|&x| (0..b).filter(|i| x >> i & 1 == 1).map(|i| labels[at + i].clone()).collect()).collect();
            member.extend(lists[0].iter().cloned());
            let g = z.from_sets(&lists);
            f = f.product(&g);
            size = size * Zp(sets.len() as u64);
            fsize *= sets.len() as f64;
            if fsize < 1e37 {
                small *= sets.len() as u128;
            }
            at += b + s.below(4);
        }
        step!(ctx, "{k}: about {fsize:e} members");
        let minus = s.chance(1, 2);
        if minus {
            f = f.setdiff(&z.from_sets(&[member]));
            size = size - Zp(1);
            small -= 1;
            fsize -= 1.0;
        }
        let got: Zp = zdd_count(&f.get_mgr().borrow(), &[true], f.get_id(), &mut BddHashMap::default());
        ensure!(got == size, "{k}: number of members modulo 2^61-1 is {got:?}, expected {size:?}");
        let none: Zp = zdd_count(&f.get_mgr().borrow(), &[], f.get_id(), &mut BddHashMap::default());
        ensure!(none == Zp(0), "{k}: {none:?} members counted when nothing was asked for");
        if fsize < 1e37 {
            let got: U = zdd_count(&f.get_mgr().borrow(), &[true], f.get_id(), &mut BddHashMap::default());
            ensure!(got.0 == small, "{k}: number of members is {}, expected {small}", got.0);
            if small < 1 << 63 {
                ensure!(f.count(&[true]) as u128 == small, "{k}: number of members is {}, expected {small}", f.count(&[true]));
            }
        }
        ctx.nontrivial |= fsize > 2e19;
    }
    Ok(())
}
