//! Model-based histories over the core engines: build, operate, drop, collect, clear, rebuild.

use crate::engines::*;
use crate::pbt::*;
use crate::tables::*;
use crate::{ensure, step};
use std::collections::{HashMap, HashSet};

pub struct HistOpts {
    pub max_vars: usize,
    pub max_size: usize,
    /// weights: leaf table, operate, drop, gc, clear cache, rebuild known table, repeat last op, literal
    pub w: [u32; 8],
    pub exact_gc: bool,
    pub undet: bool,
    pub pool: usize,
    /// Always use about the largest space allowed.
    pub big: bool,
    /// More nodes than fit 16 bits; operations of a huge diagram with small ones.
    pub huge: bool,
}

const W_OPS: [u32; 8] = [4, 12, 1, 0, 1, 1, 1, 2];
const W_GC: [u32; 8] = [5, 10, 5, 5, 0, 4, 2, 2];
const W_CANON: [u32; 8] = [5, 10, 2, 2, 1, 6, 1, 2];
const W_CACHE: [u32; 8] = [4, 12, 1, 1, 3, 2, 5, 2];
const W_HUGE: [u32; 8] = [10, 14, 3, 3, 0, 2, 2, 2];

struct Ent {
    id: usize,
    t: Table,
    sort: u8,
}

fn show(t: &[i64]) -> String {
    let f: Vec<String> = t.iter().take(32).map(|&x| if x == UNDET { "u".into() } else { x.to_string() }).collect();
    format!("{}{}", f.join(","), if t.len() > 32 { ",…" } else { "" })
}

fn vals_for<E: Engine>(sort: u8, undet: bool, s: &mut Src) -> Vec<i64> {
    let mut v = vals_small::<E>(sort, undet, s);
    let big = E::big_vals(sort);
    if !big.is_empty() && s.chance(1, 8) {
        v.truncate(3);
        for _ in 0..s.range(1, 5) {
            v.push(big[s.below(big.len())]);
        }
    }
    v
}

fn vals_small<E: Engine>(sort: u8, undet: bool, s: &mut Src) -> Vec<i64> {
    let mut v = E::vals(sort);
    if !undet {
        v.retain(|&x| x != UNDET || E::ZERO_SUPPRESSED);
    }
    if v.len() > 2 && s.chance(1, 2) {
        // fewer distinct leaves: more sharing
        let k = s.range(2, v.len());
        let off = s.below(v.len());
        v.rotate_left(off);
        v.truncate(k);
    }
    v
}

/// A table with tens of thousands of distinct sub-functions: random leaves, or random leaves
/// under a variable one of whose states always gives the same leaf.
fn huge_table(sp: &Space, vals: &[i64], s: &mut Src) -> Table {
    let mut st = s.u64() | 1;
    let mut rnd = || {
        st ^= st << 13;
        st ^= st >> 7;
        st ^= st << 17;
        (st >> 33) as usize
    };
    let k = vals.len();
    let mut t: Table = (0..sp.size).map(|_| vals[rnd() % k]).collect();
    if s.chance(1, 2) {
        // where about the most distinct sub-functions are
        let v = (0..sp.n()).find(|&v| sp.strides[v] * 2 >= 24).unwrap_or(0) + s.below(2);
        let v = v.min(sp.n() - 1);
        let (d, x) = (s.below(sp.ranges[v]), vals[s.below(k)]);
        for p in 0..sp.size {
            if sp.digit(p, v) == d {
                t[p] = x;
            }
        }
    }
    t
}

fn recycle<E: Engine>(e: &mut E, sp: &Space, pool: &mut Vec<Ent>, dropped: &mut Vec<(Table, u8)>, undet: bool, s: &mut Src) -> Result<Option<String>, String> {
    let op = s.below(E::ops().len());
    let (name, sig, _) = E::ops()[op];
    if E::NAME == "zdd" && op >= 3 && sp.size > 1 << 15 {
        return Ok(None); // the model is quadratic
    }
    let mut ix = vec![];
    for &so in sig {
        let cand: Vec<usize> = (0..pool.len()).filter(|&i| pool[i].sort == so).collect();
        if cand.is_empty() {
            return Ok(None);
        }
        ix.push(cand[s.below(cand.len())]);
    }
    if s.chance(1, 2) {
        e.gc(&pool.iter().map(|x| x.id).collect::<Vec<_>>());
    }
    let args: Vec<usize> = ix.iter().map(|&i| pool[i].id).collect();
    let ts: Vec<Table> = ix.iter().map(|&i| pool[i].t.clone()).collect();
    let j = s.below(sig.len());
    let calc = |e: &mut E, args: &[usize], ts: &[&Table]| -> Result<Option<(usize, Table)>, String> {
        let exp = E::model(op, sp, ts);
        if exp.iter().any(|&p| p == P::Skip) {
            return Ok(None);
        }
        let id = e.apply(op, args);
        let got = e.table(sp, id).map_err(|m| format!("{name}{args:?}: {m}"))?;
        for p in 0..sp.size {
            if let P::V(v) = exp[p] {
                ensure!(
                    got[p] == v,
                    "{name}{args:?} at point {:?}: operands {:?}, expected {}, got {}",
                    sp.point(p),
                    ts.iter().map(|t| show(&[t[p]])).collect::<Vec<_>>(),
                    show(&[v]),
                    show(&[got[p]])
                );
            }
        }
        Ok(Some((id, got)))
    };
    let Some((rid, rt)) = calc(e, &args, &ts.iter().collect::<Vec<_>>())? else {
        return Ok(None);
    };
    if s.chance(1, 2) {
        pool.push(Ent { id: rid, sort: e.sort(rid), t: rt });
    }
    // the operand goes, and at times everything else of its sort that is not an operand
    let (gone, so) = (args[j], sig[j]);
    let others: HashSet<usize> = args.iter().copied().filter(|&a| a != gone).collect();
    let all = s.chance(1, 2);
    let mut kept = vec![];
    for x in pool.drain(..) {
        if x.id == gone && x.sort == so || all && x.sort == so && !others.contains(&x.id) {
            dropped.push((x.t, x.sort));
        } else {
            kept.push(x);
        }
    }
    *pool = kept;
    e.gc(&pool.iter().map(|x| x.id).collect::<Vec<_>>());
    let vals = {
        let mut v = E::vals(so);
        if !undet {
            v.retain(|&x| x != UNDET || E::ZERO_SUPPRESSED);
        }
        v
    };
    let mut hit = 0;
    for _ in 0..s.range(2, 5) {
        let t: Table = match s.below(3) {
            0 => {
                let mut t = ts[j].clone();
                for _ in 0..s.range(1, 3) {
                    let p = s.below(sp.size);
                    t[p] = vals[s.below(vals.len())];
                }
                t
            }
            1 => {
                // a permutation of the leaves
                let (a, b) = (vals[s.below(vals.len())], vals[s.below(vals.len())]);
                ts[j].iter().map(|&x| if x == a { b } else if x == b { a } else { x }).collect()
            }
            _ => random_table(sp, &vals, s),
        };
        let id = e.build(sp, so, &t);
        hit += (id == gone) as usize;
        let mut a2 = args.clone();
        let mut t2: Vec<&Table> = ts.iter().collect();
        for i in 0..args.len() {
            if args[i] == gone && sig[i] == so {
                a2[i] = id;
                t2[i] = &t;
            }
        }
        let r = calc(e, &a2, &t2)?;
        pool.push(Ent { id, t: t.clone(), sort: so });
        if let Some((id, t)) = r {
            if s.chance(1, 3) {
                pool.push(Ent { id, sort: e.sort(id), t });
            }
        }
    }
    while pool.len() > 14 {
        let x = pool.remove(0);
        dropped.push((x.t, x.sort));
    }
    // same function <=> same node
    for i in 0..pool.len() {
        for j in 0..i {
            let (x, y) = (&pool[i], &pool[j]);
            ensure!(x.sort != y.sort || (x.t == y.t) == (x.id == y.id), "nodes {} and {} denote [{}] and [{}]", x.id, y.id, show(&x.t), show(&y.t));
        }
    }
    Ok(Some(format!("{name}{args:?} operand {j} ({hit} reused)")))
}

pub fn history<E: Engine>(case: &Case, ctx: &mut Ctx, o: &HistOpts) -> Result<(), String> {
    let mut c = Src::new(&case.cfg);
    let max_vars = if E::BINARY || o.big { o.max_vars } else { o.max_vars.min(7) };
    let ranges = if o.big { big_ranges(&mut c, max_vars, o.max_size, E::BINARY) } else { random_ranges(&mut c, max_vars, o.max_size, E::BINARY) };
    let lay = Layout::random(&ranges, &mut c);
    let sp = Space::new(&ranges);
    let undet = o.undet && E::undet_ok() && c.chance(1, 3);
    step!(ctx, "{} ranges={:?} levels={:?} declared={:?} undet={}", E::NAME, ranges, lay.levels, lay.order, undet);
    let mut e = E::new(&lay);
    let mut pool: Vec<Ent> = vec![];
    let mut dropped: Vec<(Table, u8)> = vec![];
    let mut last: Option<(usize, Vec<usize>, Vec<Table>)> = None;
    let mut gcs = 0;
    let mut ops_after_gc = 0;
    let mut nops = 0;
    let mut reused = false;
    let mut rebuilt = false;
    let mut most_cached = 0;
    let mut most_slots = 0;
    let sorts = E::nsorts();

    fn add<E: Engine>(pool: &mut Vec<Ent>, e: &E, id: usize, t: Table, what: &str, dropped: &mut Vec<(Table, u8)>, cap: usize) -> Result<(), String> {
        let sort = e.sort(id);
        for x in pool.iter() {
            if x.sort != sort {
                continue;
            }
            if x.t == t && x.id != id {
                return Err(format!("{what}: two nodes {} and {id} denote the same function [{}]", x.id, show(&t)));
            }
            if x.t != t && x.id == id {
                return Err(format!("{what}: node {id} denotes both [{}] and [{}]", show(&x.t), show(&t)));
            }
        }
        pool.push(Ent { id, t, sort });
        if pool.len() > cap {
            let x = pool.remove(0);
            dropped.push((x.t, x.sort));
        }
        Ok(())
    }

    for (k, w) in case.ops.iter().enumerate() {
        let mut s = Src::new(w);
        let before = e.arenas();
        match s.weighted(&o.w) {
            0 => {
                let sort = s.below(sorts as usize) as u8;
                let vals = vals_for::<E>(sort, undet, &mut s);
                let t: Table = if o.huge && s.chance(2, 3) {
                    huge_table(&sp, &vals, &mut s)
                } else if o.big && s.chance(1, 2) {
                    let u: Table = (0..sp.size).map(|_| vals[s.below(vals.len())]).collect();
                    u
                } else {
                    random_table(&sp, &vals, &mut s)
                };
                let id = e.build(&sp, sort, &t);
                step!(ctx, "{k}:#{id}=table[{}]", show(&t));
                let got = e.table(&sp, id)?;
                ensure!(got == t, "built diagram denotes [{}], expected [{}]", show(&got), show(&t));
                add(&mut pool, &e, id, t, "build", &mut dropped, o.pool)?;
            }
            1 => {
                let mut op = s.below(E::ops().len());
                if o.huge && s.chance(1, 3) {
                    // selection is one operation among many but recurs the deepest
                    let ites: Vec<usize> = (0..E::ops().len()).filter(|&i| E::ops()[i].1.len() == 3).collect();
                    if !ites.is_empty() {
                        op = ites[s.below(ites.len())];
                    }
                }
                let (name, sig, _) = E::ops()[op];
                let mut args = vec![];
                let mut ts = vec![];
                for &so in sig {
                    let cand: Vec<usize> = (0..pool.len()).filter(|&i| pool[i].sort == so).collect();
                    if cand.is_empty() {
                        break;
                    }
                    // prefer recent entries half of the time
                    let i = if s.chance(1, 2) { cand[cand.len() - 1 - s.below(cand.len().min(4))] } else { cand[s.below(cand.len())] };
                    args.push(pool[i].id);
                    ts.push(pool[i].t.clone());
                }
                if args.len() < sig.len() {
                    continue;
                }
                if o.huge && s.chance(1, 2) {
                    // all but one operand constant, as a huge diagram meets them
                    let keep = if sig.len() == 3 && s.chance(2, 3) { 0 } else { s.below(sig.len()) };
                    for i in (0..sig.len()).filter(|&i| i != keep) {
                        let mut vals = vals_small::<E>(sig[i], undet, &mut s);
                        if s.chance(3, 4) {
                            // the same few constants, so that operations meet each other's results
                            vals = E::vals(sig[i]);
                            vals.truncate(2);
                        }
                        let v = vals[s.below(vals.len())];
                        args[i] = e.leaf(sig[i], v);
                        ts[i] = if E::ZERO_SUPPRESSED { vec![E::EMPTY; sp.size] } else { vec![v; sp.size] };
                        ts[i][0] = v;
                    }
                }
                if o.huge && E::NAME == "zdd" && op >= 3 && s.chance(2, 3) {
                    // a huge family and a new one of a few small sets
                    let big = (0..pool.len()).max_by_key(|&i| (pool[i].t.iter().filter(|&&x| x == 1).count(), i)).unwrap();
                    args[0] = pool[big].id;
                    ts[0] = pool[big].t.clone();
                    let mut t = vec![0; sp.size];
                    for _ in 0..s.range(1, 6) {
                        let m = (0..s.range(1, 3)).fold(0, |m, _| m | 1usize << s.below(sp.n()));
                        t[m] = 1;
                    }
                    args[1] = e.build(&sp, 0, &t);
                    ts[1] = t;
                }
                if o.huge && E::NAME == "zdd" && op >= 3 {
                    // the model of products and quotients is quadratic
                    let m = |t: &Table| t.iter().filter(|&&x| x == 1).count();
                    let (a, b) = (m(&ts[0]), m(&ts[1]));
                    if op == 3 && a * b > 20_000_000 || op > 3 && b > 20 {
                        continue;
                    }
                }
                let refs: Vec<&Table> = ts.iter().collect();
                let exp = E::model(op, &sp, &refs);
                if exp.iter().any(|&p| p == P::Skip) {
                    step!(ctx, "{k}:skip {name}");
                    continue;
                }
                let id = e.apply(op, &args);
                step!(ctx, "{k}:#{id}={name}{args:?}");
                nops += 1;
                let got = e.table(&sp, id).map_err(|m| format!("{name}{args:?}: {m}"))?;
                for p in 0..sp.size {
                    if let P::V(v) = exp[p] {
                        ensure!(
                            got[p] == v,
                            "{name} at point {:?}: operands {:?}, expected {}, got {}",
                            sp.point(p),
                            ts.iter().map(|t| show(&[t[p]])).collect::<Vec<_>>(),
                            show(&[v]),
                            show(&[got[p]])
                        );
                    }
                }
                last = Some((op, args, ts));
                if gcs > 0 {
                    ops_after_gc += 1;
                }
                add(&mut pool, &e, id, got, name, &mut dropped, o.pool)?;
            }
            2 => {
                if !pool.is_empty() {
                    let m = s.range(1, pool.len().min(4));
                    for _ in 0..m {
                        let i = s.below(pool.len());
                        let x = pool.remove(i);
                        step!(ctx, "{k}:drop #{}", x.id);
                        dropped.push((x.t, x.sort));
                    }
                    last = None;
                }
            }
            3 if s.chance(1, 3) => {
                // recycle: compute, drop one operand, collect, let other nodes take its place,
                // and compute the same operation with them
                if let Some(r) = recycle(&mut e, &sp, &mut pool, &mut dropped, undet, &mut s)? {
                    step!(ctx, "{k}:recycle {r}");
                    gcs += 1;
                    ops_after_gc += 1;
                    nops += 1;
                }
                last = None;
                if o.exact_gc {
                    // the arenas may have grown and shrunk in any order meanwhile
                    continue;
                }
            }
            3 => {
                if s.chance(1, 4) && !pool.is_empty() {
                    // forget most of one sort, or most of everything
                    let so = s.below(sorts as usize) as u8;
                    let any = s.chance(1, 3);
                    let frac = s.range(1, 4);
                    let mut kept = vec![];
                    for x in pool.drain(..) {
                        if (any || x.sort == so) && s.below(4) < frac {
                            dropped.push((x.t, x.sort));
                        } else {
                            kept.push(x);
                        }
                    }
                    pool = kept;
                    step!(ctx, "{k}:forget -> {} kept", pool.len());
                    if s.chance(1, 2) {
                        // make the next collection the first one that reclaims nothing or little
                        e.gc(&pool.iter().map(|x| x.id).collect::<Vec<_>>());
                    }
                }
                let mut roots: Vec<usize> = pool.iter().map(|x| x.id).collect();
                if s.chance(1, 4) {
                    roots.extend(e.permanent());
                }
                if s.chance(1, 4) {
                    roots.reverse();
                }
                if s.chance(1, 4) && !roots.is_empty() {
                    roots.push(roots[0]);
                }
                let lv = e.live();
                e.gc(&roots);
                gcs += 1;
                step!(ctx, "{k}:gc roots={} live {lv}->{}", roots.len(), e.live());
                for x in &pool {
                    let got = e.table(&sp, x.id).map_err(|m| format!("after gc, root {}: {m}", x.id))?;
                    ensure!(got == x.t, "after gc, root {} denotes [{}], before [{}]", x.id, show(&got), show(&x.t));
                }
                if o.exact_gc {
                    let mut r = e.reach(&roots)?;
                    r.extend(e.permanent());
                    ensure!(e.live() == r.len(), "after gc {} nodes are live but {} are reachable or permanent", e.live(), r.len());
                    if s.chance(1, 3) {
                        let a = e.arenas();
                        e.gc(&roots);
                        ensure!(e.arenas() == a, "a second gc with the same roots changed the arena: {:?} -> {:?}", a, e.arenas());
                    }
                }
                last = None;
            }
            4 => {
                e.clear();
                step!(ctx, "{k}:clear_cache");
            }
            5 => {
                // rebuild a table known from before (kept or dropped)
                let (t, sort, want) = if !pool.is_empty() && (dropped.is_empty() || s.chance(1, 2)) {
                    let x = &pool[s.below(pool.len())];
                    (x.t.clone(), x.sort, Some(x.id))
                } else if !dropped.is_empty() {
                    let d = &dropped[s.below(dropped.len())];
                    (d.0.clone(), d.1, None)
                } else {
                    continue;
                };
                let id = e.build(&sp, sort, &t);
                rebuilt = true;
                step!(ctx, "{k}:#{id}=rebuild[{}]", show(&t));
                if let Some(w) = want {
                    ensure!(id == w, "rebuilding the function of node {w} gave a different node {id}");
                } else {
                    let got = e.table(&sp, id)?;
                    ensure!(got == t, "rebuilt diagram denotes [{}], expected [{}]", show(&got), show(&t));
                    add(&mut pool, &e, id, t, "rebuild", &mut dropped, o.pool)?;
                }
            }
            6 => {
                if let Some((op, args, ts)) = &last {
                    let alive: HashSet<usize> = pool.iter().map(|x| x.id).collect();
                    if !args.iter().all(|a| alive.contains(a)) {
                        continue;
                    }
                    let refs: Vec<&Table> = ts.iter().collect();
                    let exp = E::model(*op, &sp, &refs);
                    let clear = s.chance(1, 2);
                    let id1 = e.apply(*op, args);
                    if clear {
                        e.clear();
                    }
                    let id2 = e.apply(*op, args);
                    step!(ctx, "{k}:repeat {}{args:?} clear={clear}", E::ops()[*op].0);
                    ensure!(id1 == id2, "repeating {}{args:?} gave {id1} then {id2}", E::ops()[*op].0);
                    let got = e.table(&sp, id1)?;
                    for p in 0..sp.size {
                        if let P::V(v) = exp[p] {
                            ensure!(got[p] == v, "repeated {} differs at {:?}: expected {v}, got {}", E::ops()[*op].0, sp.point(p), got[p]);
                        }
                    }
                }
            }
            _ => {
                // a literal made of one node
                let v = s.below(sp.n());
                let sort = s.below(sorts as usize) as u8;
                let vals = vals_for::<E>(sort, undet, &mut s);
                let lv: Vec<i64> = (0..ranges[v]).map(|_| vals[s.below(vals.len())]).collect();
                let t: Table = (0..sp.size)
                    .map(|p| {
                        if E::ZERO_SUPPRESSED && (0..sp.n()).any(|u| u != v && sp.digit(p, u) != 0) {
                            E::EMPTY
                        } else {
                            lv[sp.digit(p, v)]
                        }
                    })
                    .collect();
                let ch: Vec<usize> = lv.iter().map(|&x| e.leaf(sort, x)).collect();
                let id = e.mk(v, &ch);
                step!(ctx, "{k}:#{id}=literal x{v}{:?}", show(&lv));
                let got = e.table(&sp, id)?;
                ensure!(got == t, "literal denotes [{}], expected [{}]", show(&got), show(&t));
                add(&mut pool, &e, id, t, "literal", &mut dropped, o.pool)?;
            }
        }
        most_cached = most_cached.max(e.cache_len());
        most_slots = most_slots.max(e.arenas().iter().map(|a| a.1).max().unwrap_or(0));
        // free slots are used before the arena grows
        for (i, (b, a)) in before.iter().zip(e.arenas()).enumerate() {
            ensure!(a.0 <= a.1, "live count {} exceeds the number of node slots {}", a.0, a.1);
            if o.exact_gc && a.1 > b.1 {
                ensure!(a.0 == a.1, "arena {i} grew from {} to {} slots while {} slots were free", b.1, a.1, a.1 - a.0);
            }
            if gcs > 0 && a.0 > b.0 && a.1 == b.1 {
                reused = true;
            }
        }
        if k % 16 == 15 {
            let roots: Vec<usize> = pool.iter().map(|x| x.id).collect();
            e.audit(&roots)?;
        }
    }
    // final audit: structure and meaning of everything still held
    let roots: Vec<usize> = pool.iter().map(|x| x.id).collect();
    e.audit(&roots)?;
    for x in &pool {
        let got = e.table(&sp, x.id)?;
        ensure!(got == x.t, "held node {} changed meaning: [{}] -> [{}]", x.id, show(&x.t), show(&got));
    }
    if undet {
        ctx.class("undet");
    }
    if gcs > 0 {
        ctx.class("gc");
    }
    if reused {
        ctx.class("slot_reuse");
    }
    if ops_after_gc > 2 {
        ctx.class("ops_after_gc");
    }
    if most_cached > 12288 {
        ctx.class("cache_grown");
    }
    if most_slots > 1 << 16 {
        ctx.class("over_65536_nodes");
    }
    let depth = sp.n() >= 2;
    ctx.nontrivial = if o.huge {
        nops >= 2 && most_slots > 1 << 16
    } else if o.w[3] >= 5 {
        gcs > 0 && ops_after_gc > 0 && reused
    } else if o.w[5] >= 6 {
        nops >= 2 && rebuilt && depth
    } else {
        nops >= 3 && depth
    };
    Ok(())
}

macro_rules! hist {
    ($name:ident, $e:ty, $vars:expr, $size:expr, $w:expr, $exact:expr) => {
        pub fn $name(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
            history::<$e>(case, ctx, &HistOpts { max_vars: $vars, max_size: $size, w: $w, exact_gc: $exact, undet: true, pool: 14, big: $size >= 1000, huge: false })
        }
    };
}

hist!(bdd_ops, Bdd, 8, 256, W_OPS, false);
hist!(zdd_ops, Zdd, 7, 128, W_OPS, false);
hist!(mdd_ops, Mdd, 6, 400, W_OPS, false);
hist!(mt_ops32, Mt<i32>, 6, 400, W_OPS, false);
hist!(mt_ops64, Mt<i64>, 6, 400, W_OPS, false);
hist!(mt2_ops32, Mt2<i32>, 6, 400, W_OPS, false);
hist!(mt2_ops64, Mt2<i64>, 6, 400, W_OPS, false);
hist!(zm_ops32, Zm<i32>, 6, 400, W_OPS, false);

hist!(bdd_canon, Bdd, 7, 128, W_CANON, false);
hist!(zdd_canon, Zdd, 7, 128, W_CANON, false);
hist!(mdd_canon, Mdd, 5, 200, W_CANON, false);
hist!(mt_canon, Mt<i64>, 5, 200, W_CANON, false);
hist!(mt2_canon, Mt2<i32>, 5, 200, W_CANON, false);
hist!(zm_canon, Zm<i64>, 5, 200, W_CANON, false);

hist!(bdd_gc, Bdd, 7, 128, W_GC, false);
hist!(zdd_gc, Zdd, 6, 64, W_GC, false);
hist!(mdd_gc, Mdd, 5, 150, W_GC, false);
hist!(mt_gc, Mt<i32>, 5, 150, W_GC, false);
hist!(mt2_gc, Mt2<i64>, 5, 150, W_GC, false);
hist!(zm_gc, Zm<i32>, 5, 150, W_GC, false);

hist!(bdd_gcx, Bdd, 7, 128, W_GC, true);
hist!(zdd_gcx, Zdd, 6, 64, W_GC, true);
hist!(mdd_gcx, Mdd, 5, 150, W_GC, true);
hist!(mt_gcx, Mt<i64>, 5, 150, W_GC, true);
hist!(mt2_gcx, Mt2<i32>, 5, 150, W_GC, true);
hist!(zm_gcx, Zm<i64>, 5, 150, W_GC, true);

hist!(bdd_cache, Bdd, 7, 128, W_CACHE, false);
hist!(zdd_cache, Zdd, 6, 64, W_CACHE, false);
hist!(mdd_cache, Mdd, 5, 150, W_CACHE, false);
hist!(mt_cache, Mt<i32>, 5, 150, W_CACHE, false);
hist!(mt2_cache, Mt2<i64>, 5, 150, W_CACHE, false);
hist!(zm_cache, Zm<i32>, 5, 150, W_CACHE, false);

// Large diagrams: caches fill, collide and grow; collections free thousands of slots.
const W_BIG: [u32; 8] = [5, 12, 1, 1, 1, 1, 2, 1];
hist!(bdd_big, Bdd, 15, 32768, W_BIG, true);
hist!(zdd_big, Zdd, 14, 16384, W_BIG, true);
hist!(mdd_big, Mdd, 10, 60000, W_BIG, true);
hist!(mt_big, Mt<i64>, 9, 20000, W_BIG, true);
hist!(mt2_big, Mt2<i32>, 9, 20000, W_BIG, true);
hist!(zm_big, Zm<i64>, 10, 60000, W_BIG, true);

macro_rules! huge {
    ($name:ident, $e:ty, $vars:expr) => {
        pub fn $name(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
            history::<$e>(case, ctx, &HistOpts { max_vars: $vars, max_size: 1 << 20, w: W_HUGE, exact_gc: true, undet: true, pool: 6, big: true, huge: true })
        }
    };
}
huge!(bdd_huge, Bdd, 20);
huge!(zdd_huge, Zdd, 20);
huge!(mdd_huge, Mdd, 11);
huge!(mt_huge, Mt<i64>, 11);
huge!(mt2_huge, Mt2<i32>, 11);
huge!(zm_huge, Zm<i64>, 11);

/// Many variables (up to 520 levels), functions compared at sampled assignments; equal
/// diagrams built by another route must be the same node.
pub fn wide<E: Engine>(case: &Case, ctx: &mut Ctx, with_gc: bool) -> Result<(), String> {
    const S: usize = 40;
    let mut c = Src::new(&case.cfg);
    let n = if c.chance(1, 8) { c.range(250, 520) } else { c.range(20, 150) };
    let regular = c.chance(1, 2);
    let ranges: Vec<usize> = (0..n).map(|i| if E::BINARY { 2 } else { [2, 2, 3, 4][if regular { i % 4 } else { c.below(4) }] }).collect();
    let lay = Layout::random(&ranges, &mut c);
    let mut e = E::new(&lay);
    let bias = c.below(3);
    let undet = E::undet_ok() && c.chance(1, 3);
    let asg: Vec<Vec<usize>> = (0..S)
        .map(|i| {
            // mostly at the end states; some follow long chains down to the last variables
            let rare = [8, 8, 100, 10000][c.below(4)];
            ranges
                .iter()
                .map(|&r| match (i + bias) % 3 {
                    0 => c.below(r),
                    1 => if c.chance(1, rare) { c.below(r) } else { r - 1 },
                    _ => if c.chance(1, rare) { c.below(r) } else { 0 },
                })
                .collect()
        })
        .collect();
    step!(ctx, "wide {} n={n}", E::NAME);
    let eval = |e: &E, id: usize, a: &[usize]| -> Result<i64, String> {
        let mut x = id;
        let mut lim = n;
        let skips = |lo: usize, hi: usize| E::ZERO_SUPPRESSED && a[lo..hi].iter().any(|&d| d != 0);
        loop {
            match e.node(x)? {
                N::T(v) => return Ok(if skips(0, lim) { E::EMPTY } else { v }),
                N::NT { level, ch, .. } => {
                    if level >= lim {
                        return Err("levels do not decrease along a path".into());
                    }
                    if skips(level + 1, lim) {
                        return Ok(E::EMPTY);
                    }
                    lim = level;
                    x = ch[a[level]];
                }
            }
        }
    };
    let mut pool: Vec<(usize, Vec<i64>, u8, usize)> = vec![];
    let mut chains = vec![];
    let mut big = 0;
    for (k, w) in case.ops.iter().enumerate() {
        let mut s = Src::new(w);
        let kind = s.below(if with_gc { 14 } else { 12 });
        if kind < 4 || pool.len() < 2 {
            // literal on one variable, or a chain over several variables
            let sort = s.below(E::nsorts() as usize) as u8;
            let vals = vals_small::<E>(sort, undet, &mut s);
            let m = [1, 1, 2, s.range(3, 30)][s.below(4)];
            let long = s.chance(1, 10);
            let mut vs: Vec<usize> = if long { (0..n).filter(|_| s.chance(9, 10)).collect() } else { (0..m).map(|_| s.below(n)).collect() };
            vs.sort();
            vs.dedup();
            let mut sort = sort;
            let mut bottom = vals[s.below(vals.len())];
            let mut chain: Vec<(usize, usize, i64)> = vs.iter().map(|&v| (v, s.below(ranges[v]), vals[s.below(vals.len())])).collect();
            if long {
                ctx.class("long_chain");
                let top = s.chance(1, 2);
                for x in chain.iter_mut() {
                    if !s.chance(1, 100) {
                        x.1 = if top { ranges[x.0] - 1 } else { 0 };
                    }
                }
            }
            // an earlier chain moved to other variables
            if !chains.is_empty() && s.chance(1, 3) {
                let (so, bo, ch): &(u8, i64, Vec<(usize, usize, i64)>) = &chains[s.below(chains.len())];
                let d = [256, 256, 128, 64, 4, s.range(1, n)][s.below(6)];
                let lo = ch.first().map_or(0, |x| x.0);
                let hi = ch.last().map_or(0, |x| x.0);
                let to = |v: usize| if hi + d < n { v + d } else { v.wrapping_sub(d) };
                if (hi + d < n || lo >= d) && ch.iter().all(|x| ranges[x.0] == ranges[to(x.0)]) {
                    sort = *so;
                    bottom = *bo;
                    chain = ch.iter().map(|&(v, p, o)| (to(v), p, o)).collect();
                    vs = chain.iter().map(|x| x.0).collect();
                    ctx.class("shifted_chain");
                }
            }
            chains.push((sort, bottom, chain.clone()));
            let make = |e: &mut E| {
                let mut id = e.leaf(sort, bottom);
                for &(v, pick, other) in &chain {
                    let oid = e.leaf(sort, other);
                    let ch: Vec<usize> = (0..ranges[v]).map(|i| if i == pick { id } else { oid }).collect();
                    id = e.mk(v, &ch);
                }
                id
            };
            let id = make(&mut e);
            ensure!(make(&mut e) == id, "building the same chain twice gives two nodes");
            let mut val = vec![];
            for (i, a) in asg.iter().enumerate() {
                // the value at a, walking the chain from the top
                let mut lim = n;
                let mut want = None;
                for &(v, pick, other) in chain.iter().rev() {
                    if E::ZERO_SUPPRESSED && a[v + 1..lim].iter().any(|&d| d != 0) {
                        want = Some(E::EMPTY);
                        break;
                    }
                    lim = v;
                    if a[v] != pick {
                        want = Some(other);
                        break;
                    }
                }
                let mut want_v = want.unwrap_or(bottom);
                if E::ZERO_SUPPRESSED && a[..lim].iter().any(|&d| d != 0) {
                    want_v = E::EMPTY;
                }
                let got = eval(&e, id, a)?;
                ensure!(got == want_v, "chain over {vs:?} at sampled assignment {i}: expected {want_v}, got {got}");
                val.push(got);
            }
            step!(ctx, "{k}:#{id}=chain{vs:?}");
            pool.push((id, val, sort, if long { 90 } else { vs.len() }));
        } else if kind < 12 {
            let op = s.below(match E::NAME {
                "zdd" => 3,
                "zmdd" => 2,
                _ => E::ops().len(),
            });
            let (name, sig, _) = E::ops()[op];
            let cap = if sig.len() == 3 { 90 } else { 300 };
            let mut args = vec![];
            let mut vv = vec![];
            for &so in sig {
                let cand: Vec<usize> = (0..pool.len()).filter(|&i| pool[i].2 == so && pool[i].3 <= cap).collect();
                if cand.is_empty() {
                    break;
                }
                let i = cand[s.below(cand.len())];
                args.push(pool[i].0);
                vv.push(pool[i].1.clone());
            }
            if args.len() < sig.len() {
                continue;
            }
            let exp: Vec<P> = (0..S)
                .map(|i| {
                    let x: Vec<i64> = vv.iter().map(|v| v[i]).collect();
                    match (E::NAME, op) {
                        ("zdd", 0) => P::V(x[0] & x[1]),
                        ("zdd", 1) => P::V(x[0] | x[1]),
                        ("zdd", _) => P::V(x[0] & (1 - x[1])),
                        _ => E::point(op, &x),
                    }
                })
                .collect();
            if exp.iter().any(|&p| p == P::Skip) {
                continue;
            }
            if E::NAME.starts_with("mtmdd") && sig[0] == 0 {
                // unsampled values must stay in range too
                let mut bound = 1i64;
                for &a in &args {
                    let mut top = 1;
                    for x in e.reach(&[a])? {
                        if let N::T(v) = e.node(x)? {
                            if v != UNDET {
                                top = top.max(v.abs());
                            }
                        }
                    }
                    bound = if op == 2 { bound.saturating_mul(top) } else { bound.saturating_add(top) };
                }
                if bound > 1 << 24 {
                    continue;
                }
            }
            let id = e.apply(op, &args);
            let size = e.reach(&[id])?.len();
            big = big.max(size);
            step!(ctx, "{k}:#{id}={name}{args:?} size={size}");
            let got: Vec<i64> = asg.iter().map(|a| eval(&e, id, a)).collect::<Result<_, _>>()?;
            for i in 0..S {
                if let P::V(v) = exp[i] {
                    ensure!(got[i] == v, "{name}{args:?} at sampled assignment {i}: expected {v}, got {}", got[i]);
                }
            }
            // copied node by node, the diagram is the same node
            if size <= 120 {
                let mut ids: Vec<usize> = e.reach(&[id])?.into_iter().collect();
                let mut lv = HashMap::new();
                for &x in &ids {
                    lv.insert(x, match e.node(x)? { N::T(_) => 0, N::NT { level, .. } => level + 1 });
                }
                ids.sort_by_key(|x| lv[x]);
                for x in ids {
                    if let N::NT { level, ch, .. } = e.node(x)? {
                        let y = e.mk(level, &ch);
                        ensure!(y == x, "re-creating node {x} from its variable and children gives node {y}");
                    }
                }
            }
            for p in &pool {
                if p.0 == id {
                    ensure!(p.1 == got, "two functions that differ at a sampled assignment are one node");
                }
            }
            if size <= 300 {
                pool.push((id, got, e.sort(id), size));
            }
        } else if kind == 12 {
            let keep = pool.len() / 2;
            pool.drain(..pool.len() - keep);
        } else {
            e.gc(&pool.iter().map(|p| p.0).collect::<Vec<_>>());
            step!(ctx, "{k}:gc");
            for p in &pool {
                for (i, a) in asg.iter().enumerate() {
                    ensure!(eval(&e, p.0, a)? == p.1[i], "after gc node {} changed its value at a sampled assignment", p.0);
                }
            }
        }
        if e.live() > 60_000 {
            break;
        }
    }
    e.audit(&pool.iter().map(|p| p.0).collect::<Vec<_>>())?;
    ctx.nontrivial = big > 20;
    Ok(())
}

pub fn bdd_wide(c: &Case, x: &mut Ctx) -> Result<(), String> {
    wide::<Bdd>(c, x, false)
}
pub fn mdd_wide(c: &Case, x: &mut Ctx) -> Result<(), String> {
    wide::<Mdd>(c, x, false)
}
pub fn mt_wide(c: &Case, x: &mut Ctx) -> Result<(), String> {
    wide::<Mt<i64>>(c, x, false)
}
pub fn mt2_wide(c: &Case, x: &mut Ctx) -> Result<(), String> {
    wide::<Mt2<i32>>(c, x, false)
}
pub fn zdd_wide(c: &Case, x: &mut Ctx) -> Result<(), String> {
    wide::<Zdd>(c, x, false)
}
pub fn zm_wide(c: &Case, x: &mut Ctx) -> Result<(), String> {
    wide::<Zm<i32>>(c, x, false)
}
pub fn zdd_wide_gc(c: &Case, x: &mut Ctx) -> Result<(), String> {
    wide::<Zdd>(c, x, true)
}
pub fn mdd_wide_gc(c: &Case, x: &mut Ctx) -> Result<(), String> {
    wide::<Mdd>(c, x, true)
}
pub fn mt_wide_gc(c: &Case, x: &mut Ctx) -> Result<(), String> {
    wide::<Mt<i32>>(c, x, true)
}
pub fn zm_wide_gc(c: &Case, x: &mut Ctx) -> Result<(), String> {
    wide::<Zm<i64>>(c, x, true)
}
pub fn bdd_wide_gc(c: &Case, x: &mut Ctx) -> Result<(), String> {
    wide::<Bdd>(c, x, true)
}
pub fn mt2_wide_gc(c: &Case, x: &mut Ctx) -> Result<(), String> {
    wide::<Mt2<i64>>(c, x, true)
}

/// The operation cache filled with millions of entries (past every size it can grow to): a
/// hit is still the value last stored under that key, and a key never stored still misses.
pub fn cache_full(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    use common::prelude::ComputeCache;
    let mut c = Src::new(&case.cfg);
    let n = c.range(12_700_000, 16_000_000) as u64;
    let salt = c.u64() | 1;
    let mixed = |i: u64| {
        let mut h = i.wrapping_add(salt).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 32;
        h = h.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        h ^ h >> 32
    };
    // distinct i give distinct keys: i is spread over the second and third words
    let dense = c.chance(1, 2);
    let key = |i: u64| {
        if dense {
            ((i % 13) as u32, (i / 13 % 4096) as u32, (i / (13 * 4096)) as u32)
        } else {
            ((i & 7) as u32, (i >> 3 & 0xfff) as u32 * 2617, (i >> 15) as u32 * 7919)
        }
    };
    let val = |i: u64, round: u64| (mixed(i + (round << 40)) as u32) & 0x7fff_ffff;
    let mut cache = ComputeCache::new();
    step!(ctx, "cache filled with {n} entries dense={dense}");
    for i in 0..n {
        let k = key(i);
        cache.put(k.0, k.1, k.2, val(i, 0));
    }
    // store a third of them again with other values
    let again = |i: u64| mixed(i) % 3 == 0;
    for i in (0..n).filter(|&i| again(i)) {
        let k = key(i);
        cache.put(k.0, k.1, k.2, val(i, 1));
    }
    let mut hits = 0usize;
    for i in 0..n {
        let k = key(i);
        if let Some(x) = cache.get(k.0, k.1, k.2) {
            hits += 1;
            let want = val(i, again(i) as u64);
            ensure!(x == want, "after {n} entries, get{k:?} returned {x}, last stored {want}");
        }
    }
    for i in 0..1_000_000 {
        let k = key(i);
        ensure!(cache.get(k.0 + 20, k.1, k.2).is_none(), "get({}, {}, {}) hit although nothing was stored there", k.0 + 20, k.1, k.2);
    }
    ensure!(cache.len() == hits, "cache reports {} entries, {hits} can be found", cache.len());
    cache.clear();
    ensure!(cache.is_empty() && cache.get(1, 0, 0).is_none(), "a cleared cache is not empty");
    ctx.nontrivial = true;
    Ok(())
}

/// The operation cache against a map of what was last stored under each key.
pub fn compute_cache(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    use common::prelude::ComputeCache;
    let mut c = Src::new(&case.cfg);
    let mode = c.below(4);
    let idmax = [8u32, 60, 4000, 60000][mode];
    let bulk_ok = mode >= 2;
    let mut cache = ComputeCache::new();
    let mut model: HashMap<(u32, u32, u32), u32> = HashMap::new();
    ensure!(cache.is_empty() && cache.len() == 0, "a new cache is not empty");
    let mut maxlen = 0;
    step!(ctx, "cache ids<{idmax}");
    let check = |cache: &ComputeCache, model: &HashMap<(u32, u32, u32), u32>| -> Result<usize, String> {
        let mut hit = 0;
        for (k, v) in model {
            if let Some(x) = cache.get(k.0, k.1, k.2) {
                ensure!(x == *v, "get{k:?} returned {x}, last stored {v}");
                hit += 1;
            }
        }
        ensure!(cache.len() == hit, "cache reports {} entries, {hit} can be found", cache.len());
        ensure!(cache.is_empty() == (hit == 0), "is_empty is wrong with {hit} entries");
        Ok(hit)
    };
    for (k, w) in case.ops.iter().enumerate() {
        let mut s = Src::new(w);
        match s.weighted(&[10, 6, 2, 1, 1, 1]) {
            0 => {
                let key = (s.u32() % idmax.min(30), s.u32() % idmax, s.u32() % idmax);
                let v = s.u32() % idmax;
                cache.put(key.0, key.1, key.2, v);
                model.insert(key, v);
                step!(ctx, "{k}:put{key:?}={v}");
                let r = cache.get(key.0, key.1, key.2);
                ensure!(r.is_none() || r == Some(v), "get right after put returned {r:?}, stored {v}");
            }
            1 => {
                // bulk fill
                let n = if bulk_ok && s.chance(1, 3) { s.range(2000, 16000) } else { s.range(10, 300) };
                let mut st = s.u64() | 1;
                step!(ctx, "{k}:bulk {n}");
                for _ in 0..n {
                    st ^= st << 13;
                    st ^= st >> 7;
                    st ^= st << 17;
                    let key = ((st >> 60) as u32, (st as u32) % idmax, ((st >> 30) as u32) % idmax);
                    let v = ((st >> 13) as u32) % idmax;
                    cache.put(key.0, key.1, key.2, v);
                    model.insert(key, v);
                }
            }
            2 => {
                // keys never stored must miss; permutations of stored keys especially
                let mut it = model.keys().copied().collect::<Vec<_>>();
                it.sort();
                for _ in 0..50.min(it.len()) {
                    let (a, b, d) = it[s.below(it.len())];
                    for q in [(b, a, d), (a, d, b), (d, b, a), (a ^ 1, b, d), (a, b ^ 1, d), (a, b, d ^ 1), (a, 0, 0), (0, b, d)] {
                        if !model.contains_key(&q) {
                            ensure!(cache.get(q.0, q.1, q.2).is_none(), "get{q:?} hit although nothing was stored there");
                        }
                    }
                }
            }
            3 => {
                let three = s.chance(1, 2);
                let mut st = s.u64() | 1;
                let density = s.range(1, 9) as u64;
                let live: Vec<bool> = (0..idmax.max(30) as usize)
                    .map(|_| {
                        st ^= st << 13;
                        st ^= st >> 7;
                        st ^= st << 17;
                        st % 10 < density
                    })
                    .collect();
                step!(ctx, "{k}:retain three={three}");
                if three {
                    cache.retain_live3(&live);
                } else {
                    cache.retain_live(&live);
                }
                let l = |x: u32| live[x as usize];
                for (k, v) in &model {
                    let ok = l(k.1) && l(k.2) && l(*v) && (!three || l(k.0));
                    if !ok {
                        ensure!(cache.get(k.0, k.1, k.2).is_none(), "entry {k:?}={v} touches a dead id but survived (three={three})");
                    }
                }
                model.retain(|k, v| l(k.1) && l(k.2) && l(*v) && (!three || l(k.0)));
            }
            4 => {
                cache.clear();
                step!(ctx, "{k}:clear");
                for k in model.keys() {
                    ensure!(cache.get(k.0, k.1, k.2).is_none(), "entry {k:?} survived clear");
                }
                model.clear();
                ensure!(cache.len() == 0, "cleared cache has length {}", cache.len());
            }
            _ => {
                check(&cache, &model)?;
            }
        }
        maxlen = maxlen.max(cache.len());
        ensure!(cache.len() <= model.len(), "cache holds {} entries, only {} distinct keys were stored", cache.len(), model.len());
    }
    check(&cache, &model)?;
    if maxlen > 12288 {
        ctx.class("grown");
    }
    ctx.nontrivial = maxlen > 20;
    Ok(())
}

/// Repeated build/drop/collect rounds of the same shape must not grow the arena.
pub fn churn<E: Engine>(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = Src::new(&case.cfg);
    let ranges = random_ranges(&mut c, if E::BINARY { 8 } else { 5 }, 256, E::BINARY);
    let sp = Space::new(&ranges);
    let lay = Layout::random(&ranges, &mut c);
    let mut e = E::new(&lay);
    let keep_t = {
        let vals = vals_small::<E>(0, false, &mut c);
        random_table(&sp, &vals, &mut c)
    };
    let keep = e.build(&sp, 0, &keep_t);
    step!(ctx, "churn {} ranges={ranges:?} ops={}", E::NAME, case.ops.len());
    let mut first = vec![];
    let mut skip = false;
    for round in 0..10 {
        let mut pool: Vec<(usize, Table)> = vec![(keep, keep_t.clone())];
        for w in &case.ops {
            let mut s = Src::new(w);
            if s.chance(1, 2) || pool.len() < 2 {
                let vals = vals_small::<E>(0, false, &mut s);
                let t = random_table(&sp, &vals, &mut s);
                let id = e.build(&sp, 0, &t);
                pool.push((id, t));
            } else {
                let op = s.below(E::ops().len());
                let (_, sig, rs) = E::ops()[op];
                if sig.iter().any(|&x| x != 0) || rs != 0 {
                    continue;
                }
                let idx: Vec<usize> = sig.iter().map(|_| s.below(pool.len())).collect();
                let ts: Vec<&Table> = idx.iter().map(|&i| &pool[i].1).collect();
                let exp = E::model(op, &sp, &ts);
                if exp.iter().any(|p| !matches!(p, P::V(_))) {
                    continue;
                }
                let id = e.apply(op, &idx.iter().map(|&i| pool[i].0).collect::<Vec<_>>());
                let t: Table = exp.iter().map(|p| if let P::V(v) = p { *v } else { 0 }).collect();
                pool.push((id, t));
            }
        }
        skip |= pool.len() < 3;
        e.gc(&[keep]);
        let got = e.table(&sp, keep)?;
        ensure!(got == keep_t, "round {round}: the kept diagram changed");
        let mut r = e.reach(&[keep])?;
        r.extend(e.permanent());
        ensure!(e.live() == r.len(), "round {round}: {} live after gc, {} reachable", e.live(), r.len());
        let slots: Vec<usize> = e.arenas().iter().map(|a| a.1).collect();
        if round == 0 {
            first = slots;
        } else {
            // The same round again needs about the room it needed the first time (with some
            // slack, since which intermediate results are needed may depend on node ids).
            for (a, b) in slots.iter().zip(&first) {
                ensure!(*a <= *b + *b / 4 + 16, "round {round}: identical work grew the arena from {first:?} to {slots:?} slots");
            }
        }
    }
    ctx.nontrivial = !skip;
    Ok(())
}
pub fn churn_bdd(c: &Case, x: &mut Ctx) -> Result<(), String> {
    churn::<Bdd>(c, x)
}
pub fn churn_zdd(c: &Case, x: &mut Ctx) -> Result<(), String> {
    churn::<Zdd>(c, x)
}
pub fn churn_mdd(c: &Case, x: &mut Ctx) -> Result<(), String> {
    churn::<Mdd>(c, x)
}
pub fn churn_mt(c: &Case, x: &mut Ctx) -> Result<(), String> {
    churn::<Mt<i32>>(c, x)
}
pub fn churn_mt2(c: &Case, x: &mut Ctx) -> Result<(), String> {
    churn::<Mt2<i64>>(c, x)
}
pub fn churn_zm(c: &Case, x: &mut Ctx) -> Result<(), String> {
    churn::<Zm<i64>>(c, x)
}

/// Tens of thousands of small operations and collections in one manager.
pub fn marathon<E: Engine>(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = Src::new(&case.cfg);
    let ranges = random_ranges(&mut c, if E::BINARY { 4 } else { 3 }, 18, E::BINARY);
    let sp = Space::new(&ranges);
    let lay = Layout::random(&ranges, &mut c);
    let mut e = E::new(&lay);
    let per = [300, 1000, 3000][c.below(3)];
    let gcw = [1, 4, 30][c.below(3)];
    step!(ctx, "marathon {} ranges={ranges:?}, {per} rounds per step, collections weigh {gcw}", E::NAME);
    let mut pool: Vec<Ent> = vec![];
    let (mut gcs, mut nops) = (0, 0);
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        for round in 0..per {
            match s.weighted(&[3, 6, 2, gcw]) {
                0 => {
                    let sort = s.below(E::nsorts() as usize) as u8;
                    let vals = E::vals(sort);
                    let t: Table = (0..sp.size).map(|_| vals[s.below(vals.len())]).collect();
                    let id = e.build(&sp, sort, &t);
                    pool.push(Ent { id, t, sort });
                }
                1 => {
                    let op = s.below(E::ops().len());
                    let (name, sig, rs) = E::ops()[op];
                    let mut ix = vec![];
                    for &so in sig {
                        let cand: Vec<usize> = (0..pool.len()).filter(|&i| pool[i].sort == so).collect();
                        if !cand.is_empty() {
                            ix.push(cand[s.below(cand.len())]);
                        }
                    }
                    if ix.len() < sig.len() {
                        continue;
                    }
                    let exp = E::model(op, &sp, &ix.iter().map(|&i| &pool[i].t).collect::<Vec<_>>());
                    if exp.iter().any(|&p| p == P::Skip) {
                        continue;
                    }
                    let id = e.apply(op, &ix.iter().map(|&i| pool[i].id).collect::<Vec<_>>());
                    let got = e.table(&sp, id).map_err(|m| format!("{k}.{round} {name}: {m}"))?;
                    for p in 0..sp.size {
                        if let P::V(v) = exp[p] {
                            ensure!(
                                got[p] == v,
                                "{k}.{round} (after {gcs} collections) {name} at {:?}: operands {:?}, expected {}, got {}",
                                sp.point(p),
                                ix.iter().map(|&i| show(&[pool[i].t[p]])).collect::<Vec<_>>(),
                                show(&[v]),
                                show(&[got[p]])
                            );
                        }
                    }
                    nops += 1;
                    pool.push(Ent { id, t: got, sort: rs });
                }
                2 if !pool.is_empty() => {
                    let i = s.below(pool.len());
                    pool.swap_remove(i);
                }
                3 => {
                    e.gc(&pool.iter().map(|x| x.id).collect::<Vec<_>>());
                    gcs += 1;
                    for x in &pool {
                        let got = e.table(&sp, x.id).map_err(|m| format!("{k}.{round} after collection {gcs}: {m}"))?;
                        ensure!(got == x.t, "{k}.{round} after collection {gcs}, a root denotes [{}], before [{}]", show(&got), show(&x.t));
                    }
                }
                _ => {}
            }
            if pool.len() > 7 {
                pool.remove(0);
            }
            for (i, x) in pool.iter().enumerate() {
                for y in &pool[..i] {
                    if x.sort == y.sort {
                        ensure!((x.id == y.id) == (x.t == y.t), "{k}.{round}: same function {}, same node {}", x.t == y.t, x.id == y.id);
                    }
                }
            }
        }
        step!(ctx, "{k}: {nops} operations, {gcs} collections, {} live", e.live());
    }
    if gcs > 1 << 16 {
        ctx.class("over_65536_collections");
    }
    ctx.nontrivial = gcs > 300 && nops > 1000;
    Ok(())
}
macro_rules! mara {
    ($($name:ident $e:ty),*) => {
        $(pub fn $name(c: &Case, x: &mut Ctx) -> Result<(), String> {
            marathon::<$e>(c, x)
        })*
    };
}
mara!(mara_bdd Bdd, mara_zdd Zdd, mara_mdd Mdd, mara_mt Mt<i32>, mara_mt2 Mt2<i64>, mara_zm Zm<i32>);

/// The DOT text of diagrams of one engine against the diagram itself.
pub fn core_dot<E: Engine>(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    use std::collections::{BTreeMap, BTreeSet};
    let mut c = Src::new(&case.cfg);
    let ranges = random_ranges(&mut c, if E::BINARY { 6 } else { 4 }, 100, E::BINARY);
    let sp = Space::new(&ranges);
    let lay = Layout::random(&ranges, &mut c);
    let undet = c.chance(1, 2);
    let mut e = E::new(&lay);
    step!(ctx, "dot {} ranges={ranges:?} undet={undet}", E::NAME);
    let mut pool: Vec<usize> = vec![];
    if sp.size >= 32 && c.chance(1, 50) {
        // dead nodes fill the first ids: later ones lie beyond 16 bits, next to shared small ids
        let target = 65500 + c.below(80);
        for _ in 0..30_000 {
            if e.live() >= target {
                ctx.class("ids_beyond_16_bits");
                break;
            }
            let sort = c.below(E::nsorts() as usize) as u8;
            let vals = E::vals(sort);
            let t: Table = (0..sp.size).map(|_| vals[c.below(vals.len())]).collect();
            e.build(&sp, sort, &t);
        }
    }
    let mut most = 0;
    for w in &case.ops {
        let mut s = Src::new(w);
        let sort = s.below(E::nsorts() as usize) as u8;
        let id = match s.below(8) {
            0 => {
                let vals = E::vals(sort);
                e.leaf(sort, vals[s.below(vals.len())])
            }
            1 if !pool.is_empty() => {
                let k = s.below(pool.len());
                pool.drain(..k);
                e.gc(&pool);
                continue;
            }
            _ => {
                let vals = vals_for::<E>(sort, undet, &mut s);
                let t = random_table(&sp, &vals, &mut s);
                step!(ctx, "table[{}]", show(&t));
                e.build(&sp, sort, &t)
            }
        };
        pool.push(id);
        // what the text must show, from walking the diagram
        let omitted = |v: i64| v == UNDET || (E::NAME == "zdd" && v == 0);
        let mut wn = BTreeMap::new();
        let mut we = BTreeSet::new();
        let mut st = vec![id];
        while let Some(x) = st.pop() {
            if wn.contains_key(&e.dot_id(x)) {
                continue;
            }
            match e.node(x)? {
                N::T(v) => {
                    wn.insert(e.dot_id(x), e.term_label(x, v));
                }
                N::NT { level, ch, .. } => {
                    wn.insert(e.dot_id(x), format!("x{level}"));
                    for (i, &y) in ch.iter().enumerate() {
                        if let N::T(v) = e.node(y)? {
                            if omitted(v) {
                                ctx.class("edge_omitted");
                                continue;
                            }
                        }
                        we.insert((e.dot_id(x), i, e.dot_id(y)));
                        st.push(y);
                    }
                }
            }
        }
        most = most.max(wn.len());
        crate::p_bss::check_dot(&e.dot(id), &wn, &we, e.dot_id(id))?;
    }
    ctx.nontrivial = most >= 5;
    Ok(())
}
pub fn dot_core_bdd(c: &Case, x: &mut Ctx) -> Result<(), String> {
    core_dot::<Bdd>(c, x)
}
pub fn dot_core_zdd(c: &Case, x: &mut Ctx) -> Result<(), String> {
    core_dot::<Zdd>(c, x)
}
pub fn dot_core_mdd(c: &Case, x: &mut Ctx) -> Result<(), String> {
    core_dot::<Mdd>(c, x)
}
pub fn dot_core_mt(c: &Case, x: &mut Ctx) -> Result<(), String> {
    core_dot::<Mt<i32>>(c, x)
}
pub fn dot_core_mt2(c: &Case, x: &mut Ctx) -> Result<(), String> {
    core_dot::<Mt2<i64>>(c, x)
}
pub fn dot_core_zm(c: &Case, x: &mut Ctx) -> Result<(), String> {
    core_dot::<Zm<i64>>(c, x)
}

/// Thousands of different functions held at once, across collections.
pub fn hoard<E: Engine>(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    use std::collections::HashMap;
    let mut c = Src::new(&case.cfg);
    let size = [64, 128, 300, 512][c.below(4)];
    let ranges = big_ranges(&mut c, if E::BINARY { 9 } else { 5 }, size, E::BINARY);
    let sp = Space::new(&ranges);
    let lay = Layout::random(&ranges, &mut c);
    let mut e = E::new(&lay);
    let want = [600, 1100, 2100, 4200, 9000][c.below(5)];
    let clustered = c.chance(1, 2);
    step!(ctx, "hoard {} ranges={ranges:?} want={want} clustered={clustered}", E::NAME);
    let mut pool: Vec<Ent> = vec![];
    let (mut most, mut later) = (0, 0);
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        if k > 0 && !pool.is_empty() {
            // let a part go: the oldest, the newest or any
            let m = pool.len() / (2 + s.below(8));
            let how = s.below(3);
            match how {
                0 => drop(pool.drain(..m)),
                1 => pool.truncate(pool.len() - m),
                _ => {
                    for _ in 0..m {
                        let i = s.below(pool.len());
                        pool.swap_remove(i);
                    }
                }
            }
            step!(ctx, "{k}: {m} of them dropped ({how})");
        }
        let mut base: Table = vec![];
        let mut ops = 0;
        while pool.len() < want {
            if !pool.is_empty() && s.chance(1, 3) {
                let op = s.below(E::ops().len());
                let (name, sig, rs) = E::ops()[op];
                let mut ix = vec![];
                for &so in sig {
                    for _ in 0..20 {
                        let i = s.below(pool.len());
                        if pool[i].sort == so {
                            ix.push(i);
                            break;
                        }
                    }
                }
                if ix.len() == sig.len() {
                    let exp = E::model(op, &sp, &ix.iter().map(|&i| &pool[i].t).collect::<Vec<_>>());
                    if exp.iter().all(|&p| p != P::Skip) {
                        let id = e.apply(op, &ix.iter().map(|&i| pool[i].id).collect::<Vec<_>>());
                        let got = e.table(&sp, id).map_err(|m| format!("{k} {name}: {m}"))?;
                        for p in 0..sp.size {
                            if let P::V(v) = exp[p] {
                                ensure!(got[p] == v, "{k} ({} held) {name} at {:?}: expected {}, got {}", pool.len(), sp.point(p), show(&[v]), show(&[got[p]]));
                            }
                        }
                        ops += 1;
                        pool.push(Ent { id, t: got, sort: rs });
                        continue;
                    }
                }
            }
            let sort = s.below(E::nsorts() as usize) as u8;
            let vals = E::vals(sort);
            let t: Table = if clustered && base.len() == sp.size && s.chance(3, 4) && base.iter().all(|v| vals.contains(v)) {
                // differs from the previous one in few places: much is shared
                let mut t = base.clone();
                for _ in 0..s.range(1, 3) {
                    t[s.below(sp.size)] = vals[s.below(vals.len())];
                }
                t
            } else {
                (0..sp.size).map(|_| vals[s.below(vals.len())]).collect()
            };
            base = t.clone();
            let id = e.build(&sp, sort, &t);
            pool.push(Ent { id, t, sort });
        }
        if k > 0 {
            later += ops;
        }
        // roots in any order, some of them more than once
        let mut roots: Vec<usize> = pool.iter().map(|x| x.id).collect();
        match s.below(3) {
            0 => {}
            1 => roots.reverse(),
            _ => {
                for i in (1..roots.len()).rev() {
                    let j = s.below(i + 1);
                    roots.swap(i, j);
                }
                for _ in 0..s.below(1500) {
                    let r = roots[s.below(want)];
                    roots.push(r);
                }
            }
        }
        e.gc(&roots);
        let live = e.live();
        let mut reach = e.reach(&roots)?;
        reach.extend(e.permanent());
        ensure!(live == reach.len(), "{k}: {live} live after the collection, {} reachable from {} roots", reach.len(), roots.len());
        let mut seen: HashMap<(u8, &Table), usize> = HashMap::new();
        let mut ids: HashMap<usize, (u8, &Table)> = HashMap::new();
        for (i, x) in pool.iter().enumerate() {
            let got = e.table(&sp, x.id).map_err(|m| format!("{k}: root {i} of {} after the collection: {m}", pool.len()))?;
            ensure!(got == x.t, "{k}: root {i} of {} denotes another function after the collection", pool.len());
            let a = *seen.entry((x.sort, &x.t)).or_insert(x.id);
            ensure!(a == x.id, "{k}: root {i}: the same function at another node");
            ids.insert(x.id, (x.sort, &x.t));
        }
        most = most.max(ids.len());
        step!(ctx, "{k}: {} held, {ops} operations, {live} live", pool.len());
    }
    if most > 1024 {
        ctx.class("over_1024_roots");
    }
    ctx.nontrivial = most > 500 && later > 20;
    Ok(())
}
macro_rules! hoards {
    ($($name:ident $e:ty),*) => {
        $(pub fn $name(c: &Case, x: &mut Ctx) -> Result<(), String> {
            hoard::<$e>(c, x)
        })*
    };
}
hoards!(hoard_bdd Bdd, hoard_zdd Zdd, hoard_mdd Mdd, hoard_mt Mt<i32>, hoard_mt2 Mt2<i64>, hoard_zm Zm<i64>);

/// Two managers of one kind in one history: neither ever notices the other.
pub fn twins<E: Engine>(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = Src::new(&case.cfg);
    let ranges = random_ranges(&mut c, if E::BINARY { 5 } else { 3 }, 40, E::BINARY);
    let sp = Space::new(&ranges);
    let lay = Layout::random(&ranges, &mut c);
    let lay2 = if c.chance(1, 2) { Layout::random(&ranges, &mut c) } else { lay.clone() };
    let mut es = [E::new(&lay), E::new(&lay2)];
    let undet = E::undet_ok() && c.chance(1, 3);
    step!(ctx, "two {} ranges={ranges:?}", E::NAME);
    let mut pools: [Vec<Ent>; 2] = [vec![], vec![]];
    let mut nops = [0, 0];
    let mut last: Option<(usize, Vec<usize>, usize)> = None;
    for (k, words) in case.ops.iter().enumerate() {
        let mut s = Src::new(words);
        let mut i = s.below(2);
        match s.weighted(&[4, 8, 4, 1, 1]) {
            0 => {
                let sort = s.below(E::nsorts() as usize) as u8;
                let vals = vals_small::<E>(sort, undet, &mut s);
                let t = random_table(&sp, &vals, &mut s);
                let id = es[i].build(&sp, sort, &t);
                step!(ctx, "{k}.{i}:#{id}=[{}]", show(&t));
                pools[i].push(Ent { id, t, sort });
            }
            w @ (1 | 2) => {
                // 2: what the other manager did last, on nodes of the same numbers
                let (op, args) = match (&last, w) {
                    (Some((op, ids, j)), 2) => {
                        i = 1 - j;
                        let args: Vec<usize> = ids.iter().filter_map(|x| pools[i].iter().position(|y| y.id == *x)).collect();
                        if args.len() < ids.len() {
                            continue;
                        }
                        (*op, args)
                    }
                    _ => {
                        let op = s.below(E::ops().len());
                        let mut args = vec![];
                        for &so in E::ops()[op].1 {
                            let cand: Vec<usize> = (0..pools[i].len()).filter(|&x| pools[i][x].sort == so).collect();
                            if !cand.is_empty() {
                                args.push(cand[s.below(cand.len())]);
                            }
                        }
                        (op, args)
                    }
                };
                let (name, sig, rs) = E::ops()[op];
                if args.len() < sig.len() || args.iter().zip(sig).any(|(&x, &so)| pools[i][x].sort != so) {
                    continue;
                }
                let exp = E::model(op, &sp, &args.iter().map(|&x| &pools[i][x].t).collect::<Vec<_>>());
                if exp.iter().any(|&p| p == P::Skip) {
                    continue;
                }
                let ids: Vec<usize> = args.iter().map(|&x| pools[i][x].id).collect();
                let id = es[i].apply(op, &ids);
                step!(ctx, "{k}.{i}:#{id}={name}{ids:?}");
                let got = es[i].table(&sp, id)?;
                for p in 0..sp.size {
                    if let P::V(v) = exp[p] {
                        ensure!(got[p] == v, "{k}: {name}{ids:?} in manager {i} at {:?}: expected {}, got {}", sp.point(p), show(&[v]), show(&[got[p]]));
                    }
                }
                nops[i] += 1;
                last = Some((op, ids, i));
                pools[i].push(Ent { id, t: got, sort: rs });
            }
            3 => {
                let x = s.below(pools[i].len() + 1);
                pools[i].drain(..x);
                let roots: Vec<usize> = pools[i].iter().map(|x| x.id).collect();
                es[i].gc(&roots);
                step!(ctx, "{k}.{i}:gc {} roots", roots.len());
            }
            _ => {
                es[i].clear();
                step!(ctx, "{k}.{i}:clear_cache");
            }
        }
        for (e, pool) in es.iter().zip(&pools) {
            for (i, x) in pool.iter().enumerate() {
                ensure!(e.table(&sp, x.id)? == x.t, "{k}: node {} no longer denotes its function", x.id);
                for y in &pool[..i] {
                    ensure!(x.sort != y.sort || (x.id == y.id) == (x.t == y.t), "{k}: same function {}, same node {}", x.t == y.t, x.id == y.id);
                }
            }
        }
        for p in &mut pools {
            if p.len() > 12 {
                p.remove(0);
            }
        }
    }
    ctx.nontrivial = nops[0] > 1 && nops[1] > 1;
    Ok(())
}
macro_rules! twin {
    ($($name:ident $e:ty),*) => {
        $(pub fn $name(c: &Case, x: &mut Ctx) -> Result<(), String> {
            twins::<$e>(c, x)
        })*
    };
}
twin!(twin_bdd Bdd, twin_zdd Zdd, twin_mdd Mdd, twin_mt Mt<i64>, twin_mt2 Mt2<i32>, twin_zm Zm<i32>);
