//! Reference models: explicit value tables over a finite product of variable ranges.
//! Variable i (declared i-th) has level i; a point's index is mixed-radix with variable 0
//! fastest. Booleans are 0/1 and UNDET stands for the undetermined / absent leaf.

use crate::pbt::Src;

pub const UNDET: i64 = i64::MIN;

pub type Table = Vec<i64>;

#[derive(Clone, Debug)]
pub struct Space {
    pub ranges: Vec<usize>,
    pub strides: Vec<usize>,
    pub size: usize,
}

impl Space {
    pub fn new(ranges: &[usize]) -> Self {
        let mut strides = vec![];
        let mut s = 1;
        for &r in ranges {
            strides.push(s);
            s *= r;
        }
        Space { ranges: ranges.to_vec(), strides, size: s }
    }
    pub fn n(&self) -> usize {
        self.ranges.len()
    }
    pub fn digit(&self, p: usize, v: usize) -> usize {
        p / self.strides[v] % self.ranges[v]
    }
    pub fn point(&self, p: usize) -> Vec<usize> {
        (0..self.n()).map(|v| self.digit(p, v)).collect()
    }
    pub fn index(&self, x: &[usize]) -> usize {
        x.iter().zip(&self.strides).map(|(a, b)| a * b).sum()
    }
    /// Variables on which the table depends.
    pub fn support(&self, t: &[i64]) -> Vec<usize> {
        (0..self.n())
            .filter(|&v| (0..self.size).any(|p| self.digit(p, v) > 0 && t[p] != t[p - self.strides[v]]))
            .collect()
    }
}

/// Bits of an arbitrary table drawn from words of the case, over values `vals`, with
/// structure: sparse, dense, depends-on-few-variables, threshold-like or random.
pub fn random_table(sp: &Space, vals: &[i64], s: &mut Src) -> Table {
    let style = s.below(8);
    let k = vals.len();
    match style {
        // depends on few variables
        0 | 1 => {
            let a = s.below(sp.n().max(1));
            let b = s.below(sp.n().max(1));
            let salt = s.u32() as usize;
            (0..sp.size)
                .map(|p| {
                    if sp.n() == 0 {
                        vals[salt % k]
                    } else {
                        let x = sp.digit(p, a) * 31 + sp.digit(p, b) * 7 + salt;
                        vals[(x ^ (x >> 3) ^ (x / 5)) % k]
                    }
                })
                .collect()
        }
        // sparse / dense
        2 => {
            let bg = vals[s.below(k)];
            let mut t = vec![bg; sp.size];
            let m = s.range(1, 4);
            for _ in 0..m {
                let p = s.below(sp.size);
                t[p] = vals[s.below(k)];
            }
            t
        }
        // sum of digits (symmetric, monotone) through a map
        3 => {
            let sh = s.below(3) + 1;
            let top: usize = sp.ranges.iter().map(|r| r - 1).sum();
            (0..sp.size)
                .map(|p| {
                    let x: usize = sp.point(p).iter().sum();
                    vals[(x * k / (top + 1) * sh).min(k - 1)]
                })
                .collect()
        }
        // a cube (partial assignment) against a background
        4 => {
            let bg = vals[s.below(k)];
            let fg = vals[s.below(k)];
            let fix: Vec<Option<usize>> = sp.ranges.iter().map(|&r| if s.chance(1, 2) { Some(s.below(r)) } else { None }).collect();
            (0..sp.size)
                .map(|p| if fix.iter().enumerate().all(|(v, f)| f.map_or(true, |x| sp.digit(p, v) == x)) { fg } else { bg })
                .collect()
        }
        // repeated blocks: shared sub-diagrams
        5 => {
            let cut = s.below(sp.n() + 1);
            let block: usize = sp.ranges[..cut].iter().product();
            let kinds = s.range(1, 3);
            let blocks: Vec<Table> = (0..kinds).map(|_| (0..block).map(|_| vals[s.below(k)]).collect()).collect();
            let mut t = vec![];
            for _ in 0..sp.size / block {
                t.extend(&blocks[s.below(kinds)]);
            }
            t
        }
        _ => (0..sp.size).map(|_| vals[s.below(k)]).collect(),
    }
}

/// Random ranges with a bounded product; mostly small state counts, sometimes large ones.
pub fn random_ranges(s: &mut Src, max_vars: usize, max_size: usize, binary: bool) -> Vec<usize> {
    let n = s.range(1, max_vars);
    let mut out = vec![];
    let mut size = 1usize;
    for _ in 0..n {
        let r = if binary {
            2
        } else {
            match s.below(20) {
                0..=6 => 2,
                7..=12 => 3,
                13..=15 => 4,
                16 | 17 => s.range(5, 9),
                18 => s.range(10, 40),
                _ => s.range(41, 300),
            }
        };
        let r = if size * r > max_size { 2 } else { r };
        if size * r > max_size {
            break;
        }
        size *= r;
        out.push(r);
    }
    if out.is_empty() {
        out.push(2);
    }
    out
}

/// Ranges whose product is close to `max_size`.
pub fn big_ranges(s: &mut Src, max_vars: usize, max_size: usize, binary: bool) -> Vec<usize> {
    let mut out = vec![];
    let mut size = 1usize;
    while out.len() < max_vars {
        let left = max_vars - out.len();
        let r = if binary { 2 } else { [2, 3, 3, 4, 5, 6][s.below(6)] };
        // stay able to reach the size with the variables left
        let need = ((max_size / size) as f64).powf(1.0 / left as f64).ceil() as usize;
        let r = if binary { r } else { r.max(need.min(8)) };
        if size * r > max_size {
            break;
        }
        size *= r;
        out.push(r);
    }
    for i in (1..out.len()).rev() {
        let j = s.below(i + 1);
        out.swap(i, j);
    }
    out
}
