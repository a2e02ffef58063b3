//! Case generation: directed cases first, then exhaustive small histories, then random ones.
use crate::case::*;
use crate::model::*;

pub const BIG: &[u64] = &[
    u64::MAX, u64::MAX - 1, u64::MAX - 2, u64::MAX - 7, u64::MAX - 8, u64::MAX - 9, 1 << 63, (1 << 63) - 1, 1 << 53, (1 << 53) + 1, (1 << 53) - 1,
    1 << 32, (1 << 32) - 1, (1 << 32) + 1, 1 << 31, 1 << 61, (1 << 61) - 1, 1 << 16, 65535, 255, 256, 257,
];
/// operands from here on are values, not numbers of values
pub const VALUE: u64 = 1 << 20;
pub const MID: &[u64] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128];

/// numbers of interest: the constants that the source has and the tree the search was written for had not
fn dict(name: &str) -> &'static [u64] {
    static D: std::sync::OnceLock<[Vec<u64>; 2]> = std::sync::OnceLock::new();
    let d = D.get_or_init(|| {
        ["GX_DICT", "GX_FDICT"].map(|n| std::env::var(n).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect())
    });
    &d[(name == "f") as usize]
}
/// one of them, or nearly, in one of `of` calls
fn hint(r: &mut Rng, of: u64) -> Option<u64> {
    let d = dict("");
    if d.is_empty() || r.below(of) > 0 {
        return None;
    }
    let x = r.pick(d);
    Some(match r.below(12) {
        0 | 1 => x.wrapping_add(1),
        2 | 3 => x.wrapping_sub(1),
        4 => x.wrapping_mul(8).wrapping_add(r.below(8)),
        5 => x / 8,
        6 => 1u64.checked_shl(x as u32).unwrap_or(x),
        7 => x.wrapping_add(r.below(9)),
        8 => x.wrapping_mul(2),
        _ => x,
    })
}
/// such a number, if it can be a number of things to make
fn size_hint(r: &mut Rng, of: u64, max: u64) -> Option<u64> {
    hint(r, of).filter(|x| (1..=max).contains(x))
}

fn vid(r: &mut Rng, mode: u64) -> u64 {
    if let Some(x) = hint(r, 5) {
        return x;
    }
    match mode {
        0 => r.below(4),
        1 => r.below(12),
        2 => r.below(70),
        3 => {
            if r.below(4) == 0 {
                r.pick(BIG)
            } else {
                r.pick(MID)
            }
        }
        4 => 8 + r.below(9),
        5 => r.pick(&[0, 1, 7, 8, 9, 1 << 40, (1 << 40) + 1, (1 << 40) + 8, (1 << 32) + 3, 1 << 32, 3]),
        _ => r.pick(BIG),
    }
}
/// operations of a graph history
pub fn graph_ops(r: &mut Rng, mode: u64, n: u64, deletes: bool) -> Vec<(String, Vec<u64>)> {
    let mut ops: Vec<(String, Vec<u64>)> = vec![];
    for _ in 0..n {
        let k = r.below(20);
        if k < 12 || (!deletes && k < 17) {
            // sometimes repeat or reverse an earlier edge
            if !ops.is_empty() && r.below(6) == 0 {
                let i = r.below(ops.len() as u64) as usize;
                if ops[i].1.len() >= 2 {
                    let (a, b) = (ops[i].1[0], ops[i].1[1]);
                    let e = if r.below(2) == 0 { vec![a, b] } else { vec![b, a] };
                    ops.push(("add".into(), e));
                    continue;
                }
            }
            let (a, b) = (vid(r, mode), vid(r, mode));
            ops.push(("add".into(), if r.below(8) == 0 { vec![a, a] } else { vec![a, b] }));
        } else if k < 17 {
            if !ops.is_empty() && r.below(5) != 0 {
                let i = r.below(ops.len() as u64) as usize;
                if ops[i].1.len() >= 2 {
                    let (a, b) = (ops[i].1[0], ops[i].1[1]);
                    ops.push(("del".into(), if r.below(3) > 0 { vec![a, b] } else { vec![b, a] }));
                    continue;
                }
            }
            ops.push(("del".into(), vec![vid(r, mode), vid(r, mode)]));
        } else if k == 17 {
            ops.push(("vertn".into(), vec![vid(r, mode)]));
        } else {
            let mut a = vec![vid(r, mode)];
            for _ in 0..r.below(5) {
                a.push(vid(r, mode));
            }
            ops.push(("vert".into(), a));
        }
    }
    ops
}
/// a few dense blocks
pub fn dense_ops(r: &mut Rng, bd: u64) -> Vec<(String, Vec<u64>)> {
    let mut ops = vec![];
    let base = r.pick(&[0u64, 0, 0, 1, 2, 5, 1 << 37]);
    if r.below(3) == 0 {
        ops.push(("vertn".into(), vec![base.saturating_mul(bd) + r.below(40)]));
    }
    for _ in 0..1 + r.below(3) {
        let (c, w) = (base + r.below(3), base + r.below(3));
        let m = match r.below(4) {
            _ if !dict("").is_empty() && r.below(3) == 0 => size_hint(r, 1, bd * bd).unwrap_or(1),
            0 => bd * bd,
            1 => r.below(bd * bd + 1),
            2 => (bd * bd).saturating_sub(r.below(4)),
            _ => r.below(6),
        };
        let mut cells: Vec<u64> = (0..bd * bd).collect();
        for i in 0..cells.len() {
            let j = i + r.below((cells.len() - i) as u64) as usize;
            cells.swap(i, j);
        }
        for x in cells.into_iter().take(m as usize) {
            ops.push(("add".into(), vec![c * bd + x % bd, w * bd + x / bd]));
        }
    }
    ops
}
pub fn model(und: bool, ops: &[(String, Vec<u64>)]) -> G {
    let mut g = G::new(und);
    for (n, a) in ops {
        apply(&mut g, n, a);
    }
    g
}
pub fn apply(g: &mut G, n: &str, a: &[u64]) {
    match n {
        "add" => g.add(a[0], a[1]),
        "del" => g.del(a[0], a[1]),
        "vertn" => g.vert(a[0], &[]),
        "vert" => g.vert(a[0], &a[1..]),
        "fan" => (0..a[1]).for_each(|i| g.add(a[0], i)),
        "cofan" => (0..a[1]).for_each(|i| g.add(i, a[0])),
        _ => panic!("bad op {n}"),
    }
}

pub const BDS: &[u64] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 64, 100, 1 << 32, u64::MAX, 1 << 16, 1 << 53, (1 << 32) + 1, 10, 6];

/// the number of a value, or a value itself (see `numeric!` in check.rs)
fn value(r: &mut Rng) -> u64 {
    hint(r, 4).map_or_else(|| r.below(30), |x| x.saturating_add(VALUE))
}
fn matrix_ops(r: &mut Rng, prop: &str, mode: u64, n: u64) -> Vec<(String, Vec<u64>)> {
    let mut ops: Vec<(String, Vec<u64>)> = vec![];
    for _ in 0..n {
        let (mut c, mut w) = (vid(r, mode), vid(r, mode));
        if !ops.is_empty() && r.below(2) == 0 {
            let i = r.below(ops.len() as u64) as usize;
            let a = &ops[i].1;
            let l = a.len();
            (c, w) = if r.below(4) == 0 { (a[l - 1], a[l - 2]) } else { (a[l - 2], a[l - 1]) };
        }
        match r.below(10) {
            0..=4 => ops.push(("set".into(), vec![if prop == "C01" { r.pick(&[0, 1, 1, 1, 2, 255, 128]) } else { value(r) }, c, w])),
            5 => ops.push(("set".into(), vec![0, c, w])),
            6 | 7 => ops.push(("zero".into(), vec![c, w])),
            _ if prop == "C02" => ops.push(("inc".into(), vec![c, w])),
            _ => ops.push(("set".into(), vec![1, c, w])),
        }
    }
    ops
}

/// many cells in one row or column, or a full square; then some of them again
fn big_ops(r: &mut Rng, graph: bool, prop: &str) -> Vec<(String, Vec<u64>)> {
    let n = r.pick(&[9, 12, 17, 33, 60, 66, 70, 100, 130, 257, 300]);
    let n = size_hint(r, 2, if prop == "C16" { 280 } else { 70000 }).unwrap_or(n);
    let n = if prop == "C16" && r.below(8) > 0 { n.min(66) } else { n };
    let x = vid(r, 1);
    let step = r.pick(&[1, 1, 1, 2, 8, 1 << 33]);
    let step = if prop == "C16" { 1 } else { step };
    let mut cells = vec![];
    match r.below(5) {
        0 => (0..n).for_each(|i| cells.push((x, i * step))),
        1 => (0..n).for_each(|i| cells.push((i * step, x))),
        2 => (0..n).for_each(|i| cells.push((i * step, (i + 1) % n * step))),
        3 => {
            let m = 2 + r.below(if graph { 20 } else { 12 });
            (0..m).for_each(|i| (0..m).for_each(|j| cells.push((i * step, j * step))))
        }
        _ => (0..n).for_each(|i| cells.push((x, i * step + r.below(3)))),
    }
    if r.below(2) == 0 {
        cells.reverse();
    }
    if graph && r.below(4) == 0 {
        // one long list
        let mut a = vec![x];
        a.extend(cells.iter().map(|c| if c.0 == x { c.1 } else { c.0 }));
        return vec![("vert".into(), a)];
    }
    let name = if graph { "add" } else { "set" };
    let op = |r: &mut Rng, n: &str, c: (u64, u64)| {
        let v = if n == "set" { vec![if prop == "C01" { 1 } else { 1 + r.below(13) }, c.0, c.1] } else { vec![c.0, c.1] };
        (n.to_string(), v)
    };
    let mut ops: Vec<_> = cells.iter().map(|c| op(r, name, *c)).collect();
    let again = match r.below(3) {
        0 => 0,
        1 => r.below(6),
        _ => cells.len() as u64,
    };
    for i in 0..again {
        let c = if again > 6 { cells[i as usize] } else { cells[r.below(cells.len() as u64) as usize] };
        ops.push(op(r, if graph { "del" } else { "zero" }, c));
    }
    let (m, l) = (r.below(3), r.below(5));
    ops.extend(if graph { graph_ops(r, m, l, true) } else { matrix_ops(r, prop, m, l) });
    ops
}

/// all histories of length `len` over a small alphabet, the k-th one
fn small_history(alpha: &[(&str, Vec<u64>)], mut k: u64, len: u32) -> Vec<(String, Vec<u64>)> {
    let mut ops = vec![];
    for _ in 0..len {
        let (n, a) = &alpha[(k % alpha.len() as u64) as usize];
        ops.push((n.to_string(), a.clone()));
        k /= alpha.len() as u64;
    }
    ops
}
fn graph_alpha() -> Vec<(&'static str, Vec<u64>)> {
    let mut v = vec![];
    let ids = [0u64, 1, 2];
    for a in ids {
        for b in ids {
            v.push(("add", vec![a, b]));
            if a != 2 || b != 2 {
                v.push(("del", vec![a, b]));
            }
        }
    }
    let m = u64::MAX;
    v.extend([
        ("vertn", vec![0]), ("vertn", vec![3]), ("vert", vec![1, 0, 2]), ("vert", vec![2]), ("vert", vec![4, m]), ("vertn", vec![m]),
        ("add", vec![m, 0]), ("add", vec![0, m]), ("add", vec![m - 1, 1]), ("add", vec![1, m - 1]), ("del", vec![m - 1, 1]), ("del", vec![m, m]),
    ]);
    v
}
fn matrix_alpha(prop: &str) -> Vec<(&'static str, Vec<u64>)> {
    let mut v = vec![];
    let m = u64::MAX;
    for (a, b) in [(0, 0), (0, 1), (1, 0), (2, 1), (m - 1, 3), (m, 0), (0, m)] {
        v.push(("set", vec![1, a, b]));
        v.push(("set", vec![0, a, b]));
        v.push(("zero", vec![a, b]));
        if prop == "C02" {
            v.push(("inc", vec![a, b]));
            v.push(("set", vec![3, a, b]));
        } else {
            v.push(("set", vec![200, a, b]));
        }
    }
    v
}

fn put(b: &mut [u8], at: usize, v: &[u8]) {
    for (i, x) in v.iter().enumerate() {
        if at + i < b.len() {
            b[at + i] = *x;
        }
    }
}
fn mutate(r: &mut Rng, b: &mut Vec<u8>, head: usize, item: usize, fields: &[(usize, usize)]) {
    for _ in 0..1 + r.below(2) {
        match r.below(11) {
            0 => {
                let n = r.below(b.len() as u64 + 1) as usize;
                b.truncate(n)
            }
            1 => b.extend(std::iter::repeat(0).take(1 + r.below(20) as usize)),
            2 if !b.is_empty() => {
                let i = r.below(b.len() as u64) as usize;
                b[i] ^= 1 << r.below(8)
            }
            3 if !b.is_empty() => {
                let i = r.below(b.len() as u64) as usize;
                b[i] = r.pick(&[0, 1, 2, 255, 128, 64, 65])
            }
            4 | 5 => {
                let (at, w) = r.pick(fields);
                if w == 8 {
                    let k = r.below(9);
                    let old = b.get(at..at + 8).map(|x| u64::from_be_bytes(x.try_into().unwrap())).unwrap_or(0);
                    let v = match r.below(4) {
                        0 => old.wrapping_add(1),
                        1 => old.wrapping_sub(1),
                        2 => old.wrapping_add(k << 60),
                        _ if !dict("").is_empty() && r.below(2) == 0 => hint(r, 1).unwrap(),
                        _ => r.pick(BIG),
                    };
                    put(b, at, &v.to_be_bytes());
                } else if w == 4 {
                    let old = b.get(at..at + 4).map(|x| u32::from_be_bytes(x.try_into().unwrap())).unwrap_or(0);
                    let v = match r.below(3) {
                        0 => old.wrapping_add(1),
                        1 => old.wrapping_sub(1),
                        _ => old.swap_bytes(),
                    };
                    put(b, at, &v.to_be_bytes());
                } else {
                    put(b, at, &[hint(r, 3).map_or_else(|| r.pick(&[0u8, 1, 2, 3, 63, 64, 65, 128, 255]), |x| x as u8)]);
                }
            }
            6 | 7 if b.len() >= head + item => {
                // duplicate an item, count adjusted
                let n = (b.len() - head) / item;
                let i = r.below(n as u64) as usize;
                let it = b[head + i * item..head + (i + 1) * item].to_vec();
                if r.below(2) == 0 {
                    b.extend(&it);
                    put(b, 16, &(n as u64 + 1).to_be_bytes());
                } else {
                    let j = r.below(n as u64) as usize;
                    put(b, head + j * item, &it);
                }
                if head == 42 && r.below(2) == 0 {
                    let e: u64 = b[42..].chunks_exact(24).map(|c| u64::from_be_bytes(c[..8].try_into().unwrap()).count_ones() as u64).sum();
                    put(b, 24, &e.to_be_bytes());
                }
            }
            8 if b.len() >= head + item => {
                // drop an item, count adjusted
                let n = (b.len() - head) / item;
                let i = r.below(n as u64) as usize;
                b.drain(head + i * item..head + (i + 1) * item);
                put(b, 16, &(n as u64 - 1).to_be_bytes());
                if head == 42 {
                    let e: u64 = b[42..].chunks_exact(24).map(|c| u64::from_be_bytes(c[..8].try_into().unwrap()).count_ones() as u64).sum();
                    put(b, 24, &e.to_be_bytes());
                }
            }
            9 if b.len() >= head + item => {
                let n = (b.len() - head) / item;
                let at = head + r.below((n * item / 8) as u64) as usize * 8;
                let old = u64::from_be_bytes(b[at..at + 8].try_into().unwrap());
                let v = match r.below(4) {
                    0 => old.wrapping_add(1),
                    1 => old ^ (1 << r.below(64)),
                    2 => hint(r, 2).unwrap_or_else(|| r.pick(BIG)),
                    _ => r.below(3),
                };
                put(b, at, &v.to_be_bytes());
                if head == 42 && r.below(4) > 0 {
                    let e: u64 = b[42..].chunks_exact(24).map(|c| u64::from_be_bytes(c[..8].try_into().unwrap()).count_ones() as u64).sum();
                    put(b, 24, &e.to_be_bytes());
                }
            }
            _ if b.len() >= head + 2 * item => {
                let n = (b.len() - head) / item;
                let (i, j) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
                let a = b[head + i * item..head + (i + 1) * item].to_vec();
                let c = b[head + j * item..head + (j + 1) * item].to_vec();
                put(b, head + i * item, &c);
                put(b, head + j * item, &a);
            }
            _ => {}
        }
    }
}

/// a random compressed graph
pub fn compressed(r: &mut Rng) -> C {
    let und = r.below(2) == 0;
    let n = match r.below(8) {
        0 => 0,
        1 => 1 + r.below(8),
        2 => r.pick(BIG),
        _ => hint(r, 3).unwrap_or_else(|| r.below(40)),
    };
    let mut c = C { und, n, level: 1 + (hint(r, 4).unwrap_or_else(|| r.below(64)) % 64) as u8, b: Default::default() };
    let d = c.mdim();
    for _ in 0..r.below(5) {
        let col = if r.below(2) == 0 { r.below(d) } else { d - 1 - r.below(d.min(3)) };
        let row = if r.below(2) == 0 { r.below(d) } else { d - 1 - r.below(d.min(3)) };
        let mut e = match r.below(4) {
            0 => u64::MAX,
            _ if !dict("").is_empty() && r.below(3) == 0 => hint(r, 1).unwrap(),
            1 => 1 << r.below(64),
            2 => r.next(),
            _ => r.next() & r.next() & r.next(),
        };
        for i in 0..64u64 {
            if col as u128 * 8 + (i % 8) as u128 >= n as u128 || row as u128 * 8 + (i / 8) as u128 >= n as u128 {
                e &= !(1 << i);
            }
        }
        let t = (0..64u64).filter(|i| e >> i & 1 == 1).fold(0u64, |t, i| t | 1 << (8 * (i % 8) + i / 8));
        if e == 0 {
            continue;
        }
        if und {
            if col == row {
                c.b.insert((col, row), e | t);
            } else {
                c.b.insert((col, row), e);
                c.b.insert((row, col), t);
            }
        } else {
            c.b.insert((col, row), e);
        }
    }
    c
}

/// the k-th case of a property
pub fn case(prop: &str, k: u64, seed: u64) -> Case {
    let mut r = Rng(seed.wrapping_mul(0x1000193) ^ k.wrapping_mul(0x9e3779b97f4a7c15) ^ 77);
    let r = &mut r;
    let mut c = Case::new(prop, k % 2 == 1);
    match prop {
        "C01" | "C02" => {
            let alpha = matrix_alpha(prop);
            let n = alpha.len() as u64;
            c.args = vec![(k / 2) % 12];
            if k < n * n {
                c.ops = small_history(&alpha, k, 2);
                c.args = vec![k % 12];
            } else if k % 3 == 0 {
                c.ops = small_history(&alpha, r.next(), 3 + (k % 5) as u32);
            } else if r.below(30) == 0 {
                c.ops = big_ops(r, false, prop);
            } else {
                let (m, l) = (r.below(7), 1 + r.below(40));
                c.ops = matrix_ops(r, prop, m, l);
            }
        }
        "C17" => {
            let digits = [0, 1, 2, 3, 4, 5, 8, 17, 40, 400, 65535, 65536, u64::MAX, u64::MAX - 1, u64::MAX / 2];
            c.args = vec![k % 13, if r.below(3) > 0 { k / 13 % 5 } else { r.pick(&digits) }];
            if c.args[0] == 12 {
                let (m, l) = (1 + r.below(40), r.below(60));
                for _ in 0..l {
                    c.ops.push(("add".into(), vec![r.below(m), r.below(m)]));
                }
            } else {
                let (mut m, l) = (1 + r.below(5), r.below(9));
                if let Some(n) = size_hint(r, 200, 320) {
                    m = n;
                    c.args[1] %= 3;
                } else if r.below(2000) == 0 {
                    // wide enough for an index that is cut to eight bits
                    m = 280 + r.below(20);
                    c.args[1] %= 3;
                }
                for _ in 0..l {
                    c.ops.push((if r.below(6) == 0 { "zero" } else { "set" }.into(), vec![value(r), r.below(m), r.below(m)]));
                }
                if r.below(60) == 0 {
                    c.ops.push(("set".into(), vec![r.below(12), r.pick(&[1 << 30, 1 << 32, u64::MAX - 1]), r.below(4)]));
                }
            }
        }
        "C03" | "C04" | "C05" | "C06" | "C12" | "C16" | "C18" | "C19" | "C10" | "C09" | "C07" | "C08" | "C11" | "C14" => {
            let alpha = graph_alpha();
            let n = alpha.len() as u64;
            let blocky = matches!(prop, "C07" | "C08" | "C09" | "C10" | "C11" | "C14" | "C04" | "C18" | "C19");
            let j = k / 2;
            let bd = hint(r, 6).unwrap_or(r.pick(BDS));
            if (300..308).contains(&k) && prop != "C16" {
                // more neighbours than 8 and 16 bits count
                // (in the C interface, one of them in each process: it takes a while)
                let wide = if prop == "C18" || prop == "C19" { k - 300 == seed / 1000 % 8 } else { k / 4 % 2 == 1 };
                let m = if !wide { 257 } else if prop == "C03" { 300 } else { 65537 };
                c.ops = vec![(["fan", "cofan"][(k / 2 % 2) as usize].to_string(), vec![1 + k % 3, m])];
            } else if let (true, Some(n)) = (k > 308 && k % 16 == 3 && prop != "C16", size_hint(r, 4, 70000)) {
                c.ops = vec![(["fan", "cofan"][r.below(2) as usize].to_string(), vec![1 + k % 3, n])];
            } else if j < n {
                c.ops = small_history(&alpha, j, 1);
            } else if j < n + n * n && (!blocky || k % 3 == 0) {
                c.ops = small_history(&alpha, j - n, 2);
            } else if k % 5 == 0 {
                c.ops = small_history(&alpha, r.next(), 3 + (k % 3) as u32);
            } else if blocky && k % 2 == 0 {
                let b = if prop == "C07" || prop == "C08" { let most = r.pick(&[8, 8, 21]); 1 + r.below(most) } else { 8 };
                c.ops = dense_ops(r, b);
                if r.below(3) == 0 {
                    let m = r.below(5);
                    let l = r.below(6);
                    c.ops.extend(graph_ops(r, m, l, true));
                }
                c.args = vec![b];
                c.und = r.below(2) == 0;
            } else if r.below(20) == 0 {
                c.ops = big_ops(r, true, prop);
                c.und = r.below(2) == 0;
            } else {
                let m = r.below(7);
                let l = r.below(if m == 2 || m == 4 { 200 } else { 30 });
                c.ops = graph_ops(r, m, l, prop != "C12");
                c.und = r.below(2) == 0;
            }
            if c.args.is_empty() || r.below(3) == 0 {
                c.args = vec![bd];
            }
            // a threshold (C08), a level (C09..), a vertex (C05)
            let b = c.args[0].clamp(1, 1 << 20);
            let t: f64 = match r.below(12) {
                0 => 0.0,
                1 => -1.0,
                2 => 2.0,
                3 => 1.0,
                4 => 1e-19,
                5 => 5e-19,
                6 => (1 + r.below(b * b)) as f64 / (b * b) as f64,
                7 => (1 + r.below(b * b)) as f64 / (b * b) as f64 * r.pick(&[0.999, 1.001, 1.0]),
                8..=10 => {
                    // a value that the pooling has, or nearly
                    let m = model(c.und, &c.ops);
                    let b = b.min(m.dim.max(1));
                    let v: Vec<u64> = m.blocks(b).values().copied().collect();
                    let n = if v.is_empty() { 1 } else { r.pick(&v) } as f64;
                    let t = if r.below(2) == 0 { n * (1.0 / (b * b) as f64) } else { n / (b * b) as f64 };
                    f64::from_bits((t.to_bits() + r.pick(&[1, 1, 2, 0, 1])).saturating_sub(1))
                }
                _ => r.below(1000) as f64 / 1000.0,
            };
            let f = dict("f");
            let t = if !f.is_empty() && r.below(3) == 0 {
                let x = f64::from_bits(r.pick(f));
                match r.below(5) {
                    0 => f64::from_bits(x.to_bits() + 1),
                    1 => f64::from_bits(x.to_bits().saturating_sub(1)),
                    2 => t + x,
                    3 => t - x,
                    _ => x,
                }
            } else {
                t
            };
            c.args.push(t.to_bits());
            c.args.push(match r.below(5) {
                0 => r.pick(&[0, 1, 64, 65, 255, 2, 63]),
                1 => 1,
                2 => 1 + r.below(8),
                3 => {
                    let g = model(c.und, &c.ops);
                    let m = g.blocks(8);
                    let v: Vec<u64> = m.values().copied().collect();
                    if v.is_empty() { 1 } else { (r.pick(&v) + r.below(3)).saturating_sub(1) }
                }
                _ => hint(r, 3).unwrap_or_else(|| r.below(66)),
            });
        }
        "C13" => {
            let (m, l) = (r.below(5), r.below(8));
            let g = model(c.und, &graph_ops(r, m, l, true));
            c.bytes = g.bytes();
            if c.und && r.below(4) == 0 && g.e.len() > 1 {
                // an undirected listing that repeats an edge instead of listing its reverse
                let n = c.bytes.len();
                let a = c.bytes[n - 16..n - 8].to_vec();
                let b = c.bytes[n - 8..].to_vec();
                put(&mut c.bytes, n - 16, &b);
                put(&mut c.bytes, n - 8, &a);
            }
            if k % 4 != 0 {
                mutate(r, &mut c.bytes, 26, 16, &[(0, 4), (4, 4), (8, 8), (16, 8), (24, 1), (25, 1)]);
            }
            c.und = false;
        }
        "C15" => {
            c.und = false;
            c.bytes = compressed(r).bytes();
            if k % 4 != 0 {
                mutate(r, &mut c.bytes, 42, 24, &[(0, 4), (4, 4), (8, 8), (16, 8), (24, 8), (32, 8), (40, 1), (41, 1)]);
            }
        }
        _ => panic!("unknown property {prop}"),
    }
    c
}
