//! Rewrites a binary without changing what it means, or with a small random change.

/// A small deterministic generator (splitmix64).
pub struct Rnd(pub u64);
impl Rnd {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
}

fn leb(out: &mut Vec<u8>, mut x: u32, min: usize) {
    for i in 1.. {
        let b = (x & 0x7f) as u8;
        x >>= 7;
        if x == 0 && i >= min {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
fn unleb(b: &[u8], p: &mut usize) -> Option<u32> {
    let (mut r, mut s) = (0u64, 0);
    loop {
        let x = *b.get(*p)?;
        *p += 1;
        r |= ((x & 0x7f) as u64) << s;
        if x & 0x80 == 0 {
            return u32::try_from(r).ok();
        }
        s += 7;
        if s > 28 {
            return None;
        }
    }
}

/// The sections of a well-formed binary: id and payload.
pub fn sections(b: &[u8]) -> Option<Vec<(u8, Vec<u8>)>> {
    let (mut p, mut out) = (8, vec![]);
    while p < b.len() {
        let id = b[p];
        p += 1;
        let n = unleb(b, &mut p)? as usize;
        out.push((id, b.get(p..p + n)?.to_vec()));
        p += n;
    }
    Some(out)
}
/// The function bodies of a code section.
fn bodies(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut p = 0;
    let n = unleb(b, &mut p)?;
    let mut out = vec![];
    for _ in 0..n {
        let k = unleb(b, &mut p)? as usize;
        out.push(b.get(p..p + k)?.to_vec());
        p += k;
    }
    Some(out)
}

fn custom(r: &mut Rnd) -> (u8, Vec<u8>) {
    let names: [&[u8]; 8] = [b"", b"x", b"name", b"producers", b"target_features", b"dylink.0", b"metadata.code.branch_hint", b"\xc3\xa9"];
    let n = names[r.below(8)];
    let mut p = vec![];
    leb(&mut p, n.len() as u32, 1 + r.below(5));
    p.extend_from_slice(n);
    for _ in 0..[0, 1, 5, 40, 300, 9000][r.below(6)] {
        p.push(r.next() as u8);
    }
    (0, p)
}

/// The same module laid out differently: custom sections in between, overlong section sizes, and
/// every function body at least `pad` bytes long (empty groups of locals).
/// Format of `spec`: `<seed>[c][l][p<pad>]`.
pub fn relayout(b: &[u8], spec: &str) -> Option<Vec<u8>> {
    let seed: u64 = spec.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()?;
    let pad: usize = spec.split_once('p').map_or(0, |x| x.1.parse().unwrap());
    let mut r = Rnd(seed);
    let (cust, long) = (spec.contains('c'), spec.contains('l'));
    let mut secs = vec![];
    for (id, payload) in sections(b)? {
        while cust && r.below(3) == 0 {
            secs.push(custom(&mut r));
        }
        let payload = if id == 10 && (pad > 0 || long) {
            let bs = bodies(&payload)?;
            let mut out = vec![];
            leb(&mut out, bs.len() as u32, if long { 1 + r.below(5) } else { 1 });
            for body in bs {
                let mut p = 0;
                let groups = unleb(&body, &mut p)?;
                let want = if r.below(4) == 0 { pad + r.below(pad + 1) } else { pad };
                let more = want.saturating_sub(body.len()).div_ceil(6);
                let mut nb = vec![];
                leb(&mut nb, groups + more as u32, if long { 1 + r.below(5) } else { 1 });
                for _ in 0..more {
                    leb(&mut nb, 0, 5);
                    nb.push([0x7f, 0x7e, 0x7d, 0x7c, 0x7b, 0x70, 0x6f][r.below(7)]);
                }
                nb.extend_from_slice(&body[p..]);
                leb(&mut out, nb.len() as u32, if long { 1 + r.below(5) } else { 1 });
                out.extend(nb);
            }
            out
        } else {
            payload
        };
        secs.push((id, payload));
    }
    while cust && r.below(2) == 0 {
        secs.push(custom(&mut r));
    }
    let mut out = b[..8].to_vec();
    for (id, p) in secs {
        out.push(id);
        leb(&mut out, p.len() as u32, if long { 1 + r.below(5) } else { 1 });
        out.extend(p);
    }
    Some(out)
}

/// A random change: inside a function body, inside a section, of the section sequence, or of the
/// raw bytes.
pub fn mutate(b: &[u8], seed: u64) -> Vec<u8> {
    let mut r = Rnd(seed);
    let raw = |r: &mut Rnd, b: &mut Vec<u8>, from: usize| {
        let n = b.len();
        if n <= from {
            return;
        }
        let i = from + r.below(n - from);
        let ops = [0x00, 0x01, 0x02, 0x05, 0x0b, 0x0c, 0x0f, 0x10, 0x1a, 0x1b, 0x20, 0x21, 0x41, 0x42, 0x6a, 0x7c, 0xa7, 0xd0, 0xfc, 0xfd, 0x7f, 0x7e, 0x7b, 0x70, 0x6f, 0x40, 0x80, 0xff];
        match r.below(8) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = r.next() as u8,
            2 => b[i] = ops[r.below(ops.len())],
            3 => b[i] = b[i].wrapping_add(1),
            4 => b[i] = b[i].wrapping_sub(1),
            5 => {
                b.remove(i);
            }
            6 => b.insert(i, ops[r.below(ops.len())]),
            _ => {
                let j = from + r.below(n - from);
                b[i] = b[j];
            }
        }
    };
    let build = |secs: &[(u8, Vec<u8>)]| {
        let mut out = b[..8].to_vec();
        for (id, p) in secs {
            out.push(*id);
            leb(&mut out, p.len() as u32, 1);
            out.extend(p);
        }
        out
    };
    let Some(mut secs) = sections(b) else { return b.to_vec() };
    match r.below(12) {
        0..=5 => {
            // a function body, its size adjusted
            let Some(ci) = secs.iter().position(|s| s.0 == 10) else { return b.to_vec() };
            let Some(mut bs) = bodies(&secs[ci].1) else { return b.to_vec() };
            if bs.is_empty() {
                return b.to_vec();
            }
            let k = r.below(bs.len());
            // past the (padding) groups of locals
            let mut p = 0;
            let groups = unleb(&bs[k], &mut p).unwrap_or(0);
            for _ in 0..groups {
                unleb(&bs[k], &mut p);
                p += 1;
            }
            let from = if r.below(6) == 0 { 0 } else { p.min(bs[k].len().saturating_sub(1)) };
            for _ in 0..[1, 1, 1, 2][r.below(4)] {
                raw(&mut r, &mut bs[k], from);
            }
            if r.below(20) == 0 {
                bs.remove(k);
            }
            let mut out = vec![];
            leb(&mut out, bs.len() as u32, 1);
            for x in &bs {
                leb(&mut out, x.len() as u32, 1);
                out.extend(x);
            }
            secs[ci].1 = out;
            build(&secs)
        }
        6..=8 => {
            let others: Vec<usize> = (0..secs.len()).filter(|i| secs[*i].0 != 10 && secs[*i].0 != 0).collect();
            if others.is_empty() {
                return b.to_vec();
            }
            let k = others[r.below(others.len())];
            let s = &mut secs[k].1;
            raw(&mut r, s, 0);
            build(&secs)
        }
        9 => {
            let (i, j) = (r.below(secs.len().max(1)), r.below(secs.len().max(1)));
            if secs.is_empty() {
                return b.to_vec();
            }
            match r.below(4) {
                0 => secs.swap(i, j),
                1 => {
                    secs.remove(i);
                }
                2 => {
                    let s = secs[i].clone();
                    secs.insert(j, s);
                }
                _ => secs[i].0 = r.below(15) as u8,
            }
            build(&secs)
        }
        10 => {
            let n = r.below(b.len());
            let mut c = b.to_vec();
            if r.below(3) == 0 { c.extend_from_slice(&b[..n.min(9)]) } else { c.truncate(n) }
            c
        }
        _ => {
            let mut c = b.to_vec();
            raw(&mut r, &mut c, 0);
            c
        }
    }
}
