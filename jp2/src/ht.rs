//! C28: high-throughput code-blocks (ISO/IEC 15444-15). A block encoder written from the standard, used in
//! place of the one of Part 1 by the reference encoder; what the library makes of the codestream is compared
//! with what the reference decoder makes of the same coefficients coded as in Part 1.

use crate::driver::*;
use crate::httab::{VLC0, VLC1};
use crate::lay;
use crate::refenc::{Choices, Coded};
use crate::refj2k;
use mck::*;
use std::rc::Rc;

pub const HT: u8 = 0x40;
const CAUSAL: u8 = 0x08;

/// How blocks are coded.
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Mode {
    /// the cleanup pass codes bit-plane `plane`
    pub plane: u32,
    /// 1 cleanup, 2 and significance propagation, 3 and magnitude refinement
    pub passes: u32,
    /// MEL and VLC share a byte where they can
    pub fuse: bool,
    /// of the codes that fit a quad: the one that leaves most, or least, to the magnitude bits
    pub least: bool,
}
/// Bits, least significant first, in a stream that grows forwards.
struct Forward {
    b: Vec<u8>,
    tmp: u32,
    used: u32,
}
impl Forward {
    fn new() -> Forward {
        Forward { b: vec![], tmp: 0, used: 0 }
    }
    fn room(&self) -> u32 {
        if self.b.last() == Some(&0xFF) {
            7
        } else {
            8
        }
    }
    fn bits(&mut self, v: u64, n: u32) {
        for k in 0..n {
            self.tmp |= ((v >> k & 1) as u32) << self.used;
            self.used += 1;
            if self.used == self.room() {
                self.b.push(self.tmp as u8);
                self.tmp = 0;
                self.used = 0;
            }
        }
    }
    /// `ones`: what is missing is read as ones
    fn finish(mut self, ones: bool) -> Vec<u8> {
        if self.used > 0 {
            let r = self.room();
            if ones {
                for k in self.used..r {
                    self.tmp |= 1 << k;
                }
            }
            self.b.push(self.tmp as u8);
        }
        if self.b.last() == Some(&0xFF) {
            if ones {
                self.b.pop();
            } else {
                self.b.push(0);
            }
        }
        self.b
    }
}
/// Bits, least significant first, in a stream that grows backwards.
struct Backward {
    b: Vec<u8>,
    tmp: u32,
    used: u32,
    great: bool,
}
impl Backward {
    fn bits(&mut self, v: u64, n: u32) {
        for k in 0..n {
            self.tmp |= ((v >> k & 1) as u32) << self.used;
            self.used += 1;
            let full = if self.great && self.tmp == 0x7F { 7 } else { 8 };
            if self.used == full {
                self.push();
            }
        }
    }
    fn push(&mut self) {
        self.b.push(self.tmp as u8);
        self.great = self.tmp > 0x8F;
        self.tmp = 0;
        self.used = 0;
    }
}
const MEL_E: [u32; 13] = [0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5];
struct Mel {
    b: Vec<u8>,
    tmp: u32,
    left: u32,
    k: usize,
    run: u32,
}
impl Mel {
    fn bit(&mut self, v: bool) {
        self.tmp = self.tmp << 1 | v as u32;
        self.left -= 1;
        if self.left == 0 {
            self.b.push(self.tmp as u8);
            self.left = if self.tmp == 0xFF { 7 } else { 8 };
            self.tmp = 0;
        }
    }
    fn event(&mut self, v: bool) {
        if v {
            self.bit(false);
            for i in (0..MEL_E[self.k]).rev() {
                self.bit(self.run >> i & 1 == 1);
            }
            self.run = 0;
            self.k = self.k.saturating_sub(1);
        } else {
            self.run += 1;
            if self.run == 1 << MEL_E[self.k] {
                self.bit(true);
                self.run = 0;
                self.k = (self.k + 1).min(12);
            }
        }
    }
}
/// A quad's code: bits, their number, e_k.
fn code(first: bool, c: usize, rho: u32, emb: u32, least: bool) -> (u32, u32, u32) {
    let t = if first { &VLC0 } else { &VLC1 };
    let mut best: Option<(u32, u32, u32)> = None;
    for v in 0..128u32 {
        let e = t[c << 7 | v as usize] as u32;
        let (len, off, r, e1, ek) = (e & 7, e >> 3 & 1, e >> 4 & 15, e >> 8 & 15, e >> 12);
        if len == 0 || v >> len != 0 || r != rho || (off == 1) != (emb != 0) || emb & ek != e1 {
            continue;
        }
        let better = match best {
            None => true,
            Some(b) => (ek.count_ones() > b.2.count_ones()) != least,
        };
        if better {
            best = Some((v, len, ek));
        }
    }
    best.unwrap_or_else(|| panic!("no code for context {c}, quad {rho:x}, {emb:x}"))
}
/// Prefix and suffix of u: (bits, length).
fn uvlc(u: u32) -> [(u32, u32); 2] {
    match u {
        0 => [(0, 0), (0, 0)],
        1 => [(1, 1), (0, 0)],
        2 => [(2, 2), (0, 0)],
        3 | 4 => [(4, 3), (u - 3, 1)],
        _ => {
            assert!(u < 33);
            [(0, 3), (u - 5, 5)]
        }
    }
}
fn cleanup(v: &[(bool, u64)], w: usize, h: usize, m: Mode) -> Vec<u8> {
    let (qw, qh) = (w.div_ceil(2), h.div_ceil(2));
    let at = |x: isize, y: isize| -> (bool, u64) {
        if x < 0 || y < 0 || x >= w as isize || y >= h as isize {
            (false, 0)
        } else {
            let s = v[y as usize * w + x as usize];
            (s.0, s.1 >> m.plane)
        }
    };
    let sig = |x: isize, y: isize| (at(x, y).1 != 0) as u32;
    let exp = |x: isize, y: isize| {
        let k = at(x, y).1;
        if k == 0 {
            0
        } else {
            64 - (2 * k - 1).leading_zeros()
        }
    };
    let mut ms = Forward::new();
    let mut mel = Mel { b: vec![], tmp: 0, left: 8, k: 0, run: 0 };
    let mut vlc = Backward { b: vec![0xFF], tmp: 0xF, used: 4, great: true };
    for qy in 0..qh {
        for pair in 0..qw.div_ceil(2) {
            let mut us = [0u32; 2];
            for side in 0..2 {
                let qx = pair * 2 + side;
                if qx >= qw {
                    continue;
                }
                let (x, y) = (2 * qx as isize, 2 * qy as isize);
                let pos = [(x, y), (x, y + 1), (x + 1, y), (x + 1, y + 1)];
                let c = if qy == 0 {
                    (sig(x - 2, y) | sig(x - 2, y + 1)) + 2 * sig(x - 1, y) + 4 * sig(x - 1, y + 1)
                } else {
                    (sig(x - 1, y - 1) | sig(x, y - 1)) + 2 * (sig(x - 1, y) | sig(x - 1, y + 1)) + 4 * (sig(x + 1, y - 1) | sig(x + 2, y - 1))
                };
                let rho: u32 = (0..4).map(|k| sig(pos[k].0, pos[k].1) << k).sum();
                if c == 0 {
                    mel.event(rho != 0);
                    if rho == 0 {
                        continue;
                    }
                }
                let e: Vec<u32> = pos.iter().map(|p| exp(p.0, p.1)).collect();
                let top = *e.iter().max().unwrap();
                let kappa = if qy == 0 || rho.count_ones() < 2 {
                    1
                } else {
                    (-1..3).map(|d| exp(x + d, y - 1)).max().unwrap().saturating_sub(1).max(1)
                };
                let big = top.max(kappa);
                us[side] = big - kappa;
                let emb: u32 = if us[side] > 0 { (0..4).map(|k| ((e[k] == big) as u32) << k).sum() } else { 0 };
                let (bits, len, ek) = code(qy == 0, c as usize, rho, emb, m.least);
                vlc.bits(bits as u64, len);
                for k in 0..4 {
                    if rho >> k & 1 == 1 {
                        let (neg, mu) = at(pos[k].0, pos[k].1);
                        ms.bits(2 * mu - 2 + neg as u64, big - (ek >> k & 1));
                    }
                }
            }
            let [a, b] = us;
            let mut put = |c: (u32, u32)| vlc.bits(c.0 as u64, c.1);
            if qy == 0 && a > 0 && b > 0 {
                mel.event(a.min(b) > 2);
                if a > 2 && b > 2 {
                    let (p, q) = (uvlc(a - 2), uvlc(b - 2));
                    [p[0], q[0], p[1], q[1]].into_iter().for_each(put);
                } else if a > 2 {
                    let p = uvlc(a);
                    [p[0], (b - 1, 1), p[1]].into_iter().for_each(put);
                } else {
                    let (p, q) = (uvlc(a), uvlc(b));
                    [p[0], q[0], p[1], q[1]].into_iter().for_each(&mut put);
                }
            } else {
                let (p, q) = (uvlc(a), uvlc(b));
                [p[0], q[0], p[1], q[1]].into_iter().for_each(&mut put);
            }
        }
    }
    if mel.run > 0 {
        mel.bit(true);
    }
    // the last bytes of the two
    mel.tmp <<= mel.left;
    let full = if mel.b.last() == Some(&0xFF) { 7 } else { 8 };
    let mm = if mel.left == full { 0 } else { 0xFFu32 << mel.left & 0xFF };
    let vm = (1u32 << vlc.used) - 1;
    if mm | vm != 0 {
        let both = mel.tmp | vlc.tmp;
        if m.fuse && ((both ^ mel.tmp) & mm | (both ^ vlc.tmp) & vm) == 0 && both != 0xFF && vlc.b.len() > 1 && !(full == 7 && both > 0x7F) {
            mel.b.push(both as u8);
        } else {
            if mm != 0 {
                mel.b.push(mel.tmp as u8);
            }
            if vm != 0 || vlc.b.len() < 2 {
                vlc.b.push(vlc.tmp as u8);
            }
        }
    }
    if mel.b.last() == Some(&0xFF) {
        // a byte that nothing is read from
        mel.b.push(0);
    }
    let mut d = ms.finish(true);
    let n = mel.b.len() + vlc.b.len();
    assert!(n < 4080);
    d.extend(mel.b);
    d.extend(vlc.b.iter().rev());
    let t = d.len();
    d[t - 1] = (n >> 4) as u8;
    d[t - 2] = d[t - 2] & 0xF0 | (n & 15) as u8;
    d
}
/// The refinement passes; `keep`: what has become known of each magnitude (bits, lowest known plane).
fn refine(v: &[(bool, u64)], w: usize, h: usize, causal: bool, m: Mode, keep: &mut [(u64, u32)]) -> (Vec<u8>, Vec<u8>) {
    let p = m.plane - 1;
    let cup = |x: isize, y: isize| x >= 0 && y >= 0 && x < w as isize && y < h as isize && v[y as usize * w + x as usize].1 >> m.plane != 0;
    let mut fresh = vec![false; w * h];
    let mut spp = Forward::new();
    let mut mrp = Backward { b: vec![], tmp: 0, used: 0, great: true };
    for y0 in (0..h).step_by(4) {
        let y1 = (y0 + 4).min(h);
        for x0 in (0..w).step_by(4) {
            let mut signs = vec![];
            for x in x0..(x0 + 4).min(w) {
                for y in y0..y1 {
                    let i = y * w + x;
                    if v[i].1 >> m.plane != 0 {
                        continue;
                    }
                    let mut member = false;
                    for dy in -1..=1isize {
                        for dx in -1..=1isize {
                            let (u, t) = (x as isize + dx, y as isize + dy);
                            if u < 0 || t < 0 || u >= w as isize || t >= h as isize || causal && t >= y1 as isize && y1 == y0 + 4 {
                                continue;
                            }
                            member |= cup(u, t) || fresh[t as usize * w + u as usize];
                        }
                    }
                    if member {
                        let b = v[i].1 >> p & 1;
                        spp.bits(b, 1);
                        if b == 1 {
                            fresh[i] = true;
                            signs.push(v[i].0);
                            keep[i] = (1 << p, p);
                        }
                    }
                }
            }
            for s in signs {
                spp.bits(s as u64, 1);
            }
        }
        if m.passes == 3 {
            for x in 0..w {
                for y in y0..y1 {
                    let i = y * w + x;
                    if v[i].1 >> m.plane != 0 {
                        mrp.bits(v[i].1 >> p & 1, 1);
                        keep[i] = (v[i].1 >> p << p, p);
                    }
                }
            }
        }
    }
    if mrp.used > 0 {
        mrp.push();
    }
    mrp.b.reverse();
    (spp.finish(false), mrp.b)
}
/// What a block's passes tell of each magnitude: known bits and the lowest plane known.
fn known(v: &[(bool, u64)], w: usize, h: usize, style: u8, m: Mode) -> (Vec<(u64, u32)>, Vec<Vec<u8>>) {
    let mut keep: Vec<(u64, u32)> = v.iter().map(|x| (x.1 >> m.plane << m.plane, m.plane)).collect();
    let mut segs = vec![cleanup(v, w, h, m)];
    if m.passes > 1 && m.plane > 0 {
        let (s, r) = refine(v, w, h, style & CAUSAL != 0, m, &mut keep);
        // a segment of no bytes would say that there are no such passes
        let s = if s.is_empty() && r.is_empty() { vec![0] } else { s };
        segs.push(s);
        segs.push(r);
    }
    (keep, segs)
}
pub fn project(v: &mut [(bool, u64)], w: usize, h: usize, style: u8, m: Mode) {
    let k = known(v, w, h, style, m).0;
    for (x, k) in v.iter_mut().zip(k) {
        x.1 = k.0;
    }
}
/// As `refenc::encode_block`.
pub fn encode_block(v: &[(bool, u64)], w: usize, h: usize, style: u8, m: Mode) -> Coded {
    if v.iter().all(|x| x.1 >> m.plane == 0) {
        return Coded { planes: 0, segs: vec![], passes: vec![] };
    }
    let (_, mut segs) = known(v, w, h, style, m);
    let mut passes = vec![(0, segs[0].len())];
    if segs.len() > 1 {
        let r = segs.pop().unwrap();
        let mut s = segs.pop().unwrap();
        passes.push((1, s.len()));
        s.extend(r);
        if m.passes == 3 {
            passes.push((1, s.len()));
        }
        segs.push(s);
    }
    Coded { planes: m.plane + 1, segs, passes }
}

/// One block, its samples being its coefficients.
fn block_file(v: &[i64], w: usize, h: usize, prec: u32, style: u8, m: Mode) -> Result<Vec<u8>, String> {
    use refj2k::*;
    let lg = |n: usize| (n.next_power_of_two().trailing_zeros()).max(2);
    let siz = Siz { rsiz: 0x4000, x0: 0, y0: 0, x1: w as u32, y1: h as u32, tw: w as u32, th: h as u32, tx0: 0, ty0: 0, comps: vec![SizComp { dx: 1, dy: 1, prec, sgnd: true }] };
    let q = Qnt { style: 0, guard: 1, steps: vec![(prec, 0)] };
    let cod = CodComp { levels: 0, xcb: lg(w), ycb: lg(h), style: style | HT, reversible: true, prec: vec![(15, 15)], custom: false };
    let p = TileParams { sop: false, eph: false, prog: 0, layers: 1, mct: 0, comps: vec![TileComp { cod, q, roi: 0 }], pocs: vec![] };
    let lay = crate::refenc::Lay::default();
    lay::Case { siz, tiles: vec![p], img: vec![v.to_vec()], choices: Choices { alloc: 0, waste: 0, roi: 0, ht: None }, lay }.with(m).bytes()
}
impl lay::Case {
    fn with(mut self, m: Mode) -> lay::Case {
        self.choices.ht = Some(m);
        self
    }
}
fn block(v: &[i64], w: usize, h: usize, prec: u32, style: u8, m: Mode, cx: &mut Cx) -> Result<(), String> {
    let b = block_file_raw(v, w, h, prec, style, m)?;
    cx.evaluations(1);
    if let Ok(f) = std::env::var("JP2_SAVE") {
        std::fs::write(f, &b).unwrap();
    }
    let o = decode(&b, &Dec::default()).map_err(|e| format!("legal codestream: {e}"))?;
    let c: Vec<(bool, u64)> = v.iter().map(|x| (*x < 0, x.unsigned_abs())).collect();
    let keep = if c.iter().all(|x| x.1 >> m.plane == 0) { c.iter().map(|_| (0, m.plane)).collect() } else { known(&c, w, h, style, m).0 };
    let Some(got) = &o.comps[0].data else { return Err("no samples".into()) };
    if got.len() != v.len() {
        return Err(format!("{} samples of {}", got.len(), v.len()));
    }
    for i in 0..v.len() {
        let (lo, k) = keep[i];
        let g = got[i] as i64;
        let ok = if lo == 0 { g == 0 } else { (g < 0) == c[i].0 && g.unsigned_abs() >= lo && g.unsigned_abs() < lo + (1 << k) };
        // the component's range ends before the interval may
        let ok = ok || lo != 0 && g == if c[i].0 { -(1 << (prec - 1)) } else { (1 << (prec - 1)) - 1 } && g.unsigned_abs() + 1 >= lo;
        if !ok {
            return Err(format!("sample ({},{}) is {g}, coded {}, known {lo}..{}", i % w, i / w, v[i], lo + (1 << k)));
        }
    }
    cx.outcome(hash_bytes(&b));
    Ok(())
}
/// Without taking away what the passes do not tell.
fn block_file_raw(v: &[i64], w: usize, h: usize, prec: u32, style: u8, m: Mode) -> Result<Vec<u8>, String> {
    block_file(v, w, h, prec, style, m)
}
fn value(k: usize, x: usize, y: usize, prec: u32) -> i64 {
    let (lo, hi) = (-(1i64 << (prec - 1)), (1i64 << (prec - 1)) - 1);
    let r = mix64((x as u64) << 20 ^ y as u64 ^ (k as u64) << 50 ^ 0x51);
    let sign = if r & 1 == 1 { -1 } else { 1 };
    match k {
        0 => lo + (r % (hi - lo + 1) as u64) as i64,
        // every number of bits
        1 => (sign * ((r >> 8) as i64 & ((1 << (r >> 40) % prec as u64) - 1))).clamp(lo, hi),
        2 => sign * (r >> 3 & 1) as i64,
        3 => if r % 23 == 3 { sign * ((r >> 9) as i64 & hi) } else { 0 },
        4 => if (x + y) % 2 == 0 { lo } else { hi },
        5 => hi,
        6 => if r % 9 == 1 { hi } else { sign * (r >> 4 & 1) as i64 },
        // long stretches of nothing
        7 => if x % 32 == 31 && y % 3 == 2 || (x, y) == (0, 1) { sign } else { 0 },
        8 => if (x / 2) % 2 == 0 { sign * (r >> 4 & 7) as i64 } else { 0 }.clamp(lo, hi),
        _ => -1,
    }
}
const CONTENTS: usize = 10;
fn modes() -> Vec<Mode> {
    let mut l = vec![];
    for (plane, passes) in [(0, 1), (1, 3), (1, 2), (1, 1), (3, 3), (2, 2), (4, 1)] {
        for fuse in [false, true] {
            for least in [false, true] {
                l.push(Mode { plane, passes, fuse, least });
            }
        }
    }
    l
}
/// Part 15 against Part 1.
fn layout(v: &[usize; 26], m: Mode, cx: &mut Cx) -> Result<(), String> {
    let Some(mut k) = lay::build(v) else {
        cx.add("not legal", 1);
        return Ok(());
    };
    if k.tiles.iter().any(|t| t.comps.iter().any(|c| c.roi > 0)) {
        // not offered together with Part 15 by the library, which says so
        cx.add("not legal", 1);
        return Ok(());
    }
    for t in &mut k.tiles {
        for c in &mut t.comps {
            c.cod.style &= CAUSAL;
        }
    }
    let one = k.with(m);
    let a = one.bytes();
    let mut two = one;
    two.siz.rsiz = 0x4000;
    for t in &mut two.tiles {
        for c in &mut t.comps {
            c.cod.style |= HT;
        }
    }
    if two.choices.alloc == 4 {
        // never complete: what is known differs
        cx.add("not legal", 1);
        return Ok(());
    }
    let (a, b) = match (a, two.bytes()) {
        (Ok(a), Ok(b)) => (a, b),
        _ => {
            cx.add("not expressible", 1);
            return Ok(());
        }
    };
    let (s, r) = refj2k::decode(&a, 0, 0, true).map_err(|e| format!("generator: {e}"))?;
    cx.evaluations(1);
    if let Ok(f) = std::env::var("JP2_SAVE") {
        std::fs::write(f, &b).unwrap();
    }
    let o = decode(&b, &Dec::default()).map_err(|e| format!("legal codestream: {e}"))?;
    lay::agree(&o, &s.siz, &r.comps, 0)?;
    cx.outcome(hash_bytes(&b));
    Ok(())
}
/// A damaged file is decoded to something or refused.
fn damaged(b: Vec<u8>, cx: &mut Cx) -> Result<(), String> {
    cx.evaluations(1);
    match decode(&b, &Dec::default()) {
        Ok(_) => cx.add("decoded", 1),
        Err(_) => cx.add("refused", 1),
    }
    Ok(())
}
pub fn c28(tier: Tier) -> Check {
    let deep = tier == Tier::Thorough;
    let mut c = Check::new("C28", "exploration").counter("not legal").counter("not expressible").counter("decoded").counter("refused");
    let all = modes();
    // sizes
    let mut sizes: Vec<(usize, usize)> = vec![];
    let n = if deep { 14 } else { 11 };
    for w in 1..=n {
        for h in 1..=n {
            sizes.push((w, h));
        }
    }
    sizes.extend([(64, 64), (63, 61), (1024, 4), (4, 1024), (1023, 3), (3, 1021), (256, 16), (17, 100), (33, 5), (5, 33), (32, 32), (65, 9), (128, 32), (512, 8), (510, 7)]);
    let mut l = vec![];
    for &(w, h) in &sizes {
        for k in 0..CONTENTS {
            for style in [0, CAUSAL] {
                for &m in &all {
                    if style == 0 || m.passes > 1 {
                        l.push((w, h, k, style, m));
                    }
                }
            }
        }
    }
    c = c.with(list_space(
        "blocks",
        &format!("one block of every size up to {n}x{n} and a menu of large and long ones, ten contents, seven choices of passes and bit-plane, causal or not, both ways of ending the streams, both choices of codes"),
        l,
        |&(w, h, k, style, m), cx| {
            let prec = 9;
            let v: Vec<i64> = (0..h).flat_map(|y| (0..w).map(move |x| (x, y))).map(|(x, y)| value(k, x, y, prec)).collect();
            block(&v, w, h, prec, style, m, cx)
        },
    ));
    // depths
    let mut l = vec![];
    for prec in 1..=29u32 {
        for k in 0..CONTENTS {
            for &m in &all {
                if m.plane < prec {
                    l.push((prec, k, m));
                }
            }
        }
    }
    c = c.with(list_space("depths", "a block of 13x10 of every precision up to 29 bits, ten contents, all choices of passes", l, |&(prec, k, m), cx| {
        let v: Vec<i64> = (0..10).flat_map(|y| (0..13).map(move |x| (x, y))).map(|(x, y)| value(k, x, y, prec)).collect();
        block(&v, 13, 10, prec, 0, m, cx)
    }));
    // every content of the smallest blocks
    const VALUES: [i64; 6] = [0, 1, -1, 2, -5, 12];
    let nv = if deep { 6 } else { 5 };
    for (w, h) in [(4usize, 2usize), (2, 4)] {
        let r = vec![nv; w * h];
        let total: u64 = (nv as u64).pow((w * h) as u32);
        c = c.with(space(
            &format!("values {w}x{h}"),
            &format!("every block of {w}x{h} over {:?}", &VALUES[..nv]),
            total.div_ceil(256),
            move |i| format!("{} and on", i * 256),
            move |i, cx| {
                for j in i * 256..(i * 256 + 256).min(total) {
                    let v: Vec<i64> = mixed(j, &r).into_iter().map(|k| VALUES[k]).collect();
                    block(&v, w, h, 5, 0, Mode { plane: 0, passes: 1, fuse: j & 1 == 1, least: j & 2 == 2 }, cx).map_err(|e| format!("{v:?}: {e}"))?;
                }
                Ok(())
            },
        ));
    }
    // every pattern of significance
    for (w, h, causal) in [(4usize, 4usize, 0u8), (3, 5, 0), (3, 5, CAUSAL), (5, 3, 0), (2, 8, CAUSAL)] {
        let cells = w * h;
        c = c.with(space(
            &format!("patterns {w}x{h}{}", if causal != 0 { " causal" } else { "" }),
            &format!("every set of significant samples of a block of {w}x{h}, the others significant a plane later by one of four rules; three passes"),
            (1u64 << cells).div_ceil(256),
            move |i| format!("{} and on", i * 256),
            move |i, cx| {
                for j in i * 256..(i * 256 + 256).min(1 << cells) {
                    let v: Vec<i64> = (0..cells)
                        .map(|k| {
                            let s = if k % 3 == 1 { -1 } else { 1 };
                            let late = [k % 2 == 0, true, k % 3 != 0, k % 5 < 2][(mix64(j) & 3) as usize];
                            if j >> k & 1 == 1 { s * (2 + (k as i64 & 1)) } else { s * late as i64 }
                        })
                        .collect();
                    block(&v, w, h, 4, causal, Mode { plane: 1, passes: 3, fuse: false, least: false }, cx).map_err(|e| format!("{v:?}: {e}"))?;
                }
                Ok(())
            },
        ));
    }
    // in codestreams of all kinds
    let t = if deep { 2 } else { 1 };
    for b in 0..lay::BASES.len() {
        let l: Vec<_> = lay::around(b, t).into_iter().flat_map(|v| [Mode { plane: 0, passes: 1, fuse: true, least: false }, Mode { plane: 1, passes: 3, fuse: false, least: false }].map(|m| (v, m))).collect();
        let l = Rc::new(l);
        let l2 = l.clone();
        c = c.with(space(
            &format!("layouts{b}"),
            &format!("all codestreams that differ from base {b} ({}) in at most {t} of the choices of C12, coded with one or with three passes", lay::show(&lay::BASES[b])),
            l.len() as u64,
            move |i| format!("{} {:?}", lay::show(&l2[i as usize].0), l2[i as usize].1),
            move |i, cx| layout(&l[i as usize].0, l[i as usize].1, cx),
        ));
    }
    // damage
    let mut l = vec![];
    for (w, h) in [(1, 1), (4, 4), (9, 6), (32, 8), (64, 64), (1024, 4)] {
        for k in [0, 1, 3, 7] {
            for m in [Mode { plane: 0, passes: 1, fuse: true, least: false }, Mode { plane: 1, passes: 3, fuse: false, least: false }] {
                for style in [0, CAUSAL] {
                    l.push((w, h, k, m, style));
                }
            }
        }
    }
    c = c.with(list_space(
        "damage",
        "blocks of six sizes, four contents, one or three passes, causal or not: every byte of the packet (of long ones the first and last 200) set to eight other values, and the last two bytes of the cleanup pass to every value of the length they hold",
        l,
        |&(w, h, k, m, style), cx| {
            let v: Vec<i64> = (0..h).flat_map(|y| (0..w).map(move |x| (x, y))).map(|(x, y)| value(k, x, y, 9)).collect();
            let b = block_file(&v, w, h, 9, style, m)?;
            let Some(at) = b.windows(2).position(|x| x == [0xFF, 0x93]) else { return Err("no data".into()) };
            let (from, to) = (at + 2, b.len() - 2);
            for p in from..to {
                if p > from + 200 && p + 200 < to {
                    continue;
                }
                for x in [0, 0xFF, 0x7F, 0x80, 0x8F, b[p] ^ 1, b[p] ^ 0x10, b[p].wrapping_add(1)] {
                    if x != b[p] {
                        let mut d = b.clone();
                        d[p] = x;
                        damaged(d, cx).map_err(|e| format!("byte {} set to {x:#x}: {e}", p - from))?;
                    }
                }
                cx.tick();
            }
            let c: Vec<(bool, u64)> = v.iter().map(|x| (*x < 0, x.unsigned_abs())).collect();
            if c.iter().all(|x| x.1 >> m.plane == 0) {
                return Ok(());
            }
            let k = encode_block(&c, w, h, style, m);
            let body = to - k.segs.iter().map(|s| s.len()).sum::<usize>();
            let end = body + k.segs[0].len();
            for s in (0..4096usize).filter(|s| *s < 300 || s % 7 == 0 || *s > 4070) {
                let mut d = b.clone();
                d[end - 1] = (s >> 4) as u8;
                d[end - 2] = d[end - 2] & 0xF0 | (s & 15) as u8;
                damaged(d, cx).map_err(|e| format!("length of the suffix {s}: {e}"))?;
            }
            Ok(())
        },
    ));
    c
}

/// The tables are what a decoder of prefix codes needs: every seven bits name one code, and only one.
#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn complete() {
        for t in [&VLC0, &VLC1] {
            for c in 0..8usize {
                for v in 0..128usize {
                    let e = t[c << 7 | v];
                    let len = (e & 7) as usize;
                    for w in 0..128usize {
                        if len > 0 && w & ((1 << len) - 1) == v & ((1 << len) - 1) {
                            assert_eq!(t[c << 7 | w], e);
                        }
                    }
                    let (off, rho, e1, ek) = (e >> 3 & 1, e >> 4 & 15, e >> 8 & 15, e >> 12);
                    assert!(e1 & !ek == 0 && ek & !rho == 0 && (off == 1 || ek == 0));
                }
            }
        }
    }
}
