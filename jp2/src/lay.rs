//! Legal codestreams as points of a finite grid: images, coding parameters and layouts for the reference encoder.

use crate::conf;
use crate::driver::*;
use crate::refenc::*;
use crate::refj2k::*;

pub const NAMES: [&str; 26] = ["geo", "comps", "style", "levels", "prec", "prog", "layers", "alloc", "flags", "kind", "vary", "roi", "poc", "parts", "order", "tnsot", "psot0", "packed", "sopmode", "lengths", "place", "ord", "pocplace", "extras", "waste", "content"];
pub const RADICES: [usize; 26] = [7, 6, 9, 4, 5, 5, 3, 6, 4, 4, 8, 4, 5, 5, 4, 4, 2, 5, 2, 7, 4, 3, 4, 6, 3, 4];

/// (area, tile size, tile origin)
pub const GEO: [((u32, u32, u32, u32), (u32, u32), (u32, u32)); 7] = [
    ((0, 0, 17, 13), (17, 13), (0, 0)),
    ((0, 0, 17, 13), (9, 7), (0, 0)),
    ((3, 5, 22, 19), (10, 40), (1, 2)),
    ((5, 0, 12, 33), (64, 11), (0, 0)),
    ((0, 0, 1, 1), (1, 1), (0, 0)),
    // most tiles hold no sample of a sub-sampled component
    ((1, 1, 8, 6), (2, 2), (0, 1)),
    ((100, 70, 140, 100), (33, 17), (80, 60)),
];
pub fn comps(i: usize) -> Vec<(u32, u32, u32, bool)> {
    match i {
        0 => vec![(1, 1, 8, false)],
        1 => vec![(1, 1, 8, false); 3],
        2 => vec![(1, 1, 8, false), (2, 2, 6, true)],
        3 => vec![(2, 1, 5, false), (1, 1, 9, true), (1, 2, 8, false)],
        4 => vec![(1, 1, 12, true); 4],
        5 => vec![(3, 2, 8, false)],
        _ => unreachable!(),
    }
}
const STYLES: [u8; 9] = [0, BYPASS, RESET, TERMALL, VSC, PREDTERM, SEGSYM, BYPASS | TERMALL, 63];
const BLOCKS: [(u32, u32); 4] = [(6, 6), (2, 2), (3, 5), (4, 2)];

pub struct Case {
    pub siz: Siz,
    pub tiles: Vec<TileParams>,
    pub img: Source,
    pub choices: Choices,
    pub lay: Lay,
}

fn precincts(i: usize, levels: u32) -> (Vec<(u32, u32)>, bool) {
    let f = |k: usize| -> (u32, u32) {
        match i {
            1 => (15, 15),
            2 => (3, 4),
            3 => if k == 0 { (0, 1) } else { (2, 2) },
            4 => [(1, 3), (3, 2), (5, 4)][k % 3],
            _ => (15, 15),
        }
    };
    ((0..=levels as usize).map(f).collect(), i != 0)
}
fn quant(kind: usize, prec: u32, levels: u32, mct: bool, extra_guard: i32) -> Qnt {
    let n = 3 * levels + 1;
    let g = |b: u32| if b == 0 { 0 } else { [1, 1, 2][((b - 1) % 3) as usize] };
    let extra = |g: i32| (g + extra_guard) as u32;
    match kind {
        0 | 1 => Qnt { style: 0, guard: extra(2), steps: (0..n).map(|b| (prec + g(b) + mct as u32, 0)).collect() },
        2 => Qnt { style: 2, guard: extra(2), steps: (0..n).map(|b| (prec + g(b) + 2, (b * 331) % 2048)).collect() },
        _ => Qnt { style: 1, guard: extra(3), steps: vec![(prec + levels + 1, 700)] },
    }
}
fn pocs(i: usize, n: u32, levels: u32, layers: u32, prog: u8) -> Vec<Poc> {
    let p = |rs, cs, le, re, ce, prog| Poc { rs, cs, le, re, ce, prog };
    let all = p(0, 0, layers, 33, n, prog);
    match i {
        0 => vec![],
        1 => vec![p(0, 0, layers, 1, n, prog), p(1, 0, layers, levels.max(1) + 1, n, (prog + 1) % 5)],
        2 => vec![p(0, 0, 1, levels + 1, n, (prog + 3) % 5), all],
        3 => vec![p(0, n - 1, layers, 33, n, 4), p(0, 0, layers, 33, n, 2)],
        _ => vec![p(0, 0, 1, 1, n, 0), p(0, 0, layers, 2, 1, 3), p(0, n / 2, layers, 33, n, 4), p(0, 0, 1, 33, n, 1), all],
    }
}

/// None: not legal or not distinct.
pub fn build(v: &[usize; 26]) -> Option<Case> {
    let (a, ts, to) = GEO[v[0]];
    let cs = comps(v[1]);
    let n = cs.len();
    let siz = Siz { rsiz: 0, x0: a.0, y0: a.1, x1: a.2, y1: a.3, tw: ts.0, th: ts.1, tx0: to.0, ty0: to.1, comps: cs.iter().map(|c| SizComp { dx: c.0, dy: c.1, prec: c.2, sgnd: c.3 }).collect() };
    for c in 0..n {
        if siz.on_comp(siz.area(), c).empty() {
            return None;
        }
    }
    let levels = [2, 0, 1, 5][v[3]] as u32;
    let layers = [1, 2, 4][v[6]] as u32;
    let (kind, vary) = (v[9], v[10]);
    // RCT / ICT
    let mct = kind == 1 || kind == 3;
    if mct && (n < 3 || cs[1..3].iter().any(|c| (c.0, c.1, c.2) != (cs[0].0, cs[0].1, cs[0].2))) {
        return None;
    }
    let alike = cs.iter().all(|c| c.2 == cs[0].2);
    let base = |tile: u32| -> Option<TileParams> {
        let mut comps = vec![];
        for c in 0..n {
            let mut l = levels;
            let mut style = STYLES[v[2]];
            let mut cb = BLOCKS[(v[4] + v[2]) % 4];
            let mut pk = v[4];
            let mut k = kind;
            let mut guard = 0;
            match vary {
                0 | 5 => {}
                // no magnitude bit to spare
                6 => guard = if kind == 3 { -2 } else { -1 },
                7 => guard = if kind == 3 { -3 } else { -2 },
                // components differ in everything but the transform
                1 if c == n - 1 && n > 1 => {
                    l = (levels + 1) % 4;
                    style ^= 0x25;
                    cb = (3, 3);
                    pk = (pk + 2) % 5;
                }
                2 if c == 0 => guard = 3,
                // tiles differ
                3 if tile % 2 == 1 => {
                    l = (levels + 1) % 4;
                    style ^= 0x0A;
                    pk = (pk + 3) % 5;
                    guard = 1;
                }
                // one component irreversible
                4 if c == n - 1 && n > 1 => k = if kind == 0 { 2 } else { 0 },
                _ => {}
            }
            let (prec, custom) = precincts(pk, l);
            let depth = if mct && vary != 4 { cs[0].2 } else { cs[c].2 };
            let q = quant(k, depth, l, mct, guard);
            let mut t = TileComp { cod: CodComp { levels: l, xcb: cb.0, ycb: cb.1, style, reversible: k < 2, prec, custom }, q, roi: 0 };
            let mb = (0..3 * l + 1).map(|b| t.q.step(b as usize).map(|s| s.0)).collect::<R<Vec<_>>>().ok()?.into_iter().max().unwrap() + t.q.guard - 1;
            if v[11] > 0 && (c == 0 || v[11] == 3) {
                t.roi = mb;
            }
            if mb + t.roi > 30 {
                return None;
            }
            comps.push(t);
        }
        if vary == 4 && mct {
            return None;
        }
        let mut layers = layers;
        let mut prog = v[5] as u8;
        if vary == 5 && tile % 2 == 1 {
            layers = 3 - layers.min(2);
            prog = (prog + 2) % 5;
        }
        let lv = comps.iter().map(|c| c.cod.levels).max().unwrap();
        Some(TileParams { sop: v[8] & 1 != 0, eph: v[8] & 2 != 0, prog, layers, mct: mct as u8, comps, pocs: pocs(v[12], n as u32, lv, layers, prog) })
    };
    let _ = alike;
    let mut tiles = vec![];
    for t in 0..siz.ntiles() {
        tiles.push(base(t)?);
    }
    let img: Source = (0..n)
        .map(|c| {
            let r = siz.on_comp(siz.area(), c);
            let (lo, hi) = range(cs[c].2, cs[c].3);
            let mut s = vec![];
            for y in 0..r.h() as u32 {
                for x in 0..r.w() as u32 {
                    let lo = if vary >= 6 { lo + 1 } else { lo };
                    s.push(conf::pattern([0, 2, 4, 5][v[25]], c, x, y, lo, hi).clamp(lo, hi));
                }
            }
            s
        })
        .collect();
    let (plt, plm, tlm) = [(false, false, 0), (true, false, 0), (false, true, 0), (false, false, 1), (true, true, 2), (false, false, 3), (true, false, 4)][v[19]];
    let lay = Lay {
        parts: v[13] as u8,
        order: v[14] as u8,
        tnsot: v[15] as u8,
        psot0: v[16] == 1,
        packed: v[17] as u8,
        sop: v[18] as u8,
        plt,
        plm,
        tlm,
        place: v[20] as u8,
        order_main: v[21] as u8,
        poc: v[22] as u8,
        extras: v[23] as u8,
    };
    if lay.sop > 0 && v[8] & 1 == 0 || lay.poc > 0 && v[12] == 0 || lay.sop > 0 && lay.packed > 0 {
        return None;
    }
    Some(Case { siz, tiles, img, choices: Choices { alloc: v[7] as u8, waste: v[24] as u8, roi: v[11] as u8, ht: None }, lay })
}
impl Case {
    pub fn bytes(&self) -> R<Vec<u8>> {
        let mut packets = vec![];
        for (t, p) in self.tiles.iter().enumerate() {
            packets.push(encode_tile(&self.siz, p, t as u32, &self.img, &self.choices)?);
        }
        let ins: Vec<TileIn> = self.tiles.iter().zip(&packets).map(|(params, k)| TileIn { params, packets: k }).collect();
        mux(&self.siz, &ins, &self.lay)
    }
    /// Everything is coded, and reversibly.
    pub fn lossless(&self) -> bool {
        self.choices.alloc != 4 && self.tiles.iter().all(|t| t.comps.iter().all(|c| c.cod.reversible))
    }
}
pub fn show(v: &[usize]) -> String {
    NAMES.iter().zip(v).filter(|x| *x.1 != 0).map(|(n, i)| format!("{n}{i}")).collect::<Vec<_>>().join(".")
}
pub const BASES: &[[usize; 26]] = &[
    [0; 26],
    //g  c  st l  p  pr ly al fl k  va ro po pa or tn ps pk so le pl od pp ex wa co
    [1, 1, 0, 0, 2, 0, 1, 1, 3, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 3, 0, 0, 0, 1, 0, 0],
    [2, 3, 7, 0, 4, 2, 2, 2, 1, 0, 1, 1, 0, 1, 3, 1, 0, 3, 1, 1, 1, 0, 0, 4, 1, 0],
    [3, 2, 8, 2, 3, 3, 1, 2, 2, 2, 0, 0, 4, 2, 0, 2, 0, 0, 0, 0, 2, 1, 1, 0, 2, 0],
    [5, 3, 1, 0, 0, 4, 1, 5, 0, 0, 3, 0, 0, 4, 2, 3, 0, 2, 0, 6, 3, 2, 0, 3, 0, 0],
    [0, 0, 0, 2, 0, 0, 1, 3, 0, 0, 7, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
];
pub fn around(b: usize, t: usize) -> Vec<[usize; 26]> {
    mck::deviations(&RADICES, t)
        .into_iter()
        .map(|d| {
            let mut v = [0; 26];
            for k in 0..26 {
                v[k] = (BASES[b][k] + d[k]) % RADICES[k];
            }
            v
        })
        .collect()
}

/// The library's image against the reference decoder's: exact where reversible, else within half a unit (and a bit).
pub fn agree(o: &Img, siz: &Siz, comps: &[OutComp], reduce: u32) -> Result<(), String> {
    if o.comps.len() != comps.len() {
        return Err(format!("{} components, not {}", o.comps.len(), comps.len()));
    }
    for (c, (k, w)) in o.comps.iter().zip(comps).enumerate() {
        agree_comp(c, k, &siz.comps[c], w, reduce)?;
    }
    Ok(())
}
pub fn agree_comp(c: usize, k: &Comp, s: &SizComp, w: &OutComp, reduce: u32) -> Result<(), String> {
    agree_within(c, k, s, w, reduce, 0.)
}
/// With some more allowance where coding is irreversible.
pub fn agree_within(c: usize, k: &Comp, s: &SizComp, w: &OutComp, reduce: u32, slack: f64) -> Result<(), String> {
    let have = (k.w as usize, k.h as usize, k.prec, k.sgnd, k.dx, k.dy, k.factor);
    let want = (w.r.w(), w.r.h(), s.prec, s.sgnd, s.dx, s.dy, reduce);
    if have != want {
        return Err(format!("component {c}: (w, h, prec, sgnd, dx, dy, factor) {have:?}, the standard says {want:?}"));
    }
    let (lo, hi) = range(s.prec, s.sgnd);
    let Some(d) = &k.data else { return Err(format!("component {c}: no samples")) };
    for (i, (&a, &b)) in d.iter().zip(&w.v).enumerate() {
        let at = || format!("component {c} sample ({}, {})", i % w.r.w(), i / w.r.w());
        let b = b.clamp(lo as f64, hi as f64);
        if w.reversible {
            if a as f64 != b {
                return Err(format!("{}: {a}, the standard says {b}", at()));
            }
        } else if (a as f64 - b).abs() > 0.52 + slack + (hi - lo) as f64 * 6e-5 {
            return Err(format!("{}: {a}, the standard says {b:.4}", at()));
        }
    }
    Ok(())
}

/// A codestream without anything special: one component, one layer, one tile-part.
pub fn plain(siz: &Siz, levels: u32, reversible: bool, f: impl Fn(i64, i64) -> i64) -> R<Vec<u8>> {
    plain_by(siz, levels, reversible, |_, x, y| f(x, y))
}
pub fn plain_by(siz: &Siz, levels: u32, reversible: bool, f: impl Fn(usize, i64, i64) -> i64) -> R<Vec<u8>> {
    let f = &f;
    let kind = if reversible { 0 } else { 2 };
    let mut comps = vec![];
    let mut img: Source = vec![];
    for (c, s) in siz.comps.iter().enumerate() {
        let (prec, custom) = precincts(0, levels);
        comps.push(TileComp { cod: CodComp { levels, xcb: 4, ycb: 4, style: 0, reversible, prec, custom }, q: quant(kind, s.prec, levels, false, 0), roi: 0 });
        let r = siz.on_comp(siz.area(), c);
        let (lo, hi) = range(s.prec, s.sgnd);
        img.push((0..r.h() as i64).flat_map(|y| (0..r.w() as i64).map(move |x| (x, y))).map(|(x, y)| f(c, x, y).clamp(lo, hi)).collect());
    }
    let p = TileParams { sop: false, eph: false, prog: 0, layers: 1, mct: 0, comps, pocs: vec![] };
    let tiles = vec![p; siz.ntiles() as usize];
    let lay = Lay { parts: 0, order: 0, tnsot: 0, psot0: false, packed: 0, sop: 0, plt: false, plm: false, tlm: 0, place: 0, order_main: 0, poc: 0, extras: 0 };
    Case { siz: siz.clone(), tiles, img, choices: Choices { alloc: 0, waste: 0, roi: 0, ht: None }, lay }.bytes()
}

/// A codestream at one of the standard's limits.
#[derive(Clone, Debug)]
pub struct Limit {
    pub area: (u32, u32, u32, u32),
    pub tile: (u32, u32),
    pub origin: (u32, u32),
    /// how many, sub-sampling, precision, sign
    pub comps: (usize, u32, u32, u32, bool),
    pub levels: u32,
    pub cb: (u32, u32),
    pub style: u8,
    pub prog: u8,
    pub layers: u32,
    pub kind: usize,
    pub prec: usize,
    pub poc: usize,
    pub roi: bool,
    pub alloc: u8,
    pub lay: [u8; 6],
    pub content: usize,
}
impl Default for Limit {
    fn default() -> Self {
        Limit { area: (0, 0, 5, 4), tile: (5, 4), origin: (0, 0), comps: (1, 1, 1, 8, false), levels: 1, cb: (3, 3), style: 0, prog: 0, layers: 1, kind: 0, prec: 0, poc: 0, roi: false, alloc: 0, lay: [0; 6], content: 0 }
    }
}
impl Limit {
    pub fn case(&self) -> Option<Case> {
        let (n, dx, dy, prec, sgnd) = self.comps;
        let (a, l) = (self.area, self.levels);
        let siz = Siz { rsiz: 0, x0: a.0, y0: a.1, x1: a.2, y1: a.3, tw: self.tile.0, th: self.tile.1, tx0: self.origin.0, ty0: self.origin.1, comps: vec![SizComp { dx, dy, prec, sgnd }; n] };
        if siz.on_comp(siz.area(), 0).empty() {
            return None;
        }
        let q = quant(self.kind, prec, l, false, 0);
        let mb = (0..3 * l + 1).map(|b| q.step(b as usize).map(|s| s.0)).collect::<R<Vec<_>>>().ok()?.into_iter().max().unwrap() + q.guard - 1;
        if mb * (1 + self.roi as u32) > 30 {
            return None;
        }
        let comps = (0..n)
            .map(|c| {
                let (p, custom) = precincts(self.prec, l);
                TileComp { cod: CodComp { levels: l, xcb: self.cb.0, ycb: self.cb.1, style: self.style, reversible: self.kind < 2, prec: p, custom }, q: q.clone(), roi: if self.roi && c % 2 == n % 2 { mb } else { 0 } }
            })
            .collect();
        let p = TileParams { sop: false, eph: false, prog: self.prog, layers: self.layers, mct: 0, comps, pocs: pocs(self.poc, n as u32, l, self.layers, self.prog) };
        let tiles = vec![p; siz.ntiles() as usize];
        let img = (0..n)
            .map(|c| {
                let r = siz.on_comp(siz.area(), c);
                let (lo, hi) = range(prec, sgnd);
                let w = r.w() as u32;
                (0..r.h() as u32).flat_map(|y| (0..w).map(move |x| (x, y))).map(|(x, y)| conf::pattern(self.content, c, x, y, lo, hi)).collect()
            })
            .collect();
        let [parts, order, packed, lengths, place, extras] = self.lay;
        let (plt, plm, tlm) = [(false, false, 0), (true, false, 0), (false, true, 0), (false, false, 1), (true, true, 2), (false, false, 3), (true, false, 4)][lengths as usize];
        let lay = Lay { parts, order, tnsot: 0, psot0: false, packed, sop: 0, plt, plm, tlm, place, order_main: 0, poc: 0, extras };
        Some(Case { siz, tiles, img, choices: Choices { alloc: self.alloc, waste: 0, roi: 2, ht: None }, lay })
    }
}
const FAR: u32 = (1 << 30) - 8;
/// (name, rule, cases)
pub fn limits(deep: bool) -> Vec<(&'static str, &'static str, Vec<Limit>)> {
    let d = Limit::default();
    let mut levels = vec![];
    for l in 0..=32 {
        for prog in 0..5 {
            for kind in [0, 2] {
                for prec in [0, 2, 3] {
                    for far in 0..4 {
                        let (area, tile, origin) = [((0, 0, 13, 9), (13, 9), (0, 0)), ((100, 70, 117, 83), (120, 90), (0, 0)), ((FAR, FAR - 4, FAR + 17, FAR + 6), (FAR + 20, FAR + 20), (0, 0)), ((1 << 20, 3, (1 << 20) + 9, 14), (1 << 17, 11), ((1 << 20) - 9, 0))][far];
                        levels.push(Limit { area, tile, origin, levels: l, prog, kind, prec, comps: (1 + (prog as usize % 2), 1, 1 + far as u32 % 2, 8, false), ..d.clone() });
                    }
                }
            }
        }
    }
    let mut comps = vec![];
    for n in [4, 255, 256, 257, 300] {
        for place in 0..4 {
            for (poc, prog, roi) in [(0, 0, false), (1, 2, true), (2, 1, false), (3, 3, true), (4, 4, false)] {
                comps.push(Limit { area: (0, 0, 3, 3), tile: (3, 3), comps: (n, 1, 1, 8, n % 2 == 1), poc, prog, roi, lay: [0, 0, 0, 0, place, 0], ..d.clone() });
            }
        }
    }
    let mut layers = vec![];
    for n in [2, 255, 256, 300, 1000, 20000, 65535] {
        for prog in 0..5 {
            for packed in 0..5 {
                if n > 1000 && !deep && prog > 0 {
                    continue;
                }
                for alloc in [0, 3] {
                    layers.push(Limit { layers: n, prog, alloc, levels: 0, lay: [0, 0, packed, 0, 0, 0], ..d.clone() });
                }
            }
        }
    }
    let mut tiles = vec![];
    for (w, h) in [(15, 17), (16, 16), (257, 1), (1, 300), (40, 30), (128, 120)] {
        for lengths in [0, 3, 4, 5, 6] {
            for order in 0..4 {
                for parts in [0, 1] {
                    if w == 128 && (!deep || order + parts > 1) && (lengths != 3 || order + parts > 0) {
                        continue;
                    }
                    tiles.push(Limit { area: (3, 2, 2 * w + 1, 2 * h), tile: (2, 2), origin: (2, 1), levels: 0, cb: (2, 2), layers: 1 + (parts as u32), lay: [parts, order, 0, lengths, 0, 0], ..d.clone() });
                }
            }
        }
    }
    let mut subs = vec![];
    for dx in [1, 2, 3, 7, 127, 128, 254, 255] {
        for dy in [1, 2, 5, 128, 255] {
            for (k, tile) in [(0, (700, 600)), (1, (300, 257)), (2, (255, 255)), (3, (256, 128))] {
                for prog in [0, 2, 3, 4] {
                    subs.push(Limit { area: (k, 2 * k, 620, 540), tile, comps: (2, dx, dy, 8, false), levels: 2, prog, prec: [0, 2][k as usize % 2], kind: [0, 2][prog as usize % 2], ..d.clone() });
                }
            }
        }
    }
    if !deep {
        // full-size components are for the thorough run
        subs.retain(|s| s.comps.1 * s.comps.2 > 10);
    }
    let mut blocks = vec![];
    for x in 2..=10 {
        for y in 2..=10 {
            if x + y > 12 {
                continue;
            }
            for (w, h) in [(1100, 5), (5, 1100), (70, 66)] {
                for style in [0, 63, 1, 8] {
                    blocks.push(Limit { area: (3, 2, 3 + w, 2 + h), tile: (3 + w, 2 + h), cb: (x, y), style, layers: 2, alloc: 1, content: [0, 1][(x + y) as usize % 2], ..d.clone() });
                }
            }
        }
    }
    vec![
        ("levels", "every number of decomposition levels 0..32, every progression, both transforms, default, small and tiny precincts, four places of the image up to coordinates beyond 2^30", levels),
        ("components", "4, 255, 256, 257 and 300 components with parameters given in common, per component, per tile and misleadingly elsewhere, with progression changes and regions of interest", comps),
        ("layers", "2, 255, 256, 300, 1000, 20000 and 65535 layers, every progression, packet headers in place and packed in every way", layers),
        ("tiles", "255, 256, 257, 300, 1200 and 15360 tiles, tile-parts in every order, every form of tile-part lengths", tiles),
        ("sub-sampling", "sub-sampling factors up to 255 both ways, tile grids around them, position progressions", subs),
        ("code-blocks", "every legal code-block shape on long, tall and square images, four styles", blocks),
    ]
}
