//! JPEG 2000 Part 1, written from ISO/IEC 15444-1 alone: structures, parsing and decoding.
//! It favours being obviously right over being fast and refuses whatever the standard does not allow.

use std::collections::BTreeMap;

pub type R<T> = Result<T, String>;
macro_rules! bail { ($($t:tt)*) => { return Err(format!($($t)*)) } }
macro_rules! need { ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)) } } }

pub fn cdiv(a: i64, b: i64) -> i64 {
    (a + b - 1).div_euclid(b)
}
fn cdiv2(a: i64, n: u32) -> i64 {
    cdiv(a, 1 << n)
}
fn fdiv2(a: i64, n: u32) -> i64 {
    a >> n
}

// ---------------------------------------------------------------- parameters (Annex A)

#[derive(Clone, Debug, PartialEq)]
pub struct SizComp {
    pub prec: u32,
    pub sgnd: bool,
    pub dx: u32,
    pub dy: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Siz {
    pub rsiz: u16,
    pub x1: u32,
    pub y1: u32,
    pub x0: u32,
    pub y0: u32,
    pub tw: u32,
    pub th: u32,
    pub tx0: u32,
    pub ty0: u32,
    pub comps: Vec<SizComp>,
}
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Rect {
    pub x0: i64,
    pub y0: i64,
    pub x1: i64,
    pub y1: i64,
}
impl Rect {
    pub fn w(&self) -> usize {
        (self.x1 - self.x0).max(0) as usize
    }
    pub fn h(&self) -> usize {
        (self.y1 - self.y0).max(0) as usize
    }
    pub fn empty(&self) -> bool {
        self.w() == 0 || self.h() == 0
    }
    pub fn meet(&self, o: Rect) -> Rect {
        Rect { x0: self.x0.max(o.x0), y0: self.y0.max(o.y0), x1: self.x1.min(o.x1), y1: self.y1.min(o.y1) }
    }
}
impl Siz {
    pub fn ntx(&self) -> u32 {
        cdiv(self.x1 as i64 - self.tx0 as i64, self.tw as i64) as u32
    }
    pub fn nty(&self) -> u32 {
        cdiv(self.y1 as i64 - self.ty0 as i64, self.th as i64) as u32
    }
    pub fn ntiles(&self) -> u32 {
        self.ntx() * self.nty()
    }
    pub fn tile(&self, t: u32) -> Rect {
        let (p, q) = ((t % self.ntx()) as i64, (t / self.ntx()) as i64);
        let (tx0, ty0, tw, th) = (self.tx0 as i64, self.ty0 as i64, self.tw as i64, self.th as i64);
        Rect { x0: (tx0 + p * tw).max(self.x0 as i64), y0: (ty0 + q * th).max(self.y0 as i64), x1: (tx0 + (p + 1) * tw).min(self.x1 as i64), y1: (ty0 + (q + 1) * th).min(self.y1 as i64) }
    }
    pub fn on_comp(&self, r: Rect, c: usize) -> Rect {
        let k = &self.comps[c];
        let (dx, dy) = (k.dx as i64, k.dy as i64);
        Rect { x0: cdiv(r.x0, dx), y0: cdiv(r.y0, dy), x1: cdiv(r.x1, dx), y1: cdiv(r.y1, dy) }
    }
    pub fn area(&self) -> Rect {
        Rect { x0: self.x0 as i64, y0: self.y0 as i64, x1: self.x1 as i64, y1: self.y1 as i64 }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct CodComp {
    pub levels: u32,
    pub xcb: u32,
    pub ycb: u32,
    pub style: u8,
    pub reversible: bool,
    /// PPx, PPy per resolution
    pub prec: Vec<(u32, u32)>,
    /// the precinct sizes were written out
    pub custom: bool,
}
pub const BYPASS: u8 = 1;
pub const RESET: u8 = 2;
pub const TERMALL: u8 = 4;
pub const VSC: u8 = 8;
pub const PREDTERM: u8 = 16;
pub const SEGSYM: u8 = 32;

#[derive(Clone, Debug, PartialEq)]
pub struct Cod {
    pub sop: bool,
    pub eph: bool,
    pub prog: u8,
    pub layers: u32,
    pub mct: u8,
    pub comp: CodComp,
}
/// Quantisation: style 0 none, 1 derived, 2 expounded
#[derive(Clone, Debug, PartialEq)]
pub struct Qnt {
    pub style: u8,
    pub guard: u32,
    pub steps: Vec<(u32, u32)>,
}
impl Qnt {
    /// (exponent, mantissa) of band `b` (0 = LL, then HL LH HH per resolution)
    pub fn step(&self, b: usize) -> R<(u32, u32)> {
        if self.style == 1 {
            let (e, m) = *self.steps.first().ok_or("no derived step")?;
            // E-5: eps_b = eps_0 - NL + nb
            let n = if b == 0 { 0 } else { (b - 1) / 3 };
            need!(e as usize >= n, "derived exponent below zero");
            Ok((e - n as u32, m))
        } else {
            self.steps.get(b).copied().ok_or_else(|| format!("no quantisation for band {b}"))
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Poc {
    pub rs: u32,
    pub cs: u32,
    pub le: u32,
    pub re: u32,
    pub ce: u32,
    pub prog: u8,
}
#[derive(Clone, Debug, PartialEq)]
pub struct TileComp {
    pub cod: CodComp,
    pub q: Qnt,
    pub roi: u32,
}
/// Everything that applies to one tile once all overrides are resolved.
#[derive(Clone, Debug, PartialEq)]
pub struct TileParams {
    pub sop: bool,
    pub eph: bool,
    pub prog: u8,
    pub layers: u32,
    pub mct: u8,
    pub comps: Vec<TileComp>,
    pub pocs: Vec<Poc>,
}

// ---------------------------------------------------------------- geometry (Annex B)

#[derive(Clone, Debug, Default)]
pub struct Seg {
    pub passes: u32,
    pub data: Vec<u8>,
    pub max: u32,
}
#[derive(Clone, Debug, Default)]
pub struct Cblk {
    pub r: Rect,
    pub included: bool,
    pub zbp: u32,
    pub lblock: u32,
    pub npasses: u32,
    pub segs: Vec<Seg>,
    /// passes and segments before the first layer left out
    pub kept: Option<(u32, Vec<Seg>)>,
}
#[derive(Clone, Debug, Default)]
pub struct PBand {
    /// number of code-blocks across and down
    pub nw: usize,
    pub nh: usize,
    pub cblks: Vec<Cblk>,
    pub incl: TagTree,
    pub zbp: TagTree,
}
#[derive(Clone, Debug)]
pub struct Prec {
    pub bands: Vec<PBand>,
    /// position on the reference grid where the progressions visit it
    pub xref: i64,
    pub yref: i64,
    pub layers_done: u32,
}
#[derive(Clone, Debug)]
pub struct Band {
    /// 0 LL, 1 HL, 2 LH, 3 HH
    pub orient: u8,
    pub r: Rect,
    /// index into the quantisation table
    pub q: usize,
}
#[derive(Clone, Debug)]
pub struct Res {
    pub r: Rect,
    pub npw: usize,
    pub nph: usize,
    pub bands: Vec<Band>,
    pub precs: Vec<Prec>,
}
#[derive(Clone, Debug)]
pub struct TComp {
    pub r: Rect,
    pub res: Vec<Res>,
}
#[derive(Clone, Debug)]
pub struct Tile {
    pub r: Rect,
    pub comps: Vec<TComp>,
}

pub fn geometry(siz: &Siz, p: &TileParams, t: u32) -> Tile {
    let tr = siz.tile(t);
    let comps = (0..siz.comps.len())
        .map(|c| {
            let cr = siz.on_comp(tr, c);
            let cod = &p.comps[c].cod;
            let nl = cod.levels;
            let res = (0..=nl)
                .map(|r| {
                    let d = nl - r;
                    let rr = Rect { x0: cdiv2(cr.x0, d), y0: cdiv2(cr.y0, d), x1: cdiv2(cr.x1, d), y1: cdiv2(cr.y1, d) };
                    let (ppx, ppy) = cod.prec[r as usize];
                    let npw = if rr.x1 > rr.x0 { (cdiv2(rr.x1, ppx) - fdiv2(rr.x0, ppx)) as usize } else { 0 };
                    let nph = if rr.y1 > rr.y0 { (cdiv2(rr.y1, ppy) - fdiv2(rr.y0, ppy)) as usize } else { 0 };
                    let mut bands = vec![];
                    let list: &[(u8, i64, i64)] = if r == 0 { &[(0, 0, 0)] } else { &[(1, 1, 0), (2, 0, 1), (3, 1, 1)] };
                    let nb = if r == 0 { nl } else { nl - r + 1 };
                    for &(orient, xo, yo) in list {
                        let half = if nb == 0 { 0 } else { 1i64 << (nb - 1) };
                        let b = Rect { x0: cdiv2(cr.x0 - half * xo, nb), y0: cdiv2(cr.y0 - half * yo, nb), x1: cdiv2(cr.x1 - half * xo, nb), y1: cdiv2(cr.y1 - half * yo, nb) };
                        bands.push(Band { orient, r: b, q: if r == 0 { 0 } else { 3 * (r as usize - 1) + orient as usize } });
                    }
                    // code-block size within the precinct (B-17, B-18), in the band's own coordinates
                    let (bpx, bpy) = if r == 0 { (ppx, ppy) } else { (ppx.wrapping_sub(1), ppy.wrapping_sub(1)) };
                    let (xcb, ycb) = (cod.xcb.min(bpx), cod.ycb.min(bpy));
                    let mut precs = vec![];
                    for j in 0..nph {
                        for i in 0..npw {
                            let (px, py) = (fdiv2(rr.x0, ppx) + i as i64, fdiv2(rr.y0, ppy) + j as i64);
                            let pb = bands
                                .iter()
                                .map(|b| {
                                    let r = Rect { x0: (px << bpx).max(b.r.x0), y0: (py << bpy).max(b.r.y0), x1: ((px + 1) << bpx).min(b.r.x1), y1: ((py + 1) << bpy).min(b.r.y1) };
                                    if b.r.empty() || r.empty() {
                                        return PBand::default();
                                    }
                                    let (cx0, cx1) = (fdiv2(r.x0, xcb), cdiv2(r.x1, xcb));
                                    let (cy0, cy1) = (fdiv2(r.y0, ycb), cdiv2(r.y1, ycb));
                                    let (nw, nh) = ((cx1 - cx0) as usize, (cy1 - cy0) as usize);
                                    let mut cblks = vec![];
                                    for y in cy0..cy1 {
                                        for x in cx0..cx1 {
                                            let k = Rect { x0: (x << xcb).max(r.x0), y0: (y << ycb).max(r.y0), x1: ((x + 1) << xcb).min(r.x1), y1: ((y + 1) << ycb).min(r.y1) };
                                            cblks.push(Cblk { r: k, lblock: 3, ..Cblk::default() });
                                        }
                                    }
                                    PBand { nw, nh, cblks, incl: TagTree::new(nw, nh), zbp: TagTree::new(nw, nh) }
                                })
                                .collect();
                            let (dx, dy) = (siz.comps[c].dx as i64, siz.comps[c].dy as i64);
                            let at = |p: i64, pp: u32, r0: i64, t0: i64, dxy: i64| if (p << pp) < r0 { t0 } else { ((p << pp) << d) * dxy };
                            precs.push(Prec { bands: pb, xref: at(px, ppx, rr.x0, tr.x0, dx).max(tr.x0), yref: at(py, ppy, rr.y0, tr.y0, dy).max(tr.y0), layers_done: 0 });
                        }
                    }
                    Res { r: rr, npw, nph, bands, precs }
                })
                .collect();
            TComp { r: cr, res }
        })
        .collect();
    Tile { r: tr, comps }
}

/// (component, resolution, precinct, layer)
pub type PacketId = (usize, usize, usize, u32);

/// B.12: the order of the packets of a tile.
pub fn packet_order(t: &Tile, p: &TileParams) -> R<Vec<PacketId>> {
    let whole = [Poc { rs: 0, cs: 0, le: p.layers, re: 33, ce: t.comps.len() as u32, prog: p.prog }];
    let vols: &[Poc] = if p.pocs.is_empty() { &whole } else { &p.pocs };
    let mut done: std::collections::BTreeSet<PacketId> = Default::default();
    let mut out = vec![];
    for v in vols {
        let mut l: Vec<([i64; 5], PacketId)> = vec![];
        for (c, tc) in t.comps.iter().enumerate() {
            if (c as u32) < v.cs || c as u32 >= v.ce {
                continue;
            }
            for (r, res) in tc.res.iter().enumerate() {
                if (r as u32) < v.rs || r as u32 >= v.re {
                    continue;
                }
                for (k, pr) in res.precs.iter().enumerate() {
                    for layer in 0..v.le.min(p.layers) {
                        let id = (c, r, k, layer);
                        if done.contains(&id) {
                            continue;
                        }
                        let (c, r, k, la, x, y) = (c as i64, r as i64, k as i64, layer as i64, pr.xref, pr.yref);
                        let key = match v.prog {
                            0 => [la, r, c, k, 0],
                            1 => [r, la, c, k, 0],
                            2 => [r, y, x, c, la],
                            3 => [y, x, c, r, la],
                            4 => [c, y, x, r, la],
                            _ => bail!("progression {}", v.prog),
                        };
                        l.push((key, id));
                    }
                }
            }
        }
        l.sort();
        for (_, id) in l {
            done.insert(id);
            out.push(id);
        }
    }
    Ok(out)
}
pub fn packet_count(t: &Tile, p: &TileParams) -> usize {
    t.comps.iter().flat_map(|c| &c.res).map(|r| r.precs.len()).sum::<usize>() * p.layers as usize
}

// ---------------------------------------------------------------- tag trees and packet header bits (B.10)

#[derive(Clone, Debug, Default)]
pub struct TagTree {
    /// per level: width, height, offset of the first node
    pub levels: Vec<(usize, usize, usize)>,
    pub value: Vec<u32>,
    pub low: Vec<u32>,
    pub known: Vec<bool>,
}
impl TagTree {
    pub fn new(w: usize, h: usize) -> TagTree {
        let mut levels = vec![];
        let (mut a, mut b, mut n) = (w, h, 0);
        if w * h > 0 {
            loop {
                levels.push((a, b, n));
                n += a * b;
                if a * b == 1 {
                    break;
                }
                a = a.div_ceil(2);
                b = b.div_ceil(2);
            }
        }
        TagTree { levels, value: vec![u32::MAX; n], low: vec![0; n], known: vec![false; n] }
    }
    pub fn path(&self, x: usize, y: usize) -> Vec<usize> {
        self.levels.iter().enumerate().rev().map(|(k, &(w, _, o))| o + (y >> k) * w + (x >> k)).collect()
    }
    /// Reads until it is known whether the leaf's value is below `thr`.
    pub fn decode(&mut self, x: usize, y: usize, thr: u32, b: &mut BitIn) -> R<bool> {
        let mut low = 0;
        let mut below = false;
        for n in self.path(x, y) {
            low = low.max(self.low[n]);
            while low < thr && self.value[n] == u32::MAX {
                if b.bit()? {
                    self.value[n] = low;
                } else {
                    low += 1;
                }
            }
            if self.value[n] != u32::MAX {
                need!(low <= self.value[n], "tag tree value below its parent");
                low = self.value[n];
            }
            self.low[n] = low;
            below = self.value[n] < thr;
            if self.value[n] == u32::MAX {
                // nothing is known below this node
            }
        }
        Ok(below)
    }
}

pub struct BitIn<'a> {
    pub d: &'a [u8],
    pub pos: usize,
    buf: u8,
    left: u32,
    last_ff: bool,
}
impl<'a> BitIn<'a> {
    pub fn new(d: &'a [u8]) -> BitIn<'a> {
        BitIn { d, pos: 0, buf: 0, left: 0, last_ff: false }
    }
    pub fn bit(&mut self) -> R<bool> {
        if self.left == 0 {
            let v = *self.d.get(self.pos).ok_or("packet header runs past its data")?;
            self.pos += 1;
            self.left = 8;
            if self.last_ff {
                need!(v & 0x80 == 0, "no stuffing bit after 0xFF in a packet header");
                self.left = 7;
            }
            self.buf = v;
            self.last_ff = v == 0xFF;
        }
        self.left -= 1;
        Ok(self.buf >> self.left & 1 == 1)
    }
    pub fn bits(&mut self, n: u32) -> R<u32> {
        need!(n <= 32, "{n} bits at once");
        let mut v = 0u64;
        for _ in 0..n {
            v = v << 1 | self.bit()? as u64;
        }
        Ok(v as u32)
    }
    pub fn align(&mut self) -> R<()> {
        self.left = 0;
        if self.last_ff {
            let v = *self.d.get(self.pos).ok_or("packet header runs past its data")?;
            need!(v & 0x80 == 0, "no stuffing bit after a final 0xFF");
            self.pos += 1;
            self.last_ff = false;
        }
        Ok(())
    }
}

/// How many passes the next codeword segment starting at pass `n` holds (B.10.7, D.4, D.6).
pub fn seg_max(style: u8, n: u32) -> u32 {
    if style & TERMALL != 0 {
        1
    } else if style & BYPASS != 0 {
        if n < 10 {
            10 - n
        } else if n % 3 == 1 {
            // significance propagation after the tenth pass
            2
        } else if n % 3 == 2 {
            1
        } else {
            1
        }
    } else {
        u32::MAX
    }
}
pub fn floor_log2(n: u32) -> u32 {
    31 - n.leading_zeros()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Packet {
    pub id: PacketId,
    pub head: Vec<u8>,
    pub body: Vec<u8>,
    pub tile_part: usize,
    /// bytes in the codestream, including markers
    pub size: usize,
    /// position after it
    pub end: usize,
}

/// Reads one packet header from `d`; returns the bytes used and the lengths of the body's pieces.
/// `commit`: the pieces (band, code-block, [(passes, bytes)])
type Pieces = Vec<(usize, usize, Vec<(u32, usize)>)>;
pub fn read_packet_header(d: &[u8], t: &mut Tile, p: &TileParams, id: PacketId) -> R<(usize, Pieces)> {
    let (c, r, k, layer) = id;
    let style = p.comps[c].cod.style;
    let prec = &mut t.comps[c].res[r].precs[k];
    need!(prec.layers_done == layer, "packet of layer {layer} after {} layers", prec.layers_done);
    let mut b = BitIn::new(d);
    let mut pieces: Pieces = vec![];
    if b.bit()? {
        for (bi, pb) in prec.bands.iter_mut().enumerate() {
            for ci in 0..pb.cblks.len() {
                let (x, y) = (ci % pb.nw, ci / pb.nw);
                let first = !pb.cblks[ci].included;
                let inc = if first { pb.incl.decode(x, y, layer + 1, &mut b)? } else { b.bit()? };
                if !inc {
                    continue;
                }
                if first {
                    let mut thr = 1;
                    while !pb.zbp.decode(x, y, thr, &mut b)? {
                        thr += 1;
                        need!(thr < 200, "zero bit-planes without end");
                    }
                    pb.cblks[ci].zbp = thr - 1;
                    pb.cblks[ci].included = true;
                }
                let n = if !b.bit()? {
                    1
                } else if !b.bit()? {
                    2
                } else {
                    match b.bits(2)? {
                        3 => match b.bits(5)? {
                            31 => 37 + b.bits(7)?,
                            v => 6 + v,
                        },
                        v => 3 + v,
                    }
                };
                let k = &mut pb.cblks[ci];
                while b.bit()? {
                    k.lblock += 1;
                    need!(k.lblock < 40, "Lblock without end");
                }
                let mut left = n;
                let mut list = vec![];
                let mut at = k.npasses;
                // passes the open segment still takes
                let mut room = match k.segs.last() {
                    Some(s) if s.max == u32::MAX => u32::MAX,
                    Some(s) if s.passes < s.max => s.max - s.passes,
                    _ => 0,
                };
                while left > 0 {
                    if room == 0 {
                        room = seg_max(style, at);
                    }
                    let m = left.min(room);
                    let nb = k.lblock + floor_log2(m);
                    need!(nb <= 32, "{nb} bits for a length");
                    list.push((m, b.bits(nb)? as usize));
                    left -= m;
                    at += m;
                    room = if room == u32::MAX { room } else { room - m };
                }
                pieces.push((bi, ci, list));
            }
        }
    }
    b.align()?;
    prec.layers_done += 1;
    Ok((b.pos, pieces))
}
/// Adds the pieces of a packet's body to its code-blocks.
pub fn add_body(d: &[u8], t: &mut Tile, p: &TileParams, id: PacketId, pieces: &Pieces) {
    let (c, r, k, _) = id;
    let style = p.comps[c].cod.style;
    let mut at = 0;
    for (bi, ci, list) in pieces {
        let cb = &mut t.comps[c].res[r].precs[k].bands[*bi].cblks[*ci];
        for &(m, len) in list {
            let open = cb.segs.last().is_some_and(|s| s.max == u32::MAX || s.passes < s.max);
            if !open {
                cb.segs.push(Seg { passes: 0, data: vec![], max: seg_max(style, cb.npasses) });
            }
            let s = cb.segs.last_mut().unwrap();
            s.passes += m;
            s.data.extend_from_slice(&d[at..at + len]);
            cb.npasses += m;
            at += len;
        }
    }
}
pub fn pieces_len(p: &Pieces) -> usize {
    p.iter().flat_map(|x| &x.2).map(|x| x.1).sum()
}

// ---------------------------------------------------------------- arithmetic decoder (Annex C)

/// Qe, NMPS, NLPS, SWITCH
pub const QE: [(u32, u8, u8, bool); 47] = [
    (0x5601, 1, 1, true),
    (0x3401, 2, 6, false),
    (0x1801, 3, 9, false),
    (0x0AC1, 4, 12, false),
    (0x0521, 5, 29, false),
    (0x0221, 38, 33, false),
    (0x5601, 7, 6, true),
    (0x5401, 8, 14, false),
    (0x4801, 9, 14, false),
    (0x3801, 10, 14, false),
    (0x3001, 11, 17, false),
    (0x2401, 12, 18, false),
    (0x1C01, 13, 20, false),
    (0x1601, 29, 21, false),
    (0x5601, 15, 14, true),
    (0x5401, 16, 14, false),
    (0x5101, 17, 15, false),
    (0x4801, 18, 16, false),
    (0x3801, 19, 17, false),
    (0x3401, 20, 18, false),
    (0x3001, 21, 19, false),
    (0x2801, 22, 19, false),
    (0x2401, 23, 20, false),
    (0x2201, 24, 21, false),
    (0x1C01, 25, 22, false),
    (0x1801, 26, 23, false),
    (0x1601, 27, 24, false),
    (0x1401, 28, 25, false),
    (0x1201, 29, 26, false),
    (0x1101, 30, 27, false),
    (0x0AC1, 31, 28, false),
    (0x09C1, 32, 29, false),
    (0x08A1, 33, 30, false),
    (0x0521, 34, 31, false),
    (0x0441, 35, 32, false),
    (0x02A1, 36, 33, false),
    (0x0221, 37, 34, false),
    (0x0141, 38, 35, false),
    (0x0111, 39, 36, false),
    (0x0085, 40, 37, false),
    (0x0049, 41, 38, false),
    (0x0025, 42, 39, false),
    (0x0015, 43, 40, false),
    (0x0009, 44, 41, false),
    (0x0005, 45, 42, false),
    (0x0001, 45, 43, false),
    (0x5601, 46, 46, false),
];
pub const CTX_RL: usize = 17;
pub const CTX_UNI: usize = 18;
pub fn initial_contexts() -> [(u8, bool); 19] {
    let mut c = [(0u8, false); 19];
    c[0].0 = 4;
    c[CTX_RL].0 = 3;
    c[CTX_UNI].0 = 46;
    c
}
pub struct MqIn<'a> {
    d: &'a [u8],
    bp: usize,
    c: u32,
    a: u32,
    ct: u32,
}
impl<'a> MqIn<'a> {
    fn byte(&self, i: usize) -> u32 {
        self.d.get(i).copied().unwrap_or(0xFF) as u32
    }
    pub fn new(d: &'a [u8]) -> MqIn<'a> {
        let mut m = MqIn { d, bp: 0, c: 0, a: 0x8000, ct: 0 };
        m.c = m.byte(0) << 16;
        m.bytein();
        m.c <<= 7;
        m.ct -= 7;
        m
    }
    fn bytein(&mut self) {
        if self.byte(self.bp) == 0xFF {
            if self.byte(self.bp + 1) > 0x8F {
                self.c += 0xFF00;
                self.ct = 8;
            } else {
                self.bp += 1;
                self.c += self.byte(self.bp) << 9;
                self.ct = 7;
            }
        } else {
            self.bp += 1;
            self.c += self.byte(self.bp) << 8;
            self.ct = 8;
        }
    }
    pub fn decode(&mut self, cx: &mut (u8, bool)) -> bool {
        let (qe, nm, nl, sw) = QE[cx.0 as usize];
        self.a -= qe;
        let d;
        if self.c >> 16 < qe {
            // LPS exchange
            if self.a < qe {
                d = cx.1;
                cx.0 = nm;
            } else {
                d = !cx.1;
                if sw {
                    cx.1 = !cx.1
                }
                cx.0 = nl;
            }
            self.a = qe;
        } else {
            self.c -= qe << 16;
            if self.a & 0x8000 != 0 {
                return cx.1;
            }
            if self.a < qe {
                d = !cx.1;
                if sw {
                    cx.1 = !cx.1
                }
                cx.0 = nl;
            } else {
                d = cx.1;
                cx.0 = nm;
            }
        }
        loop {
            if self.ct == 0 {
                self.bytein();
            }
            self.a <<= 1;
            self.c <<= 1;
            self.ct -= 1;
            if self.a & 0x8000 != 0 {
                break;
            }
        }
        d
    }
}
/// Bits of a lazily coded segment (D.6).
pub struct RawIn<'a> {
    d: &'a [u8],
    pos: usize,
    buf: u8,
    left: u32,
}
impl<'a> RawIn<'a> {
    pub fn new(d: &'a [u8]) -> RawIn<'a> {
        RawIn { d, pos: 0, buf: 0, left: 0 }
    }
    pub fn bit(&mut self) -> bool {
        if self.left == 0 {
            self.left = if self.buf == 0xFF && self.pos > 0 { 7 } else { 8 };
            self.buf = self.d.get(self.pos).copied().unwrap_or(0xFF);
            self.pos += 1;
        }
        self.left -= 1;
        self.buf >> self.left & 1 == 1
    }
}

// ---------------------------------------------------------------- coefficient bit modelling (Annex D)

/// One code-block's state, shared by the decoder and the encoder.
pub struct Block {
    pub w: usize,
    pub h: usize,
    pub orient: u8,
    pub style: u8,
    pub sig: Vec<bool>,
    pub neg: Vec<bool>,
    pub refined: Vec<bool>,
    pub visited: Vec<bool>,
}
impl Block {
    pub fn new(w: usize, h: usize, orient: u8, style: u8) -> Block {
        let n = w * h;
        Block { w, h, orient, style, sig: vec![false; n], neg: vec![false; n], refined: vec![false; n], visited: vec![false; n] }
    }
    /// Significance and sign (+1, -1, 0) of the neighbour at (x+dx, y+dy) of (x, y).
    fn at(&self, x: usize, y: usize, dx: i32, dy: i32) -> i32 {
        let (nx, ny) = (x as i32 + dx, y as i32 + dy);
        if nx < 0 || ny < 0 || nx >= self.w as i32 || ny >= self.h as i32 {
            return 0;
        }
        if self.style & VSC != 0 && dy > 0 && y % 4 == 3 {
            return 0; // the next stripe does not count
        }
        let i = ny as usize * self.w + nx as usize;
        if self.sig[i] {
            if self.neg[i] {
                -1
            } else {
                1
            }
        } else {
            0
        }
    }
    fn counts(&self, x: usize, y: usize) -> (u32, u32, u32) {
        let s = |dx, dy| self.at(x, y, dx, dy).unsigned_abs();
        (s(-1, 0) + s(1, 0), s(0, -1) + s(0, 1), s(-1, -1) + s(1, -1) + s(-1, 1) + s(1, 1))
    }
    pub fn zc(&self, x: usize, y: usize) -> usize {
        let (mut h, mut v, d) = self.counts(x, y);
        if self.orient == 1 {
            std::mem::swap(&mut h, &mut v);
        }
        if self.orient == 3 {
            let hv = h + v;
            match (d, hv) {
                (3.., _) => 8,
                (2, 1..) => 7,
                (2, 0) => 6,
                (1, 2..) => 5,
                (1, 1) => 4,
                (1, 0) => 3,
                (0, 2..) => 2,
                (0, 1) => 1,
                (0, 0) => 0,
            }
        } else {
            match (h, v, d) {
                (2, _, _) => 8,
                (1, 1.., _) => 7,
                (1, 0, 1..) => 6,
                (1, 0, 0) => 5,
                (0, 2, _) => 4,
                (0, 1, _) => 3,
                (0, 0, 2..) => 2,
                (0, 0, 1) => 1,
                _ => 0,
            }
        }
    }
    /// Context and flip of the sign bit.
    pub fn sc(&self, x: usize, y: usize) -> (usize, bool) {
        let h = (self.at(x, y, -1, 0) + self.at(x, y, 1, 0)).clamp(-1, 1);
        let v = (self.at(x, y, 0, -1) + self.at(x, y, 0, 1)).clamp(-1, 1);
        match (h, v) {
            (1, 1) => (13, false),
            (1, 0) => (12, false),
            (1, -1) => (11, false),
            (0, 1) => (10, false),
            (0, 0) => (9, false),
            (0, -1) => (10, true),
            (-1, 1) => (11, true),
            (-1, 0) => (12, true),
            _ => (13, true),
        }
    }
    pub fn mr(&self, x: usize, y: usize) -> usize {
        if self.refined[y * self.w + x] {
            return 16;
        }
        let (h, v, d) = self.counts(x, y);
        if h + v + d == 0 {
            14
        } else {
            15
        }
    }
    /// Whether the four-high column at (x, y) is coded with a run length in a cleanup pass.
    pub fn run(&self, x: usize, y: usize) -> bool {
        y + 4 <= self.h && (0..4).all(|k| {
            let i = (y + k) * self.w + x;
            !self.sig[i] && !self.visited[i] && self.zc(x, y + k) == 0
        })
    }
}

/// A decoded coefficient: magnitude in units of plane 0 and the lowest plane that has been decoded.
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Coef {
    pub neg: bool,
    pub mag: u64,
    pub plane: u32,
    /// Every plane is known, and so is that what is below is zero: the middle of the interval is not taken (E.1, r = 0).
    pub exact: bool,
}

/// `planes`: number of magnitude bit-planes of the sub-band (with ROI shift).
pub fn decode_block(cb: &Cblk, orient: u8, style: u8, planes: u32) -> R<Vec<Coef>> {
    let (w, h) = (cb.r.w(), cb.r.h());
    let mut out = vec![Coef { plane: planes, ..Coef::default() }; w * h];
    if cb.npasses == 0 {
        return Ok(out);
    }
    need!(cb.zbp < planes, "{} zero bit-planes of {planes}", cb.zbp);
    let top = planes - cb.zbp; // planes that are coded
    need!(cb.npasses <= 3 * top - 2, "{} passes for {top} bit-planes {:?} orient {orient} planes {planes} zbp {}", cb.npasses, cb.r, cb.zbp);
    let mut b = Block::new(w, h, orient, style);
    let mut cx = initial_contexts();
    let mut pass = 0u32;
    for seg in &cb.segs {
        need!(cb.kept.is_some() || seg.data.last() != Some(&0xFF), "a codeword segment ends with 0xFF");
        let raw = style & BYPASS != 0 && pass >= 10 && pass % 3 != 0;
        let mut mq = MqIn::new(&seg.data);
        let mut rw = RawIn::new(&seg.data);
        for _ in 0..seg.passes {
            let plane = top - 1 - (pass + 2) / 3;
            let kind = (pass + 2) % 3; // 0 significance, 1 refinement, 2 cleanup
            let one = 1u64 << plane;
            let mut found = |b: &mut Block, out: &mut [Coef], x: usize, y: usize, mq: &mut MqIn, rw: &mut RawIn, cx: &mut [(u8, bool); 19]| {
                let i = y * w + x;
                let s = if raw {
                    rw.bit()
                } else {
                    let (c, f) = b.sc(x, y);
                    mq.decode(&mut cx[c]) ^ f
                };
                b.sig[i] = true;
                b.neg[i] = s;
                out[i].neg = s;
                out[i].mag = one;
            };
            for y0 in (0..h).step_by(4) {
                for x in 0..w {
                    let mut y = y0;
                    if kind == 2 && b.run(x, y0) {
                        if !mq.decode(&mut cx[CTX_RL]) {
                            for k in 0..4 {
                                out[(y0 + k) * w + x].plane = plane;
                            }
                            continue;
                        }
                        let k = (mq.decode(&mut cx[CTX_UNI]) as usize) << 1 | mq.decode(&mut cx[CTX_UNI]) as usize;
                        for j in 0..=k {
                            out[(y0 + j) * w + x].plane = plane;
                        }
                        y = y0 + k;
                        found(&mut b, &mut out, x, y, &mut mq, &mut rw, &mut cx);
                        y += 1;
                    }
                    while y < (y0 + 4).min(h) {
                        let i = y * w + x;
                        match kind {
                            0 if !b.sig[i] => {
                                let c = b.zc(x, y);
                                if c != 0 {
                                    b.visited[i] = true;
                                    out[i].plane = plane;
                                    if if raw { rw.bit() } else { mq.decode(&mut cx[c]) } {
                                        found(&mut b, &mut out, x, y, &mut mq, &mut rw, &mut cx);
                                    }
                                }
                            }
                            1 if b.sig[i] && !b.visited[i] => {
                                let c = b.mr(x, y);
                                if if raw { rw.bit() } else { mq.decode(&mut cx[c]) } {
                                    out[i].mag |= one;
                                }
                                out[i].plane = plane;
                                b.refined[i] = true;
                            }
                            2 if !b.sig[i] && !b.visited[i] => {
                                out[i].plane = plane;
                                let c = b.zc(x, y);
                                if mq.decode(&mut cx[c]) {
                                    found(&mut b, &mut out, x, y, &mut mq, &mut rw, &mut cx);
                                }
                            }
                            _ => {}
                        }
                        y += 1;
                    }
                }
            }
            if kind == 2 {
                b.visited.iter_mut().for_each(|v| *v = false);
                if style & SEGSYM != 0 {
                    let mut v = 0;
                    for _ in 0..4 {
                        v = v << 1 | mq.decode(&mut cx[CTX_UNI]) as u32;
                    }
                    need!(v == 10, "segmentation symbol {v:#x}");
                }
            }
            if style & RESET != 0 {
                cx = initial_contexts();
            }
            pass += 1;
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- wavelets (Annex F), component transforms (Annex G)

/// Index into [0, n) of position i with whole-sample symmetric extension.
fn mirror(mut i: i64, n: i64) -> usize {
    if n == 1 {
        return 0;
    }
    let p = 2 * (n - 1);
    i = i.rem_euclid(p);
    (if i >= n { p - i } else { i }) as usize
}
/// Inverse 5/3 of interleaved `y` whose first index is `i0`.
pub fn inv53(y: &mut [i64], i0: i64) {
    let n = y.len() as i64;
    if n == 0 {
        return;
    }
    if n == 1 {
        // odd only where passes are missing: either rounding would do
        if i0 & 1 == 1 {
            y[0] /= 2;
        }
        return;
    }
    for i in (0..n).filter(|i| (i0 + i) & 1 == 0) {
        y[i as usize] -= (y[mirror(i - 1, n)] + y[mirror(i + 1, n)] + 2) >> 2;
    }
    for i in (0..n).filter(|i| (i0 + i) & 1 == 1) {
        y[i as usize] += (y[mirror(i - 1, n)] + y[mirror(i + 1, n)]) >> 1;
    }
}
pub fn fwd53(x: &mut [i64], i0: i64) {
    let n = x.len() as i64;
    if n == 0 {
        return;
    }
    if n == 1 {
        if i0 & 1 == 1 {
            x[0] <<= 1;
        }
        return;
    }
    for i in (0..n).filter(|i| (i0 + i) & 1 == 1) {
        x[i as usize] -= (x[mirror(i - 1, n)] + x[mirror(i + 1, n)]) >> 1;
    }
    for i in (0..n).filter(|i| (i0 + i) & 1 == 0) {
        x[i as usize] += (x[mirror(i - 1, n)] + x[mirror(i + 1, n)] + 2) >> 2;
    }
}
const ALPHA: f64 = -1.586_134_342_059_924;
const BETA: f64 = -0.052_980_118_572_961;
const GAMMA: f64 = 0.882_911_075_530_934;
const DELTA: f64 = 0.443_506_852_043_971;
const KK: f64 = 1.230_174_104_914_001;
pub fn inv97(y: &mut [f64], i0: i64) {
    let n = y.len() as i64;
    if n == 0 {
        return;
    }
    if n == 1 {
        if i0 & 1 == 1 {
            y[0] /= 2.0;
        }
        return;
    }
    for i in 0..n {
        y[i as usize] *= if (i0 + i) & 1 == 0 { KK } else { 1.0 / KK };
    }
    for (par, k) in [(0, DELTA), (1, GAMMA), (0, BETA), (1, ALPHA)] {
        for i in (0..n).filter(|i| (i0 + i) & 1 == par) {
            y[i as usize] -= k * (y[mirror(i - 1, n)] + y[mirror(i + 1, n)]);
        }
    }
}
pub fn fwd97(x: &mut [f64], i0: i64) {
    let n = x.len() as i64;
    if n == 0 {
        return;
    }
    if n == 1 {
        if i0 & 1 == 1 {
            x[0] *= 2.0;
        }
        return;
    }
    for (par, k) in [(1, ALPHA), (0, BETA), (1, GAMMA), (0, DELTA)] {
        for i in (0..n).filter(|i| (i0 + i) & 1 == par) {
            x[i as usize] += k * (x[mirror(i - 1, n)] + x[mirror(i + 1, n)]);
        }
    }
    for i in 0..n {
        x[i as usize] *= if (i0 + i) & 1 == 0 { 1.0 / KK } else { KK };
    }
}
pub trait Sample: Copy + Default + PartialEq + std::fmt::Debug {
    fn inverse(v: &mut [Self], i0: i64);
    fn forward(v: &mut [Self], i0: i64);
}
impl Sample for i64 {
    fn inverse(v: &mut [i64], i0: i64) {
        inv53(v, i0)
    }
    fn forward(v: &mut [i64], i0: i64) {
        fwd53(v, i0)
    }
}
impl Sample for f64 {
    fn inverse(v: &mut [f64], i0: i64) {
        inv97(v, i0)
    }
    fn forward(v: &mut [f64], i0: i64) {
        fwd97(v, i0)
    }
}
/// Puts the four bands together on the rectangle of the next resolution (F.3.3) and undoes the level.
pub fn synthesize<T: Sample>(r: Rect, ll: &[T], lr: Rect, bands: &[(Rect, Vec<T>)]) -> Vec<T> {
    let (w, h) = (r.w(), r.h());
    let mut a = vec![T::default(); w * h];
    for y in r.y0..r.y1 {
        for x in r.x0..r.x1 {
            let (b, src) = match (x & 1, y & 1) {
                (0, 0) => (lr, ll),
                (1, 0) => (bands[0].0, &bands[0].1[..]),
                (0, 1) => (bands[1].0, &bands[1].1[..]),
                _ => (bands[2].0, &bands[2].1[..]),
            };
            let (u, v) = ((x >> 1) - b.x0, (y >> 1) - b.y0);
            a[(y - r.y0) as usize * w + (x - r.x0) as usize] = src[v as usize * b.w() + u as usize];
        }
    }
    for row in a.chunks_mut(w.max(1)) {
        T::inverse(row, r.x0);
    }
    let mut col = vec![T::default(); h];
    for x in 0..w {
        for y in 0..h {
            col[y] = a[y * w + x];
        }
        T::inverse(&mut col, r.y0);
        for y in 0..h {
            a[y * w + x] = col[y];
        }
    }
    a
}
/// One level of decomposition: (LL, [HL, LH, HH]).
pub fn analyze<T: Sample>(r: Rect, a: &[T], lr: Rect, hr: [Rect; 3]) -> (Vec<T>, [Vec<T>; 3]) {
    let (w, h) = (r.w(), r.h());
    let mut a = a.to_vec();
    let mut col = vec![T::default(); h];
    for x in 0..w {
        for y in 0..h {
            col[y] = a[y * w + x];
        }
        T::forward(&mut col, r.y0);
        for y in 0..h {
            a[y * w + x] = col[y];
        }
    }
    for row in a.chunks_mut(w.max(1)) {
        T::forward(row, r.x0);
    }
    let rects = [lr, hr[0], hr[1], hr[2]];
    let mut out: Vec<Vec<T>> = rects.iter().map(|b| vec![T::default(); b.w() * b.h()]).collect();
    for y in r.y0..r.y1 {
        for x in r.x0..r.x1 {
            let k = ((x & 1) + 2 * (y & 1)) as usize;
            let b = rects[k];
            out[k][((y >> 1) - b.y0) as usize * b.w() + ((x >> 1) - b.x0) as usize] = a[(y - r.y0) as usize * w + (x - r.x0) as usize];
        }
    }
    let mut it = out.into_iter();
    (it.next().unwrap(), [it.next().unwrap(), it.next().unwrap(), it.next().unwrap()])
}

/// Samples of one component of a tile, before the component transform.
#[derive(Clone, Debug)]
pub enum Plane {
    Int(Vec<i64>),
    Real(Vec<f64>),
}

fn band_coefs(t: &TComp, r: usize, bi: usize, p: &TileComp) -> R<(Rect, Vec<Coef>, u32)> {
    let res = &t.res[r];
    let band = &res.bands[bi];
    let (e, _) = p.q.step(band.q)?;
    let mb = p.q.guard + e;
    need!(mb >= 1, "no magnitude bits");
    let planes = mb - 1 + p.roi;
    let (w, h) = (band.r.w(), band.r.h());
    let mut a = vec![Coef { plane: planes, ..Coef::default() }; w * h];
    for pr in &res.precs {
        for cb in &pr.bands[bi].cblks {
            let v = decode_block(cb, band.orient, p.cod.style, planes)?;
            for y in 0..cb.r.h() {
                for x in 0..cb.r.w() {
                    let mut k = v[y * cb.r.w() + x];
                    if p.roi > 0 {
                        // H.1: maxshift
                        if k.mag >> p.roi != 0 {
                            k.mag >>= p.roi;
                            k.exact = k.plane < p.roi;
                            k.plane = k.plane.saturating_sub(p.roi);
                        }
                    }
                    a[(cb.r.y0 - band.r.y0) as usize * w + y * w + (cb.r.x0 - band.r.x0) as usize + x] = k;
                }
            }
        }
    }
    Ok((band.r, a, planes))
}
fn gain(orient: u8) -> u32 {
    [0, 1, 1, 2][orient as usize]
}
/// The dequantised coefficients of an irreversibly coded tile-component: (resolution, band, coefficients, step).
pub fn real_coefs(t: &TComp, p: &TileComp, prec: u32) -> R<Vec<(usize, usize, Vec<f64>, f64)>> {
    let mut out = vec![];
    for k in 0..=p.cod.levels as usize {
        for bi in 0..t.res[k].bands.len() {
            let b = &t.res[k].bands[bi];
            let (e, m) = p.q.step(b.q)?;
            let d = step_size(prec, b.orient, e, m);
            let (_, a, _) = band_coefs(t, k, bi, p)?;
            out.push((k, bi, a.iter().map(|c| real(c, d)).collect(), d));
        }
    }
    Ok(out)
}
fn real(c: &Coef, d: f64) -> f64 {
    let m = if c.exact { c.mag as f64 * d } else if c.mag != 0 { (c.mag as f64 + 0.5 * 2f64.powi(c.plane as i32)) * d } else { 0.0 };
    if c.neg {
        -m
    } else {
        m
    }
}
/// E-3: the quantisation step of a band.
pub fn step_size(prec: u32, orient: u8, e: u32, m: u32) -> f64 {
    2f64.powi((prec + gain(orient)) as i32 - e as i32) * (1.0 + m as f64 / 2048.0)
}
/// Decodes a tile-component to resolution `levels - reduce`.
pub fn reconstruct(t: &TComp, p: &TileComp, prec: u32, reduce: u32) -> R<(Rect, Plane)> {
    let top = (p.cod.levels - reduce) as usize;
    fn int(c: &Coef) -> i64 {
        let m = if c.mag != 0 && c.plane > 0 { c.mag as i64 + (1i64 << (c.plane - 1)) } else { c.mag as i64 };
        if c.neg {
            -m
        } else {
            m
        }
    }
    need!(p.cod.reversible == (p.q.style == 0), "transformation {} with quantisation style {}", p.cod.reversible, p.q.style);
    if p.cod.reversible {
        let (mut r, a, _) = band_coefs(t, 0, 0, p)?;
        let mut ll: Vec<i64> = a.iter().map(int).collect();
        for k in 1..=top {
            let mut bands = vec![];
            for bi in 0..3 {
                let (br, a, _) = band_coefs(t, k, bi, p)?;
                bands.push((br, a.iter().map(int).collect::<Vec<_>>()));
            }
            ll = synthesize(t.res[k].r, &ll, r, &bands);
            r = t.res[k].r;
        }
        Ok((r, Plane::Int(ll)))
    } else {
        let delta = |k: usize, bi: usize| -> R<f64> {
            let b = &t.res[k].bands[bi];
            let (e, m) = p.q.step(b.q)?;
            Ok(step_size(prec, b.orient, e, m))
        };
        let (mut r, a, _) = band_coefs(t, 0, 0, p)?;
        let d = delta(0, 0)?;
        let mut ll: Vec<f64> = a.iter().map(|c| real(c, d)).collect();
        for k in 1..=top {
            let mut bands = vec![];
            for bi in 0..3 {
                let (br, a, _) = band_coefs(t, k, bi, p)?;
                let d = delta(k, bi)?;
                bands.push((br, a.iter().map(|c| real(c, d)).collect::<Vec<_>>()));
            }
            ll = synthesize(t.res[k].r, &ll, r, &bands);
            r = t.res[k].r;
        }
        Ok((r, Plane::Real(ll)))
    }
}
/// G.2, G.3: undoes the component transform on the first three planes.
pub fn inverse_mct(planes: &mut [Plane]) -> R<()> {
    need!(planes.len() >= 3, "component transform on {} components", planes.len());
    let (a, rest) = planes.split_at_mut(1);
    let (b, c) = rest.split_at_mut(1);
    match (&mut a[0], &mut b[0], &mut c[0]) {
        (Plane::Int(y), Plane::Int(u), Plane::Int(v)) => {
            need!(y.len() == u.len() && y.len() == v.len(), "component transform on different sizes");
            for i in 0..y.len() {
                let g = y[i] - ((u[i] + v[i]) >> 2);
                let (r, b) = (v[i] + g, u[i] + g);
                (y[i], u[i], v[i]) = (r, g, b);
            }
        }
        (Plane::Real(y), Plane::Real(u), Plane::Real(v)) => {
            need!(y.len() == u.len() && y.len() == v.len(), "component transform on different sizes");
            for i in 0..y.len() {
                let (yy, cb, cr) = (y[i], u[i], v[i]);
                y[i] = yy + 1.402 * cr;
                u[i] = yy - 0.344136 * cb - 0.714136 * cr;
                v[i] = yy + 1.772 * cb;
            }
        }
        _ => bail!("component transform on different wavelets"),
    }
    Ok(())
}
/// A decoded component: its rectangle (at the decoded resolution) and exact or real samples, level shifted but not clamped.
#[derive(Clone, Debug)]
pub struct OutComp {
    pub r: Rect,
    pub reversible: bool,
    pub v: Vec<f64>,
}
pub fn assemble(siz: &Siz, tiles: &[(u32, Tile, TileParams)], reduce: u32, use_mct: bool) -> R<Vec<OutComp>> {
    let mut out: Vec<OutComp> = (0..siz.comps.len())
        .map(|c| {
            let r = siz.on_comp(siz.area(), c);
            let r = Rect { x0: cdiv2(r.x0, reduce), y0: cdiv2(r.y0, reduce), x1: cdiv2(r.x1, reduce), y1: cdiv2(r.y1, reduce) };
            OutComp { r, reversible: true, v: vec![0.0; r.w() * r.h()] }
        })
        .collect();
    for (_, t, p) in tiles {
        let mut rects = vec![];
        let mut planes = vec![];
        for c in 0..siz.comps.len() {
            need!(p.comps[c].cod.levels >= reduce, "component {c} has no such resolution");
            let (r, pl) = reconstruct(&t.comps[c], &p.comps[c], siz.comps[c].prec, reduce)?;
            rects.push(r);
            planes.push(pl);
        }
        if p.mct == 1 && use_mct {
            inverse_mct(&mut planes)?;
        }
        for (c, pl) in planes.iter().enumerate() {
            let o = &mut out[c];
            let shift = if siz.comps[c].sgnd { 0.0 } else { 2f64.powi(siz.comps[c].prec as i32 - 1) };
            let w = rects[c].w();
            let val = |i: usize| match pl {
                Plane::Int(v) => v[i] as f64,
                Plane::Real(v) => v[i],
            };
            o.reversible &= matches!(pl, Plane::Int(_));
            for y in rects[c].y0..rects[c].y1 {
                for x in rects[c].x0..rects[c].x1 {
                    let i = (y - rects[c].y0) as usize * w + (x - rects[c].x0) as usize;
                    o.v[(y - o.r.y0) as usize * o.r.w() + (x - o.r.x0) as usize] = val(i) + shift;
                }
            }
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- codestream syntax (Annex A)

#[derive(Clone, Debug, PartialEq)]
pub struct Marker {
    pub code: u16,
    pub pos: usize,
    /// length of the marker segment without the marker itself; 0 when it has none
    pub len: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Overrides {
    pub cod: Option<Cod>,
    pub coc: BTreeMap<usize, CodComp>,
    pub qcd: Option<Qnt>,
    pub qcc: BTreeMap<usize, Qnt>,
    pub rgn: BTreeMap<usize, u32>,
    pub poc: Vec<Poc>,
}
#[derive(Clone, Debug)]
pub struct TilePart {
    pub tile: u32,
    pub index: u32,
    pub count: u32,
    pub psot: u32,
    /// position of the SOT marker
    pub start: usize,
    /// position after the SOD marker
    pub body: usize,
    pub end: usize,
    pub markers: Vec<Marker>,
    pub ppt: Vec<(u8, Vec<u8>)>,
    pub plt: Vec<(u8, Vec<u8>)>,
}
#[derive(Clone, Debug)]
pub struct Codestream {
    pub siz: Siz,
    pub main: Overrides,
    pub markers: Vec<Marker>,
    /// position of the first SOT
    pub main_end: usize,
    pub ppm: Vec<(u8, Vec<u8>)>,
    pub plm: Vec<(u8, Vec<u8>)>,
    /// (tile, length) of every TLM entry
    pub tlm: Vec<(Option<u32>, u32)>,
    pub has_tlm: bool,
    pub comments: Vec<(u16, Vec<u8>)>,
    pub parts: Vec<TilePart>,
    pub tiles: BTreeMap<u32, Overrides>,
    pub eoc: Option<usize>,
    pub mct_markers: Vec<(u16, Vec<u8>)>,
}

struct Cur<'a> {
    d: &'a [u8],
    p: usize,
}
impl Cur<'_> {
    fn u8(&mut self) -> R<u32> {
        let v = *self.d.get(self.p).ok_or("marker segment too short")?;
        self.p += 1;
        Ok(v as u32)
    }
    fn u16(&mut self) -> R<u32> {
        Ok(self.u8()? << 8 | self.u8()?)
    }
    fn u32(&mut self) -> R<u32> {
        Ok(self.u16()? << 16 | self.u16()?)
    }
    fn comp(&mut self, n: usize) -> R<u32> {
        if n < 257 {
            self.u8()
        } else {
            self.u16()
        }
    }
    fn done(&self) -> R<()> {
        need!(self.p == self.d.len(), "{} bytes left in a marker segment", self.d.len() - self.p);
        Ok(())
    }
    fn rest(&mut self) -> Vec<u8> {
        let v = self.d[self.p..].to_vec();
        self.p = self.d.len();
        v
    }
}

fn read_siz(b: &[u8]) -> R<Siz> {
    let mut c = Cur { d: b, p: 0 };
    let rsiz = c.u16()? as u16;
    let (x1, y1, x0, y0) = (c.u32()?, c.u32()?, c.u32()?, c.u32()?);
    let (tw, th, tx0, ty0) = (c.u32()?, c.u32()?, c.u32()?, c.u32()?);
    let n = c.u16()?;
    need!((1..=16384).contains(&n), "{n} components");
    let mut comps = vec![];
    for _ in 0..n {
        let (s, dx, dy) = (c.u8()?, c.u8()?, c.u8()?);
        need!((s & 0x7f) < 38 && dx > 0 && dy > 0, "component {s:#x} {dx} {dy}");
        comps.push(SizComp { prec: (s & 0x7f) + 1, sgnd: s & 0x80 != 0, dx, dy });
    }
    c.done()?;
    need!(x1 > x0 && y1 > y0 && tw > 0 && th > 0, "empty area");
    need!(tx0 <= x0 && ty0 <= y0, "tile origin beyond the image origin");
    need!(tx0 as u64 + tw as u64 > x0 as u64 && ty0 as u64 + th as u64 > y0 as u64, "first tile is empty");
    let s = Siz { rsiz, x1, y1, x0, y0, tw, th, tx0, ty0, comps };
    need!(s.ntx() as u64 * s.nty() as u64 <= 65535, "too many tiles");
    Ok(s)
}
fn read_spcod(c: &mut Cur, custom: bool) -> R<CodComp> {
    let levels = c.u8()?;
    need!(levels <= 32, "{levels} levels");
    let (xcb, ycb) = (c.u8()?, c.u8()?);
    need!(xcb <= 8 && ycb <= 8 && xcb + ycb <= 8, "code-block size {xcb} {ycb}");
    let style = c.u8()?;
    need!(style < 64, "code-block style {style:#x}");
    let tr = c.u8()?;
    need!(tr <= 1, "transformation {tr}");
    let mut prec = vec![(15, 15); levels as usize + 1];
    if custom {
        for (i, p) in prec.iter_mut().enumerate() {
            let v = c.u8()?;
            *p = (v & 15, v >> 4);
            need!(i == 0 || p.0 > 0 && p.1 > 0, "precinct size 2^0 above the lowest resolution");
        }
    }
    Ok(CodComp { levels, xcb: xcb + 2, ycb: ycb + 2, style: style as u8, reversible: tr == 1, prec, custom })
}
fn read_cod(b: &[u8]) -> R<Cod> {
    let mut c = Cur { d: b, p: 0 };
    let s = c.u8()?;
    need!(s < 8, "Scod {s:#x}");
    let prog = c.u8()?;
    need!(prog <= 4, "progression {prog}");
    let layers = c.u16()?;
    need!(layers > 0, "no layers");
    let mct = c.u8()?;
    let comp = read_spcod(&mut c, s & 1 != 0)?;
    c.done()?;
    Ok(Cod { sop: s & 2 != 0, eph: s & 4 != 0, prog: prog as u8, layers, mct: mct as u8, comp })
}
fn read_quant(c: &mut Cur) -> R<Qnt> {
    let s = c.u8()?;
    let mut steps = vec![];
    while c.p < c.d.len() {
        match s & 31 {
            0 => {
                let v = c.u8()?;
                need!(v & 7 == 0, "reserved bits of SPqcd");
                steps.push((v >> 3, 0))
            }
            1 | 2 => {
                let v = c.u16()?;
                steps.push((v >> 11, v & 0x7ff))
            }
            k => bail!("quantisation style {k}"),
        }
    }
    need!(!steps.is_empty() && (s & 31 != 1 || steps.len() == 1), "{} quantisation steps", steps.len());
    Ok(Qnt { style: (s & 31) as u8, guard: s >> 5, steps })
}
fn read_poc(b: &[u8], n: usize) -> R<Vec<Poc>> {
    let mut c = Cur { d: b, p: 0 };
    let mut v = vec![];
    while c.p < b.len() {
        let rs = c.u8()?;
        let cs = c.comp(n)?;
        let le = c.u16()?;
        let re = c.u8()?;
        let mut ce = c.comp(n)?;
        if ce == 0 {
            ce = if n < 257 { 256 } else { 16384 };
        }
        let prog = c.u8()?;
        need!(rs < re && re <= 33 && cs < ce && le > 0 && prog <= 4, "progression change {rs} {cs} {le} {re} {ce} {prog}");
        v.push(Poc { rs, cs, le, re, ce, prog: prog as u8 });
    }
    need!(!v.is_empty(), "empty POC");
    Ok(v)
}
impl Overrides {
    fn take(&mut self, code: u16, b: &[u8], n: usize) -> R<bool> {
        let mut c = Cur { d: b, p: 0 };
        match code {
            0xFF52 => {
                need!(self.cod.is_none(), "two COD");
                self.cod = Some(read_cod(b)?)
            }
            0xFF53 => {
                let k = c.comp(n)? as usize;
                need!(k < n, "COC of component {k}");
                let s = c.u8()?;
                need!(s < 2, "Scoc {s}");
                let v = read_spcod(&mut c, s == 1)?;
                c.done()?;
                need!(self.coc.insert(k, v).is_none(), "two COC for component {k}");
            }
            0xFF5C => {
                need!(self.qcd.is_none(), "two QCD");
                self.qcd = Some(read_quant(&mut c)?)
            }
            0xFF5D => {
                let k = c.comp(n)? as usize;
                need!(k < n, "QCC of component {k}");
                let v = read_quant(&mut c)?;
                need!(self.qcc.insert(k, v).is_none(), "two QCC for component {k}");
            }
            0xFF5E => {
                let k = c.comp(n)? as usize;
                need!(k < n, "RGN of component {k}");
                need!(c.u8()? == 0, "Srgn");
                let s = c.u8()?;
                c.done()?;
                need!(self.rgn.insert(k, s).is_none(), "two RGN for component {k}");
            }
            0xFF5F => self.poc.extend(read_poc(b, n)?),
            _ => return Ok(false),
        }
        Ok(true)
    }
}

impl Codestream {
    /// `strict`: what the standard says must be there must be there; otherwise the codestream may be cut off.
    pub fn parse(d: &[u8], strict: bool) -> R<Codestream> {
        let m16 = |p: usize| -> R<u16> {
            need!(p + 2 <= d.len(), "codestream ends at {p}");
            Ok((d[p] as u16) << 8 | d[p + 1] as u16)
        };
        need!(m16(0)? == 0xFF4F, "no SOC");
        need!(m16(2)? == 0xFF51, "SIZ does not follow SOC");
        let mut markers = vec![Marker { code: 0xFF4F, pos: 0, len: 0 }];
        let mut p = 2;
        let mut siz: Option<Siz> = None;
        let mut main = Overrides::default();
        let (mut ppm, mut plm, mut tlm, mut comments, mut mctm) = (vec![], vec![], vec![], vec![], vec![]);
        let mut has_tlm = false;
        loop {
            let code = m16(p)?;
            if code == 0xFF90 {
                break;
            }
            need!(code >= 0xFF30, "no marker at {p}: {code:#06x}");
            if (0xFF30..=0xFF3F).contains(&code) {
                markers.push(Marker { code, pos: p, len: 0 });
                p += 2;
                continue;
            }
            let len = m16(p + 2)? as usize;
            need!(len >= 2 && p + 2 + len <= d.len(), "marker {code:#06x} at {p} has length {len}");
            let b = &d[p + 4..p + 2 + len];
            markers.push(Marker { code, pos: p, len });
            let n = siz.as_ref().map(|s| s.comps.len()).unwrap_or(0);
            let mut c = Cur { d: b, p: 0 };
            match code {
                0xFF51 => {
                    need!(siz.is_none(), "two SIZ");
                    siz = Some(read_siz(b)?)
                }
                0xFF60 => ppm.push((c.u8()? as u8, c.rest())),
                0xFF57 => plm.push((c.u8()? as u8, c.rest())),
                0xFF55 => {
                    has_tlm = true;
                    let _z = c.u8()?;
                    let s = c.u8()?;
                    let (st, sp) = (s >> 4 & 3, s >> 6 & 1);
                    need!(s & 0x8f == 0 && st < 3, "Stlm {s:#x}");
                    while c.p < b.len() {
                        let t = match st {
                            0 => None,
                            1 => Some(c.u8()?),
                            _ => Some(c.u16()?),
                        };
                        let l = if sp == 1 { c.u32()? } else { c.u16()? };
                        tlm.push((t, l));
                    }
                }
                0xFF63 => {} // CRG
                0xFF64 => {
                    let r = c.u16()? as u16;
                    comments.push((r, c.rest()));
                }
                0xFF74 | 0xFF75 | 0xFF77 | 0xFF78 => mctm.push((code, b.to_vec())),
                0xFF58 | 0xFF61 | 0xFF93 | 0xFFD9 | 0xFF91 | 0xFF92 | 0xFF4F => bail!("marker {code:#06x} in the main header"),
                _ => {
                    main.take(code, b, n)?;
                }
            }
            p += 2 + len;
        }
        let siz = siz.unwrap();
        need!(main.cod.is_some() && main.qcd.is_some(), "no COD or QCD in the main header");
        let mut s = Codestream { siz, main, markers, main_end: p, ppm, plm, tlm, has_tlm, comments, parts: vec![], tiles: Default::default(), eoc: None, mct_markers: mctm };
        let n = s.siz.comps.len();
        loop {
            if p >= d.len() && !strict {
                break;
            }
            let code = match m16(p) {
                Ok(c) => c,
                Err(_) if !strict => break,
                Err(e) => return Err(e),
            };
            if code == 0xFFD9 {
                s.eoc = Some(p);
                need!(!strict || p + 2 == d.len(), "{} bytes after EOC", d.len() - p - 2);
                break;
            }
            need!(code == 0xFF90, "{code:#06x} at {p} instead of SOT or EOC");
            let start = p;
            if !strict && p + 12 > d.len() {
                break;
            }
            need!(m16(p + 2)? == 10 && p + 12 <= d.len(), "Lsot");
            let tile = m16(p + 4)? as u32;
            let psot = (m16(p + 6)? as u32) << 16 | m16(p + 8)? as u32;
            let (index, count) = (d[p + 10] as u32, d[p + 11] as u32);
            need!(tile < s.siz.ntiles(), "tile {tile}");
            let prev = s.parts.iter().filter(|x| x.tile == tile).count() as u32;
            need!(index == prev, "tile-part {index} of tile {tile} after {prev} parts");
            need!(count == 0 || index < count, "tile-part {index} of {count}");
            if let Some(c) = s.parts.iter().filter(|x| x.tile == tile && x.count != 0).map(|x| x.count).next() {
                need!(count == 0 || c == count, "tile {tile} has {c} or {count} parts");
                need!(index < c, "tile-part {index} of {c}");
            }
            let mut markers = vec![Marker { code, pos: p, len: 10 }];
            let ov = s.tiles.entry(tile).or_default();
            let (mut ppt, mut plt) = (vec![], vec![]);
            p += 12;
            loop {
                let code = match m16(p) {
                    Ok(c) => c,
                    Err(_) if !strict => return Ok(s),
                    Err(e) => return Err(e),
                };
                if code == 0xFF93 {
                    markers.push(Marker { code, pos: p, len: 0 });
                    p += 2;
                    break;
                }
                need!(code >= 0xFF30, "no marker at {p}");
                if (0xFF30..=0xFF3F).contains(&code) {
                    markers.push(Marker { code, pos: p, len: 0 });
                    p += 2;
                    continue;
                }
                if !strict && (p + 4 > d.len() || p + 2 + m16(p + 2)? as usize > d.len()) {
                    return Ok(s);
                }
                let len = m16(p + 2)? as usize;
                need!(len >= 2 && p + 2 + len <= d.len(), "marker {code:#06x} at {p} has length {len}");
                let b = &d[p + 4..p + 2 + len];
                markers.push(Marker { code, pos: p, len });
                let mut c = Cur { d: b, p: 0 };
                match code {
                    0xFF61 => ppt.push((c.u8()? as u8, c.rest())),
                    0xFF58 => plt.push((c.u8()? as u8, c.rest())),
                    0xFF51 | 0xFF60 | 0xFF55 | 0xFF57 | 0xFF63 | 0xFF90 | 0xFFD9 | 0xFF4F => bail!("marker {code:#06x} in a tile-part header"),
                    0xFF52 | 0xFF53 | 0xFF5C | 0xFF5D | 0xFF5E if index > 0 => bail!("marker {code:#06x} in a later tile-part header"),
                    _ => {
                        ov.take(code, b, n)?;
                    }
                }
                p += 2 + len;
            }
            let end = if psot == 0 {
                // up to the EOC, the last tile-part only
                let e = d.len() - if d.ends_with(&[0xFF, 0xD9]) { 2 } else { 0 };
                need!(!strict || e + 2 == d.len(), "no EOC after a tile-part of unknown length");
                e
            } else {
                need!(psot as usize >= p - start, "Psot {psot} too small");
                start + psot as usize
            };
            need!(!strict || end <= d.len(), "tile-part runs past the end");
            s.parts.push(TilePart { tile, index, count, psot, start, body: p, end: end.min(d.len()), markers, ppt, plt });
            p = end;
            if p > d.len() {
                break;
            }
        }
        if strict {
            for t in 0..s.siz.ntiles() {
                let k = s.parts.iter().filter(|x| x.tile == t).count() as u32;
                need!(k > 0, "tile {t} has no tile-part");
                if let Some(c) = s.parts.iter().filter(|x| x.tile == t && x.count != 0).map(|x| x.count).next() {
                    need!(k == c, "tile {t} has {k} parts of {c}");
                }
            }
        }
        Ok(s)
    }
    pub fn params(&self, t: u32) -> R<TileParams> {
        let none = Overrides::default();
        let o = self.tiles.get(&t).unwrap_or(&none);
        let cod = o.cod.as_ref().or(self.main.cod.as_ref()).unwrap();
        let n = self.siz.comps.len();
        let mut comps = vec![];
        for c in 0..n {
            let k = o.coc.get(&c).or(o.cod.as_ref().map(|x| &x.comp)).or(self.main.coc.get(&c)).unwrap_or(&self.main.cod.as_ref().unwrap().comp).clone();
            let q = o.qcc.get(&c).or(o.qcd.as_ref()).or(self.main.qcc.get(&c)).or(self.main.qcd.as_ref()).unwrap().clone();
            let roi = o.rgn.get(&c).or(self.main.rgn.get(&c)).copied().unwrap_or(0);
            comps.push(TileComp { cod: k, q, roi });
        }
        let pocs = if o.poc.is_empty() { self.main.poc.clone() } else { o.poc.clone() };
        Ok(TileParams { sop: cod.sop, eph: cod.eph, prog: cod.prog, layers: cod.layers, mct: cod.mct, comps, pocs })
    }
    /// Packed packet headers of the tile-parts, in codestream order.
    fn ppm_headers(&self) -> R<Option<Vec<Vec<u8>>>> {
        if self.ppm.is_empty() {
            return Ok(None);
        }
        let mut l = self.ppm.clone();
        l.sort_by_key(|x| x.0);
        for (i, x) in l.iter().enumerate() {
            need!(x.0 as usize == i, "Zppm {} at {i}", x.0);
        }
        let all: Vec<u8> = l.into_iter().flat_map(|x| x.1).collect();
        let mut c = Cur { d: &all, p: 0 };
        let mut v = vec![];
        while c.p < all.len() {
            let n = c.u32()? as usize;
            need!(c.p + n <= all.len(), "Nppm {n}");
            v.push(all[c.p..c.p + n].to_vec());
            c.p += n;
        }
        Ok(Some(v))
    }
    /// Reads all packets of all tiles. With `lenient`, stops a tile at the first packet that is not whole.
    pub fn packets(&self, d: &[u8], lenient: bool, max_layers: u32) -> R<Vec<TilePackets>> {
        self.packets_until(d, lenient, max_layers, usize::MAX)
    }
    /// What is wholly contained in the first `until` bytes.
    pub fn packets_until(&self, d: &[u8], lenient: bool, max_layers: u32, until: usize) -> R<Vec<TilePackets>> {
        let ppm = self.ppm_headers()?;
        let mut out = vec![];
        for t in 0..self.siz.ntiles() {
            let p = self.params(t)?;
            let mut tile = geometry(&self.siz, &p, t);
            let order = packet_order(&tile, &p)?;
            need!(lenient || order.len() == packet_count(&tile, &p), "tile {t}: progression covers {} of {} packets", order.len(), packet_count(&tile, &p));
            let mut it = order.iter().peekable();
            let mut packets: Vec<Packet> = vec![];
            let mut broken = false;
            let mut partial = false;
            let mut complete = true;
            for (pi, part) in self.parts.iter().enumerate().filter(|x| x.1.tile == t) {
                if part.end > until {
                    complete = false;
                }
                if part.body > until {
                    break;
                }
                let end = part.end.min(until);
                let part = &TilePart { end, ..part.clone() };
                let mut at = part.body;
                let packed: Option<Vec<u8>> = if let Some(v) = &ppm {
                    Some(v.get(pi).cloned().ok_or("no packed headers for a tile-part")?)
                } else if !part.ppt.is_empty() {
                    let mut l = part.ppt.clone();
                    l.sort_by_key(|x| x.0);
                    for (i, x) in l.iter().enumerate() {
                        need!(x.0 as usize == i, "Zppt {} at {i}", x.0);
                    }
                    Some(l.into_iter().flat_map(|x| x.1).collect())
                } else {
                    None
                };
                let mut hat = 0;
                let first = packets.len();
                while !broken && (at < part.end || packed.as_ref().is_some_and(|h| hat < h.len())) {
                    let Some(&&id) = it.peek() else { bail!("tile {t}: {} bytes after the last packet", part.end - at) };
                    let start = at;
                    let mut one = || -> R<()> {
                        let mut a = at;
                        if a + 2 <= d.len() && a < part.end && d[a] == 0xFF && d[a + 1] == 0x91 {
                            need!(p.sop, "SOP although COD does not allow it");
                            need!(a + 6 <= part.end && d[a + 2] == 0 && d[a + 3] == 4, "Lsop");
                            let n = (d[a + 4] as usize) << 8 | d[a + 5] as usize;
                            need!(n == packets.len() & 0xffff, "Nsop {n} at packet {}", packets.len());
                            a += 6;
                        }
                        let (n, pieces) = match &packed {
                            Some(h) => read_packet_header(&h[hat..], &mut tile, &p, id)?,
                            None => read_packet_header(&d[a..part.end], &mut tile, &p, id)?,
                        };
                        let head;
                        {
                            let (src, pos): (&[u8], &mut usize) = match &packed {
                                Some(h) => (h, &mut hat),
                                None => (&d[..part.end], &mut a),
                            };
                            head = src[*pos..*pos + n].to_vec();
                            *pos += n;
                            if src[*pos..].starts_with(&[0xFF, 0x92]) {
                                need!(p.eph, "EPH although COD does not allow it");
                                *pos += 2;
                            } else {
                                need!(!p.eph, "no EPH after a packet header");
                            }
                        }
                        let m = pieces_len(&pieces);
                        need!(a + m <= part.end, "packet body runs past its tile-part");
                        if id.3 >= max_layers {
                            for (bi, ci, _) in &pieces {
                                let cb = &mut tile.comps[id.0].res[id.1].precs[id.2].bands[*bi].cblks[*ci];
                                if cb.kept.is_none() {
                                    cb.kept = Some((cb.npasses, cb.segs.clone()));
                                }
                            }
                        }
                        add_body(&d[a..a + m], &mut tile, &p, id, &pieces);
                        let body = d[a..a + m].to_vec();
                        at = a + m;
                        packets.push(Packet { id, head, body, tile_part: pi, size: at - start, end: at });
                        Ok(())
                    };
                    match one() {
                        Ok(()) => {
                            it.next();
                        }
                        Err(_) if lenient => {
                            broken = true;
                            partial = true;
                        }
                        Err(e) => bail!("tile {t}, packet {} {id:?}: {e}", packets.len()),
                    }
                }
                // PLT
                if !part.plt.is_empty() && !lenient {
                    let mut l = part.plt.clone();
                    l.sort_by_key(|x| x.0);
                    let mut lens = vec![];
                    for (i, x) in l.iter().enumerate() {
                        need!(x.0 as usize == i, "Zplt {} at {i}", x.0);
                        let mut v = 0usize;
                        for (j, b) in x.1.iter().enumerate() {
                            v = v << 7 | (b & 0x7f) as usize;
                            if b & 0x80 == 0 {
                                lens.push(v);
                                v = 0;
                            } else {
                                need!(j + 1 < x.1.len(), "a packet length is cut between PLT segments");
                            }
                        }
                    }
                    let real: Vec<usize> = packets[first..].iter().map(|x| x.size).collect();
                    need!(lens == real, "tile-part {pi}: PLT says {lens:?}, packets have {real:?}");
                }
            }
            for cb in tile.comps.iter_mut().flat_map(|c| &mut c.res).flat_map(|r| &mut r.precs).flat_map(|k| &mut k.bands).flat_map(|b| &mut b.cblks) {
                if let Some((n, segs)) = cb.kept.clone() {
                    (cb.npasses, cb.segs) = (n, segs);
                }
            }
            need!(lenient || it.peek().is_none(), "tile {t}: {} of {} packets", packets.len(), order.len());
            let packed = ppm.is_some() || self.parts.iter().any(|x| x.tile == t && !x.ppt.is_empty());
            let rest = it.copied().collect();
            out.push(TilePackets { tile: t, params: p, state: tile, packets, rest, partial, complete, packed });
        }
        if self.has_tlm && !lenient {
            need!(self.tlm.len() == self.parts.len(), "{} TLM entries for {} tile-parts", self.tlm.len(), self.parts.len());
            for (i, ((t, l), part)) in self.tlm.iter().zip(&self.parts).enumerate() {
                need!(t.unwrap_or(i as u32) == part.tile && *l as usize == part.end - part.start, "TLM entry {i} is {t:?} {l}, the tile-part is of tile {} and has {} bytes", part.tile, part.end - part.start);
            }
        }
        Ok(out)
    }
}
pub struct TilePackets {
    pub tile: u32,
    pub params: TileParams,
    pub state: Tile,
    pub packets: Vec<Packet>,
    /// packets that are not there
    pub rest: Vec<PacketId>,
    /// the first of them is there in part
    pub partial: bool,
    /// no tile-part is cut or missing
    pub complete: bool,
    /// packet headers are stored apart
    pub packed: bool,
}

#[derive(Clone, Debug)]
pub struct RefImage {
    pub siz: Siz,
    pub comps: Vec<OutComp>,
}
/// Decodes a whole codestream.
pub fn decode(d: &[u8], reduce: u32, layers: u32, use_mct: bool) -> R<(Codestream, RefImage)> {
    let s = Codestream::parse(d, true)?;
    let tp = s.packets(d, false, if layers == 0 { u32::MAX } else { layers })?;
    let tiles: Vec<_> = tp.into_iter().map(|t| (t.tile, t.state, t.params)).collect();
    let comps = assemble(&s.siz, &tiles, reduce, use_mct)?;
    let siz = s.siz.clone();
    Ok((s, RefImage { siz, comps }))
}
/// Clamped integer samples of a component; `None` where a real value is too near a rounding boundary to call.
pub fn samples(siz: &Siz, c: usize, o: &OutComp) -> Vec<i64> {
    let (lo, hi) = if siz.comps[c].sgnd { (-(1i64 << (siz.comps[c].prec - 1)), (1i64 << (siz.comps[c].prec - 1)) - 1) } else { (0, (1i64 << siz.comps[c].prec) - 1) };
    o.v.iter().map(|v| (v.round() as i64).clamp(lo, hi)).collect()
}
