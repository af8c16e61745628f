//! A JPEG 2000 encoder written from ISO/IEC 15444-1 that produces whatever legal layout it is asked for.

use crate::refj2k::*;

// ---------------------------------------------------------------- arithmetic encoder (Annex C)

pub struct MqOut {
    /// starts with the byte before the first one
    b: Vec<u8>,
    c: u32,
    a: u32,
    ct: u32,
}
impl MqOut {
    pub fn new() -> MqOut {
        MqOut { b: vec![0], c: 0, a: 0x8000, ct: 12 }
    }
    fn put(&mut self, shift: u32, ct: u32) {
        self.b.push((self.c >> shift) as u8);
        self.c &= (1 << shift) - 1;
        self.ct = ct;
    }
    fn byteout(&mut self) {
        let n = self.b.len() - 1;
        if self.b[n] == 0xFF {
            self.put(20, 7);
        } else if self.c < 0x800_0000 {
            self.put(19, 8);
        } else {
            self.b[n] += 1;
            if self.b[n] == 0xFF {
                self.c &= 0x7FF_FFFF;
                self.put(20, 7);
            } else {
                // the carry has been taken
                self.c &= 0x7FF_FFFF;
                self.put(19, 8);
            }
        }
    }
    pub fn encode(&mut self, cx: &mut (u8, bool), d: bool) {
        let (qe, nm, nl, sw) = QE[cx.0 as usize];
        self.a -= qe;
        if d == cx.1 {
            if self.a & 0x8000 != 0 {
                self.c += qe;
                return;
            }
            if self.a < qe {
                self.a = qe;
            } else {
                self.c += qe;
            }
            cx.0 = nm;
        } else {
            if self.a < qe {
                self.c += qe;
            } else {
                self.a = qe;
            }
            if sw {
                cx.1 = !cx.1;
            }
            cx.0 = nl;
        }
        loop {
            self.a <<= 1;
            self.c <<= 1;
            self.ct -= 1;
            if self.ct == 0 {
                self.byteout();
            }
            if self.a & 0x8000 != 0 {
                break;
            }
        }
    }
    /// Bytes that surely suffice for what has been coded so far.
    fn enough(&self) -> usize {
        self.b.len() - 1 + 5
    }
    fn finish(mut self, predictable: bool) -> Vec<u8> {
        if predictable {
            // D.4.2
            let mut k = 12 - self.ct as i32;
            while k > 0 {
                self.c <<= self.ct;
                self.ct = 0;
                self.byteout();
                k -= self.ct as i32;
            }
            if *self.b.last().unwrap() != 0xFF {
                self.byteout();
            }
            self.b.pop();
        } else {
            let t = self.c + self.a;
            self.c |= 0xFFFF;
            if self.c >= t {
                self.c -= 0x8000;
            }
            self.c <<= self.ct;
            self.byteout();
            self.c <<= self.ct;
            self.byteout();
        }
        if *self.b.last().unwrap() == 0xFF {
            self.b.pop();
        }
        if self.b.is_empty() {
            return vec![];
        }
        self.b.remove(0);
        self.b
    }
}
struct RawOut {
    b: Vec<u8>,
    buf: u32,
    left: u32,
}
impl RawOut {
    fn new() -> RawOut {
        RawOut { b: vec![], buf: 0, left: 8 }
    }
    fn bit(&mut self, v: bool) {
        self.left -= 1;
        self.buf |= (v as u32) << self.left;
        if self.left == 0 {
            self.b.push(self.buf as u8);
            self.left = if self.buf == 0xFF { 7 } else { 8 };
            self.buf = 0;
        }
    }
    fn enough(&self) -> usize {
        self.b.len() + 1
    }
    fn finish(mut self) -> Vec<u8> {
        let full = if self.b.last() == Some(&0xFF) { 7 } else { 8 };
        if self.left < full {
            // alternating bits, the first of them 0 (D.4.2)
            let mut v = false;
            let n = self.b.len();
            while self.b.len() == n {
                self.bit(v);
                v = !v;
            }
        }
        while self.b.last() == Some(&0xFF) {
            self.b.pop();
        }
        self.b
    }
}

// ---------------------------------------------------------------- code-blocks (Annex D)

/// The codeword segments of a block and, for each pass, how many bytes of its segment it needs at least.
pub struct Coded {
    pub planes: u32,
    pub segs: Vec<Vec<u8>>,
    /// per pass: (segment, bytes of the segment that suffice up to and including this pass)
    pub passes: Vec<(usize, usize)>,
}
/// `v`: sign and magnitude.
pub fn encode_block(v: &[(bool, u64)], w: usize, h: usize, orient: u8, style: u8) -> Coded {
    let planes = 64 - v.iter().map(|x| x.1).max().unwrap_or(0).leading_zeros();
    let mut out = Coded { planes, segs: vec![], passes: vec![] };
    if planes == 0 {
        return out;
    }
    let total = 3 * planes - 2;
    let mut b = Block::new(w, h, orient, style);
    let mut cx = initial_contexts();
    let mut pass = 0;
    while pass < total {
        let n = seg_max(style, pass).min(total - pass);
        let raw = style & BYPASS != 0 && pass >= 10 && pass % 3 != 0;
        let mut mq = MqOut::new();
        let mut rw = RawOut::new();
        let mut need = vec![];
        for _ in 0..n {
            let plane = planes - 1 - (pass + 2) / 3;
            let kind = (pass + 2) % 3;
            let bit = |i: usize| v[i].1 >> plane & 1 == 1;
            let mut sign = |b: &mut Block, x: usize, y: usize, mq: &mut MqOut, rw: &mut RawOut, cx: &mut [(u8, bool); 19]| {
                let i = y * w + x;
                if raw {
                    rw.bit(v[i].0);
                } else {
                    let (c, f) = b.sc(x, y);
                    mq.encode(&mut cx[c], v[i].0 ^ f);
                }
                b.sig[i] = true;
                b.neg[i] = v[i].0;
            };
            for y0 in (0..h).step_by(4) {
                for x in 0..w {
                    let mut y = y0;
                    if kind == 2 && b.run(x, y0) {
                        let Some(k) = (0..4).find(|k| bit((y0 + k) * w + x)) else {
                            mq.encode(&mut cx[CTX_RL], false);
                            continue;
                        };
                        mq.encode(&mut cx[CTX_RL], true);
                        mq.encode(&mut cx[CTX_UNI], k & 2 != 0);
                        mq.encode(&mut cx[CTX_UNI], k & 1 != 0);
                        y = y0 + k;
                        sign(&mut b, x, y, &mut mq, &mut rw, &mut cx);
                        y += 1;
                    }
                    while y < (y0 + 4).min(h) {
                        let i = y * w + x;
                        match kind {
                            0 if !b.sig[i] => {
                                let c = b.zc(x, y);
                                if c != 0 {
                                    b.visited[i] = true;
                                    if raw {
                                        rw.bit(bit(i))
                                    } else {
                                        mq.encode(&mut cx[c], bit(i))
                                    }
                                    if bit(i) {
                                        sign(&mut b, x, y, &mut mq, &mut rw, &mut cx);
                                    }
                                }
                            }
                            1 if b.sig[i] && !b.visited[i] => {
                                let c = b.mr(x, y);
                                if raw {
                                    rw.bit(bit(i))
                                } else {
                                    mq.encode(&mut cx[c], bit(i))
                                }
                                b.refined[i] = true;
                            }
                            2 if !b.sig[i] && !b.visited[i] => {
                                let c = b.zc(x, y);
                                mq.encode(&mut cx[c], bit(i));
                                if bit(i) {
                                    sign(&mut b, x, y, &mut mq, &mut rw, &mut cx);
                                }
                            }
                            _ => {}
                        }
                        y += 1;
                    }
                }
            }
            if kind == 2 {
                b.visited.iter_mut().for_each(|v| *v = false);
                if style & SEGSYM != 0 {
                    for k in [true, false, true, false] {
                        mq.encode(&mut cx[CTX_UNI], k);
                    }
                }
            }
            if style & RESET != 0 {
                cx = initial_contexts();
            }
            need.push(if raw { rw.enough() } else { mq.enough() });
            pass += 1;
        }
        let d = if raw { rw.finish() } else { mq.finish(style & PREDTERM != 0) };
        let s = out.segs.len();
        let last = need.len() - 1;
        for (i, k) in need.into_iter().enumerate() {
            let mut k = if i == last { d.len() } else { k.min(d.len()) };
            if i != last {
                // no piece may end with 0xFF
                while k < d.len() && k > 0 && d[k - 1] == 0xFF {
                    k += 1;
                }
            }
            out.passes.push((s, k));
        }
        out.segs.push(d);
    }
    out
}

// ---------------------------------------------------------------- packets (B.9, B.10)

struct BitOut {
    d: Vec<u8>,
    buf: u32,
    left: u32,
}
impl BitOut {
    fn new() -> BitOut {
        BitOut { d: vec![], buf: 0, left: 8 }
    }
    fn bit(&mut self, v: bool) {
        self.left -= 1;
        self.buf |= (v as u32) << self.left;
        if self.left == 0 {
            self.d.push(self.buf as u8);
            self.left = if self.buf == 0xFF { 7 } else { 8 };
            self.buf = 0;
        }
    }
    fn bits(&mut self, v: u32, n: u32) {
        for i in (0..n).rev() {
            self.bit(v >> i & 1 == 1);
        }
    }
    fn finish(mut self) -> Vec<u8> {
        if self.left < 8 && !(self.left == 7 && self.d.last() == Some(&0xFF)) {
            self.d.push(self.buf as u8);
            if self.buf == 0xFF {
                self.d.push(0);
            }
        } else if self.d.last() == Some(&0xFF) {
            self.d.push(0);
        }
        self.d
    }
}
impl TagTree {
    /// A tree for encoding: the leaves' values, every other node the least of its children.
    fn with(w: usize, h: usize, v: &[u32]) -> TagTree {
        let mut t = TagTree::new(w, h);
        for y in 0..h {
            for x in 0..w {
                for n in t.path(x, y) {
                    t.value[n] = t.value[n].min(v[y * w + x]);
                }
            }
        }
        t
    }
    fn encode(&mut self, x: usize, y: usize, thr: u32, b: &mut BitOut) {
        let mut low = 0;
        for n in self.path(x, y) {
            low = low.max(self.low[n]);
            while low < thr {
                if low >= self.value[n] {
                    if !self.known[n] {
                        b.bit(true);
                        self.known[n] = true;
                    }
                    break;
                }
                b.bit(false);
                low += 1;
            }
            self.low[n] = low;
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Choices {
    /// how coding passes are spread over layers
    pub alloc: u8,
    /// 1: length indicators grow more than needed; 2: empty packets are written out bit by bit
    pub waste: u8,
    /// which coefficients belong to the region of interest
    pub roi: u8,
    /// code-blocks as in Part 15 (where the style says so), or what they can express of the coefficients
    pub ht: Option<crate::ht::Mode>,
}
/// Passes of a block in layers 0..=layer.
fn upto(ch: &Choices, id: (usize, usize, usize, usize, usize), layer: u32, layers: u32, total: u32) -> u32 {
    let k = mck::mix64((id.0 as u64) << 40 ^ (id.1 as u64) << 32 ^ (id.2 as u64) << 20 ^ (id.3 as u64) << 16 ^ id.4 as u64 ^ 0x77);
    let last = layer + 1 == layers;
    match ch.alloc {
        0 => total,
        1 => (total * (layer + 1)) / layers,
        // blocks begin and end at different layers
        2 => {
            if last {
                total
            } else if k % 3 > layer as u64 {
                0
            } else {
                (total * (layer + 1 + (k >> 8) as u32 % 3) / layers).min(total)
            }
        }
        3 => if last { total } else { 0 },
        // never complete, some never there
        4 => if k % 4 == 0 { 0 } else { (total * (layer + 1)) / (layers + 1) },
        // one pass at a time, the rest at the end
        5 => if last { total } else { (layer + 1).min(total) },
        _ => unreachable!(),
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct RawPacket {
    pub id: PacketId,
    pub head: Vec<u8>,
    pub body: Vec<u8>,
}

fn in_roi(kind: u8, x: i64, y: i64) -> bool {
    match kind {
        0 => (x + y) % 2 == 0,
        1 => true,
        2 => false,
        _ => x % 4 == 1 && y % 3 == 0,
    }
}

/// All samples of one component, in component coordinates.
pub type Source = Vec<Vec<i64>>;

/// The quantised coefficients of every band: per component, resolution, band.
fn coefficients(siz: &Siz, p: &TileParams, t: &Tile, img: &Source) -> Vec<Vec<Vec<Vec<(bool, u64)>>>> {
    let n = siz.comps.len();
    let mut planes: Vec<Plane> = (0..n)
        .map(|c| {
            let (r, a) = (t.comps[c].r, siz.on_comp(siz.area(), c));
            let shift = if siz.comps[c].sgnd { 0 } else { 1i64 << (siz.comps[c].prec - 1) };
            let mut v = vec![];
            for y in r.y0..r.y1 {
                for x in r.x0..r.x1 {
                    v.push(img[c][(y - a.y0) as usize * a.w() + (x - a.x0) as usize] - shift);
                }
            }
            if p.comps[c].cod.reversible {
                Plane::Int(v)
            } else {
                Plane::Real(v.into_iter().map(|x| x as f64).collect())
            }
        })
        .collect();
    if p.mct == 1 {
        let (a, rest) = planes.split_at_mut(1);
        let (b, c) = rest.split_at_mut(1);
        match (&mut a[0], &mut b[0], &mut c[0]) {
            (Plane::Int(r), Plane::Int(g), Plane::Int(b)) => {
                for i in 0..r.len() {
                    let (x, y, z) = (r[i], g[i], b[i]);
                    (r[i], g[i], b[i]) = ((x + 2 * y + z) >> 2, z - y, x - y);
                }
            }
            (Plane::Real(r), Plane::Real(g), Plane::Real(b)) => {
                for i in 0..r.len() {
                    let (x, y, z) = (r[i], g[i], b[i]);
                    r[i] = 0.299 * x + 0.587 * y + 0.114 * z;
                    g[i] = -0.16875 * x - 0.331260 * y + 0.5 * z;
                    b[i] = 0.5 * x - 0.41869 * y - 0.08131 * z;
                }
            }
            _ => unreachable!(),
        }
    }
    let mut out = vec![];
    for c in 0..n {
        let tc = &t.comps[c];
        let mut res: Vec<Vec<Vec<(bool, u64)>>> = vec![vec![]; tc.res.len()];
        let q = &p.comps[c];
        match &planes[c] {
            Plane::Int(v) => {
                let mut ll = v.clone();
                let conv = |v: &[i64]| v.iter().map(|x| (*x < 0, x.unsigned_abs())).collect::<Vec<_>>();
                for r in (1..tc.res.len()).rev() {
                    let b = &tc.res[r].bands;
                    let (l, h) = analyze(tc.res[r].r, &ll, tc.res[r - 1].r, [b[0].r, b[1].r, b[2].r]);
                    res[r] = h.iter().map(|x| conv(x)).collect();
                    ll = l;
                }
                res[0] = vec![conv(&ll)];
            }
            Plane::Real(v) => {
                let mut ll = v.clone();
                let conv = |v: &[f64], b: &Band| {
                    let (e, m) = q.q.step(b.q).unwrap();
                    let d = step_size(siz.comps[c].prec, b.orient, e, m);
                    v.iter().map(|x| (*x < 0.0, (x.abs() / d).floor() as u64)).collect::<Vec<_>>()
                };
                for r in (1..tc.res.len()).rev() {
                    let b = &tc.res[r].bands;
                    let (l, h) = analyze(tc.res[r].r, &ll, tc.res[r - 1].r, [b[0].r, b[1].r, b[2].r]);
                    res[r] = h.iter().zip(b).map(|(x, b)| conv(x, b)).collect();
                    ll = l;
                }
                res[0] = vec![conv(&ll, &tc.res[0].bands[0])];
            }
        }
        out.push(res);
    }
    out
}

/// Encodes tile `t` into packets in progression order. Err: the parameters cannot carry the image.
pub fn encode_tile(siz: &Siz, p: &TileParams, t: u32, img: &Source, ch: &Choices) -> R<Vec<RawPacket>> {
    let tile = geometry(siz, p, t);
    let co = coefficients(siz, p, &tile, img);
    struct B {
        k: Coded,
        zbp: u32,
        /// cumulative passes per layer
        upto: Vec<u32>,
        lblock: u32,
        done: u32,
        bytes: Vec<usize>,
    }
    struct P {
        bands: Vec<(usize, Vec<B>, TagTree, TagTree)>,
    }
    let mut precs: Vec<Vec<Vec<P>>> = vec![];
    for (c, tc) in tile.comps.iter().enumerate() {
        let q = &p.comps[c];
        let mut rs = vec![];
        for (r, res) in tc.res.iter().enumerate() {
            let mut ks = vec![];
            for (k, pr) in res.precs.iter().enumerate() {
                let mut bands = vec![];
                for (bi, pb) in pr.bands.iter().enumerate() {
                    let band = &res.bands[bi];
                    let (e, _) = q.q.step(band.q)?;
                    let planes = q.q.guard + e - 1 + q.roi;
                    let mut blocks = vec![];
                    for (ci, cb) in pb.cblks.iter().enumerate() {
                        let mut v = vec![];
                        for y in cb.r.y0..cb.r.y1 {
                            for x in cb.r.x0..cb.r.x1 {
                                let (s, mut m) = co[c][r][bi][(y - band.r.y0) as usize * band.r.w() + (x - band.r.x0) as usize];
                                if q.roi > 0 && in_roi(ch.roi, x, y) {
                                    m <<= q.roi;
                                } else if q.roi > 0 && m >> q.roi != 0 {
                                    return Err(format!("background of {m} with a shift of {}", q.roi));
                                }
                                v.push((s, m));
                            }
                        }
                        if let Some(m) = ch.ht {
                            crate::ht::project(&mut v, cb.r.w(), cb.r.h(), q.cod.style, m);
                        }
                        let kb = if q.cod.style & crate::ht::HT != 0 {
                            crate::ht::encode_block(&v, cb.r.w(), cb.r.h(), q.cod.style, ch.ht.unwrap())
                        } else {
                            encode_block(&v, cb.r.w(), cb.r.h(), band.orient, q.cod.style)
                        };
                        if kb.planes > planes {
                            return Err(format!("{} bit-planes of {planes}", kb.planes));
                        }
                        let total = kb.passes.len() as u32;
                        let up = (0..p.layers).map(|l| if total == 0 { 0 } else { upto(ch, (c, r, k, bi, ci), l, p.layers, total) }).collect();
                        blocks.push(B { zbp: planes - kb.planes, bytes: vec![0; kb.segs.len()], k: kb, upto: up, lblock: 3, done: 0 });
                    }
                    let first: Vec<u32> = blocks.iter().map(|b: &B| b.upto.iter().position(|n| *n > 0).map_or(p.layers, |l| l as u32)).collect();
                    let zbp: Vec<u32> = blocks.iter().map(|b| b.zbp).collect();
                    let (ti, tz) = (TagTree::with(pb.nw, pb.nh, &first), TagTree::with(pb.nw, pb.nh, &zbp));
                    bands.push((pb.nw, blocks, ti, tz));
                }
                ks.push(P { bands });
            }
            rs.push(ks);
        }
        precs.push(rs);
    }
    let order = packet_order(&tile, p)?;
    if order.len() != packet_count(&tile, p) {
        return Err("the progressions leave packets out".into());
    }
    let mut out = vec![];
    for id in order {
        let (c, r, k, l) = id;
        let pr = &mut precs[c][r][k];
        let mut b = BitOut::new();
        let mut body = vec![];
        let empty = pr.bands.iter().all(|x| x.1.iter().all(|b| b.upto[l as usize] <= b.done));
        if empty && ch.waste != 2 {
            b.bit(false);
        } else {
            b.bit(true);
            for (nw, blocks, ti, tz) in &mut pr.bands {
                for (ci, x) in blocks.iter_mut().enumerate() {
                    let n = x.upto[l as usize].saturating_sub(x.done);
                    let (u, v) = (ci % *nw, ci / *nw);
                    if x.done == 0 {
                        ti.encode(u, v, l + 1, &mut b);
                        if n == 0 {
                            continue;
                        }
                        for thr in 1..=x.zbp + 1 {
                            tz.encode(u, v, thr, &mut b);
                        }
                    } else {
                        b.bit(n > 0);
                        if n == 0 {
                            continue;
                        }
                    }
                    match n {
                        1 => b.bit(false),
                        2 => b.bits(2, 2),
                        3..=5 => {
                            b.bits(3, 2);
                            b.bits(n - 3, 2)
                        }
                        6..=36 => {
                            b.bits(15, 4);
                            b.bits(n - 6, 5)
                        }
                        _ => {
                            b.bits(511, 9);
                            b.bits(n - 37, 7)
                        }
                    }
                    // (passes, bytes) per segment touched
                    let mut list: Vec<(u32, usize)> = vec![];
                    let mut at = x.done;
                    while at < x.done + n {
                        let s = x.k.passes[at as usize].0;
                        let mut m = 0;
                        while at < x.done + n && x.k.passes[at as usize].0 == s {
                            at += 1;
                            m += 1;
                        }
                        let have = x.bytes[s];
                        let want = x.k.passes[at as usize - 1].1.max(have);
                        body.extend_from_slice(&x.k.segs[s][have..want]);
                        x.bytes[s] = want;
                        list.push((m, want - have));
                    }
                    x.done += n;
                    let need = list.iter().map(|&(m, n)| (64 - (n as u64).leading_zeros()).saturating_sub(floor_log2(m))).max().unwrap();
                    let mut lb = x.lblock.max(need);
                    if ch.waste == 1 {
                        lb += 2;
                    }
                    for _ in x.lblock..lb {
                        b.bit(true);
                    }
                    b.bit(false);
                    x.lblock = lb;
                    for (m, n) in list {
                        b.bits(n as u32, lb + floor_log2(m));
                    }
                }
            }
        }
        out.push(RawPacket { id, head: b.finish(), body });
    }
    Ok(out)
}

// ---------------------------------------------------------------- codestream syntax (Annex A)

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Lay {
    /// tile-parts per tile: 0 one; 1 two; 2 one per packet; 3 two, the first without packets; 4 three, the last without packets
    pub parts: u8,
    /// 0 tile by tile; 1 round robin; 2 last tile first; 3 round robin, last tile first
    pub order: u8,
    /// TNsot: 0 right everywhere; 1 zero everywhere; 2 in the first part only; 3 in the last part only
    pub tnsot: u8,
    /// the last Psot is 0
    pub psot0: bool,
    /// packet headers: 0 in place; 1 PPM; 2 PPM in pieces; 3 PPT; 4 PPT in pieces
    pub packed: u8,
    /// SOP: 0 as the flag says; 1 only before every other packet
    pub sop: u8,
    pub plt: bool,
    pub plm: bool,
    /// 0 none; 1 Ttlm 16 bit, Ptlm 32 bit; 2 Ttlm 8, Ptlm 16; 3 no Ttlm (one part per tile, in order), Ptlm 32; 4 as 1 in several segments
    pub tlm: u8,
    /// where parameters are given: 0 main header as far as possible; 1 tile headers, the main header misleads;
    /// 2 COC and QCC for every component, COD and QCD mislead; 3 both
    pub place: u8,
    /// 0 COD first; 1 component markers before the defaults; 2 QCD before COD
    pub order_main: u8,
    /// progression changes: 0 main header; 1 tile headers, 2 tile headers, main misleads; 3 spread over tile-parts
    pub poc: u8,
    /// 0 none; 1 COM; 2 CRG; 3 unknown segment; 4 all of them, also in tile-part headers; 5 markers without segment
    pub extras: u8,
}

fn be16(v: u32) -> [u8; 2] {
    (v as u16).to_be_bytes()
}
fn segment(code: u16, body: &[u8]) -> Vec<u8> {
    let mut v = code.to_be_bytes().to_vec();
    v.extend(be16(body.len() as u32 + 2));
    v.extend_from_slice(body);
    v
}
pub fn siz_segment(s: &Siz) -> Vec<u8> {
    let mut b = s.rsiz.to_be_bytes().to_vec();
    for v in [s.x1, s.y1, s.x0, s.y0, s.tw, s.th, s.tx0, s.ty0] {
        b.extend(v.to_be_bytes());
    }
    b.extend(be16(s.comps.len() as u32));
    for c in &s.comps {
        b.extend([(c.prec - 1) as u8 | (c.sgnd as u8) << 7, c.dx as u8, c.dy as u8]);
    }
    segment(0xFF51, &b)
}
fn spcod(c: &CodComp) -> Vec<u8> {
    let mut b = vec![c.levels as u8, (c.xcb - 2) as u8, (c.ycb - 2) as u8, c.style, c.reversible as u8];
    if c.custom {
        b.extend(c.prec.iter().map(|p| (p.0 | p.1 << 4) as u8));
    }
    b
}
fn cod_segment(p: &TileParams, c: &CodComp) -> Vec<u8> {
    let mut b = vec![c.custom as u8 | (p.sop as u8) << 1 | (p.eph as u8) << 2, p.prog];
    b.extend(be16(p.layers));
    b.push(p.mct);
    b.extend(spcod(c));
    segment(0xFF52, &b)
}
fn index(i: usize, n: usize) -> Vec<u8> {
    if n < 257 {
        vec![i as u8]
    } else {
        be16(i as u32).to_vec()
    }
}
fn coc_segment(i: usize, n: usize, c: &CodComp) -> Vec<u8> {
    let mut b = index(i, n);
    b.push(c.custom as u8);
    b.extend(spcod(c));
    segment(0xFF53, &b)
}
fn quant(q: &Qnt) -> Vec<u8> {
    let mut b = vec![q.style | (q.guard as u8) << 5];
    for &(e, m) in &q.steps {
        if q.style == 0 {
            b.push((e << 3) as u8);
        } else {
            b.extend(be16(e << 11 | m));
        }
    }
    b
}
fn qcd_segment(q: &Qnt) -> Vec<u8> {
    segment(0xFF5C, &quant(q))
}
fn qcc_segment(i: usize, n: usize, q: &Qnt) -> Vec<u8> {
    let mut b = index(i, n);
    b.extend(quant(q));
    segment(0xFF5D, &b)
}
fn rgn_segment(i: usize, n: usize, s: u32) -> Vec<u8> {
    let mut b = index(i, n);
    b.extend([0, s as u8]);
    segment(0xFF5E, &b)
}
fn poc_segment(v: &[Poc], n: usize) -> Vec<u8> {
    let mut b = vec![];
    for p in v {
        b.push(p.rs as u8);
        b.extend(index(p.cs as usize, n));
        b.extend(be16(p.le));
        b.push(p.re as u8);
        // 0 stands for 256
        b.extend(index(if p.prog == 4 && p.ce as usize == n { 0 } else { p.ce as usize }, n));
        b.push(p.prog);
    }
    segment(0xFF5F, &b)
}
/// COD/QCD that would decode to something else (or not at all).
fn mislead(c: &CodComp, q: &Qnt) -> (CodComp, Qnt) {
    let levels = if c.levels == 0 { 1 } else { c.levels - 1 };
    let c2 = CodComp { levels, xcb: 4, ycb: 3, style: c.style ^ 0x2A, reversible: !c.reversible, prec: vec![(15, 15); levels as usize + 1], custom: false };
    let q2 = if q.style == 0 { Qnt { style: 2, guard: q.guard % 7 + 1, steps: (0..3 * levels + 1).map(|i| (9 + i % 3, 77)).collect() } } else { Qnt { style: 0, guard: q.guard % 7 + 1, steps: (0..3 * levels + 1).map(|_| (11, 0)).collect() } };
    (c2, q2)
}
/// Coding parameters of a tile as marker segments; `base`: what already holds.
fn param_segments(p: &TileParams, lay: &Lay, tile: bool, base: Option<&TileParams>) -> Vec<Vec<u8>> {
    let n = p.comps.len();
    let mut v: Vec<(u8, Vec<u8>)> = vec![];
    let spread = lay.place & 2 != 0;
    let (c0, q0) = (&p.comps[0].cod, &p.comps[0].q);
    let same = base.is_some_and(|b| b.comps == p.comps && (b.sop, b.eph, b.prog, b.layers, b.mct) == (p.sop, p.eph, p.prog, p.layers, p.mct));
    if !same {
        let (mc, mq) = if spread { mislead(c0, q0) } else { (c0.clone(), q0.clone()) };
        // an override per component where it differs from the default of this header
        v.push((0, cod_segment(p, &mc)));
        v.push((1, qcd_segment(&mq)));
        for (i, k) in p.comps.iter().enumerate() {
            if spread || k.cod != *c0 {
                v.push((2, coc_segment(i, n, &k.cod)));
            }
            if spread || k.q != *q0 {
                v.push((3, qcc_segment(i, n, &k.q)));
            }
            if k.roi > 0 || base.is_some_and(|b| b.comps[i].roi != k.roi) {
                v.push((4, rgn_segment(i, n, k.roi)));
            }
        }
    }
    match lay.order_main {
        0 => {}
        1 => v.sort_by_key(|x| [3, 4, 1, 2, 0][x.0 as usize]),
        _ => v.sort_by_key(|x| [1, 0, 3, 2, 4][x.0 as usize]),
    }
    let _ = tile;
    v.into_iter().map(|x| x.1).collect()
}
fn extras(kind: u8, tile: bool, siz: &Siz) -> Vec<Vec<u8>> {
    let com = segment(0xFF64, &[&[0u8, 1][..], b"a comment"].concat());
    let crg = segment(0xFF63, &siz.comps.iter().flat_map(|_| [0x12u8, 0x34, 0xFF, 0x90]).collect::<Vec<_>>());
    // looks like markers inside
    let unk = segment(0xFF79, &[0xFF, 0x52, 0, 4, 0xFF, 0x90, 0xFF, 0x93, 1, 2]);
    match (kind, tile) {
        (1, false) => vec![com],
        (2, false) => vec![crg],
        (3, false) => vec![unk],
        (4, false) => vec![crg, com.clone(), unk, com],
        (4, true) => vec![com.clone(), unk, com],
        (5, false) => vec![vec![0xFF, 0x30], vec![0xFF, 0x3F]],
        _ => vec![],
    }
}

pub struct TileIn<'a> {
    pub params: &'a TileParams,
    pub packets: &'a [RawPacket],
}
/// Err: this layout cannot express that.
pub fn mux(siz: &Siz, tiles: &[TileIn], lay: &Lay) -> R<Vec<u8>> {
    let n = siz.comps.len();
    struct Part {
        tile: usize,
        index: usize,
        count: usize,
        head: Vec<u8>,
        packed: Vec<u8>,
        body: Vec<u8>,
        sizes: Vec<usize>,
        heads: Vec<usize>,
        npackets: usize,
        first: usize,
    }
    let mut parts: Vec<Vec<Part>> = vec![];
    for (t, ti) in tiles.iter().enumerate() {
        let np = ti.packets.len();
        let cuts: Vec<usize> = match lay.parts {
            0 => vec![np],
            1 => vec![np / 2, np],
            2 => (1..=np.clamp(1, 255)).map(|i| if i == 255 { np } else { i.min(np) }).collect(),
            3 => vec![0, np],
            4 => vec![np / 3, np, np],
            _ => unreachable!(),
        };
        let mut v = vec![];
        let mut at = 0;
        for (index, &end) in cuts.iter().enumerate() {
            let mut part = Part { tile: t, index, count: cuts.len(), head: vec![], packed: vec![], body: vec![], sizes: vec![], heads: vec![], npackets: end - at, first: at };
            for (k, pk) in ti.packets[at..end].iter().enumerate() {
                let k = at + k;
                let b0 = part.body.len();
                if ti.params.sop && (lay.sop == 0 || k % 2 == 0) {
                    part.body.extend([0xFF, 0x91, 0, 4]);
                    part.body.extend(be16(k as u32 & 0xFFFF));
                }
                let h = if lay.packed == 0 { &mut part.body } else { &mut part.packed };
                let h0 = h.len();
                h.extend_from_slice(&pk.head);
                if ti.params.eph {
                    h.extend([0xFF, 0x92]);
                }
                let h1 = h.len();
                part.heads.push(h1 - h0);
                part.body.extend_from_slice(&pk.body);
                part.sizes.push(part.body.len() - b0);
            }
            at = end;
            v.push(part);
        }
        parts.push(v);
    }
    // tile-part headers
    let tile_params = lay.place & 1 != 0;
    let main = tiles[0].params;
    for (t, ti) in tiles.iter().enumerate() {
        let pocs = &ti.params.pocs;
        for part in &mut parts[t] {
            let mut h = vec![];
            for x in extras(lay.extras, true, siz) {
                h.extend(x);
            }
            if part.index == 0 {
                let base = if tile_params { None } else { Some(main) };
                for s in param_segments(ti.params, lay, true, base) {
                    h.extend(s);
                }
            }
            if !pocs.is_empty() {
                match lay.poc {
                    0 if *pocs != main.pocs && part.index == 0 => h.extend(poc_segment(pocs, n)),
                    1 | 2 if part.index == 0 => h.extend(poc_segment(pocs, n)),
                    3 => {
                        // one change per tile-part, the rest in the last one
                        let last = part.index + 1 == part.count;
                        let a = part.index.min(pocs.len());
                        let b = if last { pocs.len() } else { (part.index + 1).min(pocs.len()) };
                        if a < b {
                            h.extend(poc_segment(&pocs[a..b], n));
                        }
                    }
                    _ => {}
                }
            }
            if lay.packed >= 3 && !part.packed.is_empty() {
                let size = if lay.packed == 4 { (part.packed.len().div_ceil(200)).max(5) } else { 60000 };
                for (z, c) in pieces(&part.packed, &part.heads, size).into_iter().enumerate() {
                    if z > 255 {
                        return Err("too many PPT".into());
                    }
                    h.extend(segment(0xFF61, &[&[z as u8][..], c].concat()));
                }
            }
            if lay.plt && !part.sizes.is_empty() {
                let mut z = 0;
                for chunk in part.sizes.chunks(20) {
                    let mut b = vec![z];
                    for &s in chunk {
                        b.extend(varint(s));
                    }
                    z += 1;
                    h.extend(segment(0xFF58, &b));
                }
            }
            part.head = h;
        }
    }
    // every tile needs its own progression changes stated before their packets
    if lay.poc == 3 {
        for (t, ti) in tiles.iter().enumerate() {
            if ti.params.pocs.len() > 1 && !poc_in_time(siz, ti, t as u32, &parts[t].iter().map(|p| (p.first, p.npackets)).collect::<Vec<_>>())? {
                return Err("a progression change would come too late".into());
            }
        }
    }
    // their order
    let mut list: Vec<Part> = vec![];
    match lay.order {
        0 => parts.into_iter().for_each(|p| list.extend(p)),
        2 => parts.into_iter().rev().for_each(|p| list.extend(p)),
        k => {
            if k == 3 {
                parts.reverse();
            }
            let mut its: Vec<_> = parts.into_iter().map(|p| p.into_iter()).collect();
            loop {
                let before = list.len();
                for it in &mut its {
                    list.extend(it.next());
                }
                if list.len() == before {
                    break;
                }
            }
        }
    }
    if lay.psot0 && list.len() == 0 {
        return Err("no tile-part".into());
    }
    // main header
    let mut d = vec![0xFF, 0x4F];
    d.extend(siz_segment(siz));
    if siz.rsiz & 0x4000 != 0 {
        // Part 15 is needed
        d.extend(segment(0xFF50, &[0, 2, 0, 0, 0, 0]));
    }
    let ex = extras(lay.extras, false, siz);
    if let Some(x) = ex.first() {
        d.extend(x);
    }
    let before_params = d.len();
    if tile_params {
        let (c, q) = mislead(&main.comps[0].cod, &main.comps[0].q);
        let mut wrong = main.clone();
        wrong.prog = (main.prog + 1) % 5;
        wrong.layers = main.layers + 1;
        wrong.comps.iter_mut().for_each(|k| {
            k.cod = c.clone();
            k.q = q.clone();
            k.roi = 0;
        });
        wrong.mct = 0;
        let mut l2 = lay.clone();
        l2.place = 0;
        for s in param_segments(&wrong, &l2, false, None) {
            d.extend(s);
        }
    } else {
        for s in param_segments(main, lay, false, None) {
            d.extend(s);
        }
    }
    let poc = match lay.poc {
        0 if !main.pocs.is_empty() => poc_segment(&main.pocs, n),
        2 if !main.pocs.is_empty() => poc_segment(&[Poc { rs: 0, cs: 0, le: 1, re: 33, ce: n as u32, prog: (main.prog + 2) % 5 }], n),
        _ => vec![],
    };
    let at = if lay.order_main == 1 { before_params } else { d.len() };
    d.splice(at..at, poc);
    if lay.tlm > 0 {
        if lay.tlm == 3 && (list.iter().enumerate().any(|(i, p)| p.tile != i) || list.len() != tiles.len()) {
            return Err("TLM without tile numbers".into());
        }
        if lay.psot0 {
            // the length is the true one all the same
        }
        let per = if lay.tlm == 4 { 2 } else { 10000 };
        for (z, ch) in list.chunks(per).enumerate() {
            let mut b = vec![z as u8, [0u8, 0x60, 0x10, 0x40, 0x60][lay.tlm as usize]];
            for p in ch {
                let len = 14 + p.head.len() + p.body.len();
                match lay.tlm {
                    2 => {
                        if len > 65535 || p.tile > 255 {
                            return Err("TLM too narrow".into());
                        }
                        b.push(p.tile as u8);
                        b.extend(be16(len as u32));
                    }
                    3 => b.extend((len as u32).to_be_bytes()),
                    _ => {
                        b.extend(be16(p.tile as u32));
                        b.extend((len as u32).to_be_bytes());
                    }
                }
            }
            if z > 255 {
                return Err("too many TLM".into());
            }
            d.extend(segment(0xFF55, &b));
        }
    }
    if lay.plm {
        let mut b = vec![0];
        for p in &list {
            let v: Vec<u8> = p.sizes.iter().flat_map(|s| varint(*s)).collect();
            if v.len() > 255 {
                return Err("PLM too long".into());
            }
            b.push(v.len() as u8);
            b.extend(v);
        }
        if b.len() > 60000 {
            return Err("PLM too long".into());
        }
        d.extend(segment(0xFF57, &b));
    }
    if lay.packed == 1 || lay.packed == 2 {
        let mut all = vec![];
        let mut cuts = vec![];
        for p in &list {
            let n = all.len();
            all.extend((p.packed.len() as u32).to_be_bytes());
            all.extend(&p.packed);
            cuts.extend(&p.heads);
            if let Some(k) = cuts.len().checked_sub(p.heads.len()).and_then(|k| cuts.get_mut(k)) {
                *k += 4;
            } else if let Some(k) = cuts.last_mut() {
                // a tile-part without packets
                *k += 4;
            } else {
                cuts.push(4);
            }
            debug_assert_eq!(cuts.iter().sum::<usize>(), all.len(), "{n}");
        }
        let size = if lay.packed == 2 { all.len().div_ceil(200).max(7) } else { 60000 };
        for (z, c) in pieces(&all, &cuts, size).into_iter().enumerate() {
            if z > 255 {
                return Err("too many PPM".into());
            }
            d.extend(segment(0xFF60, &[&[z as u8][..], c].concat()));
        }
    }
    for x in ex.iter().skip(1) {
        d.extend(x);
    }
    let m = list.len();
    for (i, p) in list.into_iter().enumerate() {
        let len = 14 + p.head.len() + p.body.len();
        let tn = match lay.tnsot {
            0 => p.count,
            1 => 0,
            2 if p.index == 0 => p.count,
            3 if p.index + 1 == p.count => p.count,
            _ => 0,
        };
        d.extend([0xFF, 0x90, 0, 10]);
        d.extend(be16(p.tile as u32));
        d.extend(if lay.psot0 && i + 1 == m { [0; 4] } else { (len as u32).to_be_bytes() });
        d.extend([p.index as u8, tn as u8]);
        d.extend(p.head);
        d.extend([0xFF, 0x93]);
        d.extend(p.body);
    }
    d.extend([0xFF, 0xD9]);
    Ok(d)
}
/// Cuts `d`, made of parts of the given sizes, between parts such that no piece exceeds `size` if avoidable.
fn pieces<'a>(d: &'a [u8], sizes: &[usize], size: usize) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let (mut at, mut end) = (0, 0);
    for &n in sizes {
        if end > at && end + n - at > size {
            v.push(&d[at..end]);
            at = end;
        }
        end += n;
    }
    assert_eq!(end, d.len());
    if end > at {
        v.push(&d[at..]);
    }
    v
}
fn varint(s: usize) -> Vec<u8> {
    let mut v = vec![(s & 0x7f) as u8];
    let mut s = s >> 7;
    while s > 0 {
        v.insert(0, (s & 0x7f) as u8 | 0x80);
        s >>= 7;
    }
    v
}
/// Whether every packet comes after the progression change it belongs to, given one change per tile-part.
fn poc_in_time(siz: &Siz, ti: &TileIn, t: u32, parts: &[(usize, usize)]) -> R<bool> {
    let tile = geometry(siz, ti.params, t);
    let pocs = &ti.params.pocs;
    let mut starts = vec![];
    for k in 1..=pocs.len() {
        let mut q = ti.params.clone();
        q.pocs = pocs[..k].to_vec();
        starts.push(packet_order(&tile, &q)?.len());
    }
    for (i, (first, n)) in parts.iter().enumerate() {
        // changes known in this part
        let known = if i + 1 == parts.len() { pocs.len() } else { (i + 1).min(pocs.len()) };
        if first + n > starts[known - 1] {
            return Ok(false);
        }
    }
    Ok(true)
}
