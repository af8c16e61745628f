//! C10 and C11: the encoder against the library's own and against the reference decoder.

use crate::conf;
use crate::driver::*;
use crate::refj2k;
use mck::*;
use std::rc::Rc;

/// The codestream inside a file.
pub fn codestream(b: &[u8], jp2: bool) -> Result<Vec<u8>, String> {
    if !jp2 {
        return Ok(b.to_vec());
    }
    let boxes = crate::jp2box::parse(b)?;
    let c: Vec<_> = boxes.iter().filter(|x| &x.kind == b"jp2c").collect();
    if c.len() != 1 {
        return Err(format!("{} codestream boxes", c.len()));
    }
    Ok(b[c[0].body.clone()].to_vec())
}
pub type Judge = fn(&Img, &Enc, &mut Cx) -> Result<(), String>;

fn round_trip(img: &Img, e: &Enc, cx: &mut Cx) -> Result<(), String> {
    let Some(b) = encoded(img, e, cx)? else { return Ok(()) };
    cx.evaluations(1);
    let o = decode(&b, &Dec { jp2: e.jp2, ..Dec::default() }).map_err(|r| format!("own output not decoded: {r}"))?;
    if let Some(d) = diff(&o, img) {
        return Err(format!("decoded / original: {d}"));
    }
    cx.outcome(hash_bytes(&b));
    Ok(())
}
/// None: the encoder may refuse this and did.
pub fn encoded(img: &Img, e: &Enc, cx: &mut Cx) -> Result<Option<Vec<u8>>, String> {
    match encode(img, e) {
        Ok(b) => Ok(Some(b)),
        Err(r) if r.stage == Stage::Encode && (conf::demanding(img, e) || conf::overflowing(img, e)) || r.stage == Stage::Start && conf::many_parts(img, e) => {
            cx.add("refused", 1);
            Ok(None)
        }
        Err(r) => Err(format!("not encoded: {r}")),
    }
}
fn conformant(img: &Img, e: &Enc, cx: &mut Cx) -> Result<(), String> {
    let Some(b) = encoded(img, e, cx)? else { return Ok(()) };
    cx.evaluations(1);
    let cs = codestream(&b, e.jp2)?;
    let (s, r) = refj2k::decode(&cs, 0, 0, true)?;
    declared(&s, img, e)?;
    for (c, k) in img.comps.iter().enumerate() {
        let v = refj2k::samples(&s.siz, c, &r.comps[c]);
        let w = k.data.as_ref().unwrap();
        if v.len() != w.len() {
            return Err(format!("component {c}: {} samples, not {}", v.len(), w.len()));
        }
        if let Some(i) = v.iter().zip(w).position(|(a, b)| *a != *b as i64) {
            return Err(format!("component {c} sample {i}: the standard decodes {} for {}", v[i], w[i]));
        }
    }
    cx.outcome(hash_bytes(&b));
    Ok(())
}
/// The codestream declares what was asked for.
pub fn declared(s: &refj2k::Codestream, img: &Img, e: &Enc) -> Result<(), String> {
    let z = &s.siz;
    macro_rules! same {
        ($what:expr, $a:expr, $b:expr) => {
            if $a != $b {
                return Err(format!("the codestream declares {}: {:?}, asked for {:?}", $what, $a, $b));
            }
        };
    }
    same!("an image area", (z.x0, z.y0, z.x1, z.y1), (img.x0, img.y0, img.x1, img.y1));
    let (ox, oy) = (e.tile_origin.0 as u32, e.tile_origin.1 as u32);
    same!("a tile origin", (z.tx0, z.ty0), (ox, oy));
    if let Some((w, h)) = e.tile {
        same!("a tile size", (z.tw, z.th), (w as u32, h as u32));
    } else {
        same!("tiles", z.ntiles(), 1);
    }
    let a: Vec<_> = z.comps.iter().map(|c| (c.dx, c.dy, c.prec, c.sgnd)).collect();
    let b: Vec<_> = img.comps.iter().map(|c| (c.dx, c.dy, c.prec, c.sgnd)).collect();
    same!("components", a, b);
    for t in 0..z.ntiles() {
        let p = s.params(t)?;
        same!("a progression", p.prog as i32, e.prog);
        same!("layers", p.layers, e.layers.max(1) as u32);
        same!("a component transform", p.mct as i8, e.mct);
        same!("SOP and EPH", (p.sop, p.eph), (e.csty & 2 != 0, e.csty & 4 != 0));
        let pocs: Vec<_> = p.pocs.iter().map(|q| (q.rs, q.cs, q.le, q.re, q.ce, q.prog as i32)).collect();
        let want: Vec<_> = e.pocs.iter().filter(|q| q.tile == t + 1).map(|q| (q.res0, q.comp0, q.lay1, q.res1, q.comp1, q.prog)).collect();
        same!("progression changes", pocs, want);
        for (c, k) in p.comps.iter().enumerate() {
            same!("decomposition levels", k.cod.levels as i32 + 1, e.res);
            same!("a code-block size", (1 << k.cod.xcb, 1 << k.cod.ycb), e.cb);
            same!("a code-block style", k.cod.style as i32, e.mode);
            same!("reversibility", k.cod.reversible, !e.irreversible);
            same!("a region of interest", k.roi as i32, e.roi.filter(|r| r.0 as usize == c).map_or(0, |r| r.1));
            for r in 0..e.res as usize {
                // sizes are given from the highest resolution down and halve after the last one given
                let i = e.res as usize - 1 - r;
                let want = if e.prec.is_empty() {
                    (15, 15)
                } else {
                    let lg = |n: i32, r: usize| {
                        let k = if n < 1 { 1 } else { 31 - n.leading_zeros() };
                        if r > 0 { k.max(1) } else { k }
                    };
                    let l = e.prec.len() - 1;
                    let (w, h) = if i <= l { e.prec[i] } else { (e.prec[l].0 >> (i - l), e.prec[l].1 >> (i - l)) };
                    (lg(w, r), lg(h, r))
                };
                same!("a precinct size", k.cod.prec[r], want);
            }
        }
    }
    if let Some(c) = &e.comment {
        same!("comments", s.comments, vec![(1u16, c.as_bytes().to_vec())]);
    }
    Ok(())
}

/// An encoding at one of the limits of the standard or of a field of the codestream.
#[derive(Clone, Debug)]
struct Extreme {
    area: (u32, u32, u32, u32),
    /// how many, sub-sampling, precision
    comps: (usize, u32, u32, u32),
    /// every fourth component has another precision
    mixed: bool,
    tile: Option<(i32, i32)>,
    origin: (i32, i32),
    res: i32,
    cb: (i32, i32),
    prog: i32,
    csty: i32,
    mode: i32,
    layers: i32,
    prec: Vec<(i32, i32)>,
    extra: &'static [&'static str],
    tp: Option<u8>,
    roi: Option<(i32, i32)>,
    poc: bool,
    comment: Option<usize>,
    content: usize,
}
impl Default for Extreme {
    fn default() -> Self {
        Extreme { area: (0, 0, 7, 6), comps: (1, 1, 1, 8), mixed: false, tile: None, origin: (0, 0), res: 1, cb: (64, 64), prog: 0, csty: 0, mode: 0, layers: 0, prec: vec![], extra: &[], tp: None, roi: None, poc: false, comment: None, content: 0 }
    }
}
impl Extreme {
    fn build(&self) -> (Img, Enc) {
        let (n, dx, dy, p) = self.comps;
        let comps: Vec<_> = (0..n).map(|c| (dx, dy, if self.mixed && c % 4 == 3 { p + 2 } else { p }, false)).collect();
        let img = Img::new(self.area, &comps).fill(|c, x, y, lo, hi| {
            if self.content == 99 {
                lo + (mix64(((c as u64) << 40) ^ ((y as u64) << 20) ^ x as u64) % (hi - lo + 1) as u64) as i64
            } else {
                conf::pattern(self.content, c, x, y, lo, hi)
            }
        });
        let mut e = Enc {
            tile: self.tile,
            tile_origin: self.origin,
            res: self.res,
            cb: self.cb,
            prog: self.prog,
            csty: self.csty,
            mode: self.mode,
            layers: self.layers,
            rates: if self.layers > 0 { (0..self.layers).map(|i| if i + 1 == self.layers { 0.0 } else { (self.layers - i) as f32 * 1.5 }).collect() } else { vec![] },
            prec: self.prec.clone(),
            extra: self.extra.iter().map(|s| s.to_string()).collect(),
            tp: self.tp,
            roi: self.roi,
            comment: self.comment.map(|n| (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()),
            ..Enc::default()
        };
        if self.poc {
            let l = self.layers.max(1) as u32;
            e.pocs = vec![PocSpec { tile: 1, res0: 0, comp0: 0, lay1: l, res1: self.res as u32, comp1: n as u32 / 2, prog: 4 }, PocSpec { tile: 1, res0: 0, comp0: n as u32 / 2, lay1: l, res1: self.res as u32, comp1: n as u32, prog: 0 }];
        }
        (img, e)
    }
}
fn extremes(deep: bool, with_reference: bool) -> Vec<(&'static str, &'static str, Vec<Extreme>)> {
    let d = Extreme::default();
    let mut tiles = vec![];
    const TE: [&[&str]; 4] = [&[], &["TLM=YES"], &["PLT=YES", "TLM=YES"], &["PLT=YES"]];
    for (w, h) in [(15, 17), (16, 16), (257, 1), (1, 300), (40, 30), (63, 65)] {
        for extra in TE {
            for n in [1, 3] {
                for (tp, res) in [(None, 1), (Some(b'C'), 1), (Some(b'R'), 2)] {
                    if w > 40 && h > 40 && (n == 3 || tp.is_some()) && !deep {
                        continue;
                    }
                    tiles.push(Extreme { area: (3, 2, 2 * w + 1, 2 * h), tile: Some((2, 2)), origin: (2, 1), comps: (n, 1, 1, 8), extra, tp, res, ..d.clone() });
                }
            }
        }
    }
    let mut packets = vec![];
    for (w, h, p, res, cb, layers) in [(120, 110, 8, 1, (64, 64), 0), (140, 130, 8, 1, (64, 64), 0), (200, 190, 8, 1, (64, 64), 0), (400, 390, 8, 1, (1024, 4), 0), (300, 290, 16, 3, (64, 64), 3), (300, 200, 12, 2, (4, 4), 2), (1200, 1000, 16, 1, (64, 64), 0)] {
        if w * h > 1 << 20 && with_reference && !deep {
            continue;
        }
        for extra in TE {
            for csty in [0, 6] {
                for tp in [None, Some(b'R')] {
                    if w * h > 1 << 16 && (csty == 6) != tp.is_some() {
                        continue;
                    }
                    packets.push(Extreme { area: (0, 0, w, h), comps: (1, 1, 1, p), res, cb, layers, extra, csty, tp, content: 99, ..d.clone() });
                }
            }
        }
    }
    let mut comps = vec![];
    for n in [4, 5, 255, 256, 257, 300] {
        for roi in [None, Some((0, 3)), Some((n as i32 - 1, 5))] {
            for mixed in [false, true] {
                for (prog, poc, res, tp) in [(0, false, 1, None), (4, false, 2, None), (2, true, 1, None), (1, true, 2, None), (4, false, 1, Some(b'C'))] {
                    for extra in [TE[0], TE[2]] {
                        comps.push(Extreme { area: (0, 0, 3, 4), comps: (n, 1, 1, 8), mixed, roi, prog, poc, res, tp, extra, ..d.clone() });
                    }
                }
            }
        }
    }
    let mut layers = vec![];
    for n in [1, 2, 50, 99, 100] {
        for prog in 0..5 {
            for (csty, extra, tp) in [(0, TE[0], None), (6, TE[2], None), (0, TE[1], Some(b'L'))] {
                for content in [0, 99] {
                    layers.push(Extreme { area: (0, 0, 40, 37), res: 3, layers: n, prog, csty, extra, tp, content, ..d.clone() });
                }
            }
        }
    }
    let mut precincts = vec![];
    for w in 0..=15 {
        for h in 0..=15 {
            for (res, prog, cb) in [(1, 0, (64, 64)), (2, 2, (64, 64)), (3, 3, (8, 4)), (3, 4, (4, 64))] {
                if w.min(h) == 0 && res > 1 {
                    continue;
                }
                precincts.push(Extreme { area: (1, 2, 40, 37), prec: vec![(1 << w, 1 << h)], res, prog, cb, comps: (2, 1, 1, 8), ..d.clone() });
            }
        }
    }
    let mut blocks = vec![];
    for x in 2..=10 {
        for y in 2..=10 {
            if x + y > 12 {
                continue;
            }
            for (w, h) in [(1100, 5), (5, 1100), (70, 66)] {
                for mode in [0, 63, 1, 8] {
                    blocks.push(Extreme { area: (3, 2, 3 + w, 2 + h), cb: (1 << x, 1 << y), mode, res: 2, content: (x + y) as usize % 2, ..d.clone() });
                }
            }
        }
    }
    let mut levels = vec![];
    for l in 0..=10 {
        for prog in 0..5 {
            for (x, y) in [(0, 0), (1023, 517), (1 << 20, 1 << 19)] {
                for prec in [vec![], vec![(128, 128); 2]] {
                    levels.push(Extreme { area: (x, y, x + (1 << l) + 3, y + (1 << l) + 5), tile: Some((2048, 2048)), origin: (x as i32, y as i32), res: l + 1, prog, prec, ..d.clone() });
                }
            }
        }
    }
    let mut subs = vec![];
    for dx in [1, 2, 3, 7, 127, 128, 254, 255] {
        for dy in [1, 2, 5, 128, 255] {
            for (k, tile) in [(0, None), (1, Some((300, 257))), (2, Some((255, 255))), (3, Some((256, 128)))] {
                for prog in [0, 2, 3, 4] {
                    if dx * dy > 10 || deep {
                        subs.push(Extreme { area: (k, 2 * k, 620, 540), tile, comps: (2, dx, dy, 8), res: 2, prog, ..d.clone() });
                    }
                }
            }
        }
    }
    let mut comments = vec![];
    for n in [0, 1, 2, 100, 255, 256, 4094, 65000, 65530, 65531, 65532, 65535, 65536, 70000] {
        for tile in [None, Some((3, 3))] {
            comments.push(Extreme { comment: Some(n), tile, extra: TE[1], ..d.clone() });
        }
    }
    vec![
        ("many tiles", "255, 256, 257, 300, 1200 and 4095 tiles with and without tile-part and packet lengths, one and three components, no and several tile-parts", tiles),
        ("large packets", "packets of up to several million bytes with and without their lengths, markers around packets and tile-parts", packets),
        ("many components", "4 to 300 components, alike and of different depths, with regions of interest and progression changes", comps),
        ("many layers", "1 to 100 layers in every progression", layers),
        ("precincts", "every precinct size of 1 to 32768 a side (2 and more with several resolutions)", precincts),
        ("blocks", "every code-block shape on wide, high and square images, four block styles", blocks),
        ("levels", "0..10 decomposition levels in every progression on images at three places", levels),
        ("sub-samplings", "sub-samplings up to 255 with four tile grids", subs),
        ("comments", "comments of 0 to 70000 bytes", comments),
    ]
}
fn extreme_spaces(deep: bool, with_reference: bool, f: Judge) -> Vec<Box<dyn Space>> {
    extremes(deep, with_reference)
        .into_iter()
        .map(|(name, rule, l)| {
            list_space(name, rule, l, move |x, cx| {
                let (img, e) = x.build();
                if img.comps.iter().any(|c| c.w == 0 || c.h == 0) {
                    return Ok(());
                }
                // a comment that no segment can hold
                if x.comment.is_some_and(|n| n > 65531) && encode(&img, &e).is_err() {
                    cx.add("refused", 1);
                    return Ok(());
                }
                f(&img, &e, cx)
            })
        })
        .collect()
}

fn conf_space(name: &str, b: usize, t: usize, f: Judge) -> Box<dyn Space> {
    let l: Vec<_> = conf::around(b, t).into_iter().filter(|v| conf::build(v, false).is_some()).collect();
    let l = Rc::new(l);
    let l2 = l.clone();
    space(
        name,
        &format!("all legal configurations that differ from base {} ({}) in at most {t} of {} parameters", b, conf::show(&conf::BASES[b]), conf::RADICES.len()),
        l.len() as u64,
        move |i| conf::show(&l2[i as usize]),
        move |i, cx| {
            let (img, e) = conf::build(&l[i as usize], false).unwrap();
            f(&img, &e, cx)
        },
    )
}
/// What the encoder is made to encode, reversibly.
pub fn reversible_spaces(deviations: [usize; 4], deep: bool, f: Judge) -> Vec<Box<dyn Space>> {
    let mut v = vec![];
    for b in 0..conf::BASES.len() {
        v.push(conf_space(&format!("configurations{b}"), b, deviations[b], f));
    }
    // every area of small size and offset, every depth
    let n = if deep { 17 } else { 9 };
    let o = if deep { 5 } else { 3 };
    let rad = [o, o, n, n, 5];
    v.push(space(
        "areas",
        &format!("every image area with offsets below {o} and sides of 1..{n}, with 1..5 resolutions"),
        product(&rad),
        move |i| format!("{:?}", mixed(i, &rad)),
        move |i, cx| {
            let d = mixed(i, &rad);
            let (x0, y0, w, h) = (d[0] as u32, d[1] as u32, d[2] as u32 + 1, d[3] as u32 + 1);
            let (tw, th) = (w + x0, h + y0);
            let img = Img::new((x0, y0, x0 + w, y0 + h), &[(1, 1, 8, false)]).fill(|c, x, y, lo, hi| conf::pattern(0, c, x, y, lo, hi));
            let e = Enc { res: d[4] as i32 + 1, cb: (8, 8), ..Enc::default() };
            if tw.min(th) < 1 << d[4] {
                return Ok(());
            }
            f(&img, &e, cx)
        },
    ));
    // every tile grid on a small image
    let n = if deep { 12 } else { 8 };
    let rad = [n, n, 3, 3, 3, 2];
    v.push(space(
        "grids",
        &format!("every tile size of 1..{n} a side and grid origin below 3 on a sub-sampled image of 9x10 at (2, 3), 1..3 resolutions, with and without tile-parts"),
        product(&rad),
        move |i| format!("{:?}", mixed(i, &rad)),
        move |i, cx| {
            let d = mixed(i, &rad);
            let (w, h) = (d[0] as i32 + 1, d[1] as i32 + 1);
            let (ox, oy) = (d[2] as i32, d[3] as i32);
            let img = Img::new((2, 3, 11, 13), &[(1, 1, 8, false), (2, 1, 6, true)]).fill(|c, x, y, lo, hi| conf::pattern(0, c, x, y, lo, hi));
            let e = Enc { tile: Some((w, h)), tile_origin: (ox, oy), res: d[4] as i32 + 1, cb: (4, 8), tp: [None, Some(b'R')][d[5]], ..Enc::default() };
            // the first tile must meet the image
            if ox + w <= 2 || oy + h <= 3 || w.min(h) < 1 << d[4] {
                return Ok(());
            }
            f(&img, &e, cx)
        },
    ));
    // every precision
    let rad = [27, 2, conf::NPATTERNS, 3, 3, 2];
    v.push(space(
        "precisions",
        "every precision of 1..27 bits (above 24 it may be refused: coefficients must fit into 25 bits), signed and unsigned, with every content, block style and depth, with and without component transform",
        product(&rad),
        move |i| format!("{:?}", mixed(i, &rad)),
        move |i, cx| {
            let d = mixed(i, &rad);
            let p = d[0] as u32 + 1;
            let nc = if d[5] == 1 { 3 } else { 1 };
            let img = Img::new((0, 0, 12, 11), &vec![(1, 1, p, d[1] == 1); nc]).fill(|c, x, y, lo, hi| conf::pattern(d[2], c, x, y, lo, hi));
            let e = Enc { res: [1, 2, 4][d[3]], mode: [0, 1, 63][d[4]], mct: d[5] as i8, ..Enc::default() };
            if e.res == 4 && e.mode == 63 && p < 4 {
                // one-bit images with every pass terminated outgrow the encoder's buffer
                return Ok(());
            }
            f(&img, &e, cx)
        },
    ));
    // every number of guard bits
    let rad = [8, 4, 2, conf::NPATTERNS, 4, 2, 2];
    v.push(space(
        "guards",
        "every number of guard bits (with less than two an image may be refused), precisions of 1, 8, 12 and 16 bits, signed or not, every content, 1 to 5 resolutions, with and without component transform, plain and with region of interest",
        product(&rad),
        move |i| format!("{:?}", mixed(i, &rad)),
        move |i, cx| {
            let d = mixed(i, &rad);
            let nc = if d[5] == 1 { 3 } else { 1 };
            let img = Img::new((3, 1, 21, 18), &vec![(1, 1, [1, 8, 12, 16][d[1]], d[2] == 1); nc]).fill(|c, x, y, lo, hi| conf::pattern(d[3], c, x, y, lo, hi));
            let e = Enc { res: [1, 2, 3, 5][d[4]], mct: d[5] as i8, extra: vec![format!("GUARD_BITS={}", d[0])], roi: [None, Some((0, 5))][d[6]], ..Enc::default() };
            f(&img, &e, cx)
        },
    ));
    // all images over a small alphabet
    let shapes: &[(u32, u32)] = if deep { &[(3, 3), (2, 4), (4, 2), (1, 8), (8, 1)] } else { &[(2, 3), (3, 2), (1, 6), (6, 1), (2, 2)] };
    let alphabet: &[i32] = if deep { &[0, 128, 255] } else { &[0, 127, 255] };
    let modes: &[i32] = &[0, 63];
    for &(w, h) in shapes {
        let n = (alphabet.len() as u64).pow(w * h);
        v.push(space(
            &format!("images{w}x{h}"),
            &format!("every {w}x{h} image over the values {alphabet:?}, with 1 and 2 resolutions where possible, plain and with all block styles"),
            n.div_ceil(16),
            move |i| format!("images from {}", i * 16),
            move |i, cx| {
                for k in i * 16..((i + 1) * 16).min(n) {
                    let mut x = k;
                    let data: Vec<i32> = (0..w * h)
                        .map(|_| {
                            let a = alphabet[(x % alphabet.len() as u64) as usize];
                            x /= alphabet.len() as u64;
                            a
                        })
                        .collect();
                    let mut img = Img::new((0, 0, w, h), &[(1, 1, 8, false)]);
                    img.comps[0].data = Some(data);
                    for &mode in modes {
                        for res in 1..=if w.min(h) >= 2 { 2 } else { 1 } {
                            f(&img, &Enc { res, mode, ..Enc::default() }, cx).map_err(|m| format!("image {k} mode {mode} res {res}: {m}"))?;
                        }
                    }
                }
                Ok(())
            },
        ));
    }
    // larger images: several code-blocks of full size, long coding passes, precincts of all kinds
    let rad = [3, conf::NPATTERNS, 9, 5, 2];
    v.push(space(
        "large",
        "images of 150x130, 300x9 and 9x300 with every content, code-block shape and style",
        product(&rad),
        move |i| format!("{:?}", mixed(i, &rad)),
        move |i, cx| {
            let d = mixed(i, &rad);
            let (w, h) = [(150, 130), (300, 9), (9, 300)][d[0]];
            let img = Img::new((5, 6, 5 + w, 6 + h), &[(1, 1, 8, false)]).fill(|c, x, y, lo, hi| conf::pattern(d[1], c, x, y, lo, hi));
            let e = Enc {
                res: 4,
                mode: conf::MODES[d[2]],
                cb: [(64, 64), (1024, 4), (4, 1024), (16, 32), (128, 32)][d[3]],
                prec: if d[4] == 1 { vec![(64, 32), (32, 32)] } else { vec![] },
                layers: if d[4] == 1 { 3 } else { 0 },
                rates: if d[4] == 1 { vec![10., 3., 0.] } else { vec![] },
                prog: [0, 2][d[4]],
                ..Enc::default()
            };
            f(&img, &e, cx)
        },
    ));
    v
}
pub fn c10(tier: Tier) -> Check {
    let mut c = Check::new("C10", "exploration").counter("refused");
    let deep = tier == Tier::Thorough;
    for s in reversible_spaces(if deep { [3; 4] } else { [3, 2, 2, 2] }, deep, round_trip) {
        c = c.with(s);
    }
    for s in extreme_spaces(deep, false, round_trip) {
        c = c.with(s);
    }
    c.assume("Configurations whose overhead exceeds the encoder's output estimate, or whose tiles hold no sample, may be refused (they are counted).")
}
pub fn c11(tier: Tier) -> Check {
    let mut c = Check::new("C11", "exploration").counter("refused");
    let deep = tier == Tier::Thorough;
    for s in reversible_spaces(if deep { [4, 4, 4, 3] } else { [3; 4] }, deep, conformant) {
        c = c.with(s);
    }
    for s in extreme_spaces(deep, true, conformant) {
        c = c.with(s);
    }
    c.assume("The reference decoder (written from ISO/IEC 15444-1 alone) is right.")
}
