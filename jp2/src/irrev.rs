//! C25: the irreversible path of encoder and decoder. C26: caller-supplied component transforms.

use crate::code::{codestream, declared, encoded};
use crate::conf;
use crate::driver::*;
use crate::lay;
use crate::refj2k::*;
use mck::*;
use std::rc::Rc;

/// A forward component transform: coded_i = sum of m[i][j] * (sample_j - offset_j).
struct Forward {
    m: Vec<Vec<f64>>,
    offset: Vec<f64>,
}
impl Forward {
    fn standard(img: &Img, ict: bool) -> Forward {
        let n = img.comps.len();
        let mut m: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| (i == j) as u8 as f64).collect()).collect();
        if ict {
            for (r, v) in [[0.299, 0.587, 0.114], [-0.168_736, -0.331_264, 0.5], [0.5, -0.418_688, -0.081_312]].iter().enumerate() {
                m[r][..3].copy_from_slice(v);
            }
        }
        Forward { m, offset: img.comps.iter().map(|k| if k.sgnd { 0. } else { 2f64.powi(k.prec as i32 - 1) }).collect() }
    }
}

/// Every coefficient the codestream stands for is within the quantiser's step of the one the image has.
fn within_steps(s: &Codestream, tiles: &[TilePackets], img: &Img, f: &Forward, cx: &mut Cx) -> Result<(), String> {
    for t in tiles {
        let n = img.comps.len();
        let samples: Vec<(Rect, Vec<f64>)> = (0..n)
            .map(|c| {
                let r = t.state.comps[c].res[t.params.comps[c].cod.levels as usize].r;
                let all = s.siz.on_comp(s.siz.area(), c);
                let d = img.comps[c].data.as_ref().unwrap();
                let v = (r.y0..r.y1).flat_map(|y| (r.x0..r.x1).map(move |x| (x, y))).map(|(x, y)| d[(y - all.y0) as usize * all.w() + (x - all.x0) as usize] as f64 - f.offset[c]).collect();
                (r, v)
            })
            .collect();
        for c in 0..n {
            let p = &t.params.comps[c];
            let tc = &t.state.comps[c];
            let (r, w) = (samples[c].0, samples[c].1.len());
            let mut ll: Vec<f64> = (0..w).map(|i| (0..n).filter(|&j| f.m[c][j] != 0.).map(|j| f.m[c][j] * samples[j].1[i]).sum()).collect();
            let _ = r;
            // how large a coded sample can be
            let scale: f64 = (0..n).map(|j| {
                let (lo, hi) = range(img.comps[j].prec, img.comps[j].sgnd);
                f.m[c][j].abs() * (lo as f64 - f.offset[j]).abs().max((hi as f64 - f.offset[j]).abs())
            }).sum();
            let have = real_coefs(tc, p, s.siz.comps[c].prec)?;
            let mut want: std::collections::BTreeMap<(usize, usize), Vec<f64>> = Default::default();
            for k in (1..=p.cod.levels as usize).rev() {
                let b = &tc.res[k].bands;
                let (l, h) = analyze(tc.res[k].r, &ll, tc.res[k - 1].r, [b[0].r, b[1].r, b[2].r]);
                ll = l;
                for (bi, v) in h.into_iter().enumerate() {
                    want.insert((k, bi), v);
                }
            }
            want.insert((0, 0), ll);
            for (k, bi, v, step) in have {
                let w = &want[&(k, bi)];
                for (i, (a, b)) in v.iter().zip(w).enumerate() {
                    let e = (a - b).abs();
                    if !(e <= step * 1.02 + scale * SLACK) {
                        return Err(format!("tile {} component {c} resolution {k} band {bi} coefficient {i}: coded {a:.4}, is {b:.4}, step {step:.4}", t.tile));
                    }
                }
            }
        }
    }
    Ok(())
}
/// The library computes with 32-bit numbers and a scaling constant of ten digits.
const SLACK: f64 = 1e-4;

/// With every bit-plane kept: how far may a sample be off?
fn near(o: &Img, img: &Img, worst: f64) -> Result<(), String> {
    for (c, (a, b)) in o.comps.iter().zip(&img.comps).enumerate() {
        let (lo, hi) = range(b.prec, b.sgnd);
        let (a, w) = (a.data.as_ref().unwrap(), b.w as usize);
        let tol = worst + (hi - lo) as f64 * SLACK;
        for (i, (x, y)) in a.iter().zip(b.data.as_ref().unwrap()).enumerate() {
            if (*x as f64 - *y as f64).abs() > tol {
                return Err(format!("component {c} sample ({}, {}): {x} decoded for {y}", i % w, i / w));
            }
            if (*x as i64) < lo || *x as i64 > hi {
                return Err(format!("component {c} sample ({}, {}): {x} is out of range", i % w, i / w));
            }
        }
    }
    Ok(())
}

fn irreversible(img: &Img, e: &Enc, cx: &mut Cx) -> Result<(), String> {
    let e = &Enc { irreversible: true, ..e.clone() };
    let Some(b) = encoded(img, e, cx)? else { return Ok(()) };
    cx.evaluations(1);
    let cs = codestream(&b, e.jp2)?;
    let s = Codestream::parse(&cs, true)?;
    declared(&s, img, e)?;
    let tiles = s.packets(&cs, false, u32::MAX)?;
    let limited = e.rates.last().map_or(false, |r| *r > 1.) || e.distos.last().map_or(false, |d| *d > 0.);
    if !limited {
        within_steps(&s, &tiles, img, &Forward::standard(img, e.mct == 1), cx)?;
    }
    let tiles: Vec<_> = tiles.into_iter().map(|t| (t.tile, t.state, t.params)).collect();
    let comps = assemble(&s.siz, &tiles, 0, true)?;
    let o = crate::driver::decode(&b, &Dec { jp2: e.jp2, ..Dec::default() }).map_err(|r| format!("own output not decoded: {r}"))?;
    lay::agree(&o, &s.siz, &comps, 0)?;
    if !limited {
        near(&o, img, 4.)?;
    }
    cx.outcome(hash_bytes(&b));
    Ok(())
}

pub fn c25(tier: Tier) -> Check {
    let mut c = Check::new("C25", "exploration").counter("refused");
    let deep = tier == Tier::Thorough;
    let depth = if deep { [3; 4] } else { [2; 4] };
    for (b, &t) in depth.iter().enumerate() {
        let l: Vec<_> = conf::around(b, t).into_iter().filter(|v| conf::build(v, true).is_some()).collect();
        let l = Rc::new(l);
        let l2 = l.clone();
        c = c.with(space(
            &format!("configurations{b}"),
            &format!("every configuration within {t} deviations of base {b} in the 18-parameter encoder grid"),
            l.len() as u64,
            move |i| conf::show(&l2[i as usize]),
            move |i, cx| {
                let (img, e) = conf::build(&l[i as usize], true).unwrap();
                irreversible(&img, &e, cx)
            },
        ));
    }
    // every size and place
    let n: u64 = if deep { 14 } else { 9 };
    let rad = [n as usize, n as usize, 4, 3, 4, 2];
    c = c.with(space(
        "areas",
        &format!("every image of 1..{n} a side with its corner at (0..3, 0..2), 1..4 resolutions, one component and three with transform, noise and extremes"),
        product(&rad),
        move |i| format!("{:?}", mixed(i, &rad)),
        move |i, cx| {
            let d = mixed(i, &rad);
            let (w, h) = (d[0] as u32 + 1, d[1] as u32 + 1);
            if w.min(h) < 1 << d[4] {
                return Ok(());
            }
            let nc = if d[5] == 1 { 3 } else { 1 };
            for pat in [0, 2, 5] {
                let img = Img::new((d[2] as u32, d[3] as u32, d[2] as u32 + w, d[3] as u32 + h), &vec![(1, 1, 8, false); nc]).fill(|c, x, y, lo, hi| conf::pattern(pat, c, x, y, lo, hi));
                irreversible(&img, &Enc { res: d[4] as i32 + 1, mct: d[5] as i8, ..Enc::default() }, cx)?;
            }
            Ok(())
        },
    ));
    let rad = [26, 2, conf::NPATTERNS, 4, 3, 2];
    c = c.with(space(
        "precisions",
        "every precision up to 26 bits, signed or not, with every content, 1 to 5 resolutions and three block styles",
        product(&rad),
        move |i| format!("{:?}", mixed(i, &rad)),
        move |i, cx| {
            let d = mixed(i, &rad);
            let p = d[0] as u32 + 1;
            let nc = if d[5] == 1 { 3 } else { 1 };
            let img = Img::new((0, 0, 19, 17), &vec![(1, 1, p, d[1] == 1); nc]).fill(|c, x, y, lo, hi| conf::pattern(d[2], c, x, y, lo, hi));
            irreversible(&img, &Enc { res: [1, 2, 4, 5][d[3]], mode: [0, 1, 63][d[4]], mct: d[5] as i8, ..Enc::default() }, cx)
        },
    ));
    // every image over extreme values
    let shapes: &[(u32, u32)] = if deep { &[(3, 3), (2, 4), (4, 2), (1, 9), (9, 1)] } else { &[(2, 3), (3, 2), (1, 7), (7, 1), (2, 2)] };
    for &(w, h) in shapes {
        let n = 3u64.pow(w * h);
        c = c.with(space(
            &format!("images{w}x{h}"),
            &format!("every {w}x{h} image over the lowest, the middle and the highest value, unsigned 8 and signed 12 bits, 1 and 2 resolutions where possible"),
            n.div_ceil(16),
            move |i| format!("images from {}", i * 16),
            move |i, cx| {
                for k in i * 16..((i + 1) * 16).min(n) {
                    for (prec, sgnd) in [(8, false), (12, true)] {
                        let mut x = k;
                        let img = Img::new((0, 0, w, h), &[(1, 1, prec, sgnd)]).fill(|_, _, _, lo, hi| {
                            let a = [lo, (lo + hi + 1) / 2, hi][(x % 3) as usize];
                            x /= 3;
                            a
                        });
                        for res in 1..=if w.min(h) >= 2 { 2 } else { 1 } {
                            irreversible(&img, &Enc { res, ..Enc::default() }, cx).map_err(|m| format!("image {k} of {prec} bits, {res} resolutions: {m}"))?;
                        }
                    }
                }
                Ok(())
            },
        ));
    }
    // every colour
    let q = if deep { 16 } else { 8 };
    c = c.with(space(
        "colours",
        &format!("the component transform on every colour with {q} values a component: flat images and pairs with the opposite colour, 4 and 8 bits, unsigned and signed"),
        (q * q * q) as u64,
        move |i| format!("{:?}", mixed(i, &[q, q, q])),
        move |i, cx| {
            let d = mixed(i, &[q, q, q]);
            for (prec, sgnd) in [(4, false), (8, false), (8, true)] {
                for pair in [false, true] {
                    let img = Img::new((0, 0, 2, 2), &vec![(1, 1, prec, sgnd); 3]).fill(|c, x, y, lo, hi| {
                        let v = (hi - lo) * d[c] as i64 / (q as i64 - 1);
                        if pair && (x + y) % 2 == 1 { hi - v } else { lo + v }
                    });
                    for res in [1, 2] {
                        irreversible(&img, &Enc { res, mct: 1, ..Enc::default() }, cx).map_err(|m| format!("{prec} bits {sgnd} {pair} {res}: {m}"))?;
                    }
                }
            }
            Ok(())
        },
    ));
    // larger images, other sub-samplings of the rate
    let rad = [3, conf::NPATTERNS, 5, 2, 2];
    c = c.with(space(
        "large",
        "images of 150x130, 300x9 and 9x300 with every content and code-block shape, in tiles or not, with and without rate-limited layers",
        product(&rad),
        move |i| format!("{:?}", mixed(i, &rad)),
        move |i, cx| {
            let d = mixed(i, &rad);
            let (w, h) = [(150, 130), (300, 9), (9, 300)][d[0]];
            let img = Img::new((5, 6, 5 + w, 6 + h), &[(1, 1, 8, false)]).fill(|c, x, y, lo, hi| conf::pattern(d[1], c, x, y, lo, hi));
            let e = Enc {
                res: 4,
                cb: [(64, 64), (1024, 4), (4, 1024), (16, 32), (128, 32)][d[2]],
                tile: [None, Some((61, 77))][d[3]],
                layers: d[4] as i32 * 3,
                rates: if d[4] == 1 { vec![30., 10., 4.] } else { vec![] },
                ..Enc::default()
            };
            irreversible(&img, &e, cx)
        },
    ));
    c.assume("The reference decoder (written from ISO/IEC 15444-1 alone) is right; the library computes with 32-bit floating point, for which each value may be off by 1e-4 of its range.")
        .assume("Configurations whose overhead exceeds the encoder's output estimate, or whose tiles hold no sample, may be refused (they are counted).")
}

// ---------------------------------------------------------------- C26

/// The inverse transform a codestream carries (ISO/IEC 15444-2, A.3.6 to A.3.9 and J.2).
struct Inverse {
    m: Vec<Vec<f64>>,
    offset: Vec<f64>,
    /// precision and sign of the components after it
    depths: Vec<(u32, bool)>,
}
fn be(d: &[u8]) -> u64 {
    d.iter().fold(0, |a, b| a << 8 | *b as u64)
}
fn array(kind: u64, d: &[u8]) -> R<Vec<f64>> {
    let n = [2, 4, 4, 8][kind as usize];
    if d.len() % n != 0 {
        return Err(format!("MCT array of {} bytes", d.len()));
    }
    Ok(d.chunks(n)
        .map(|c| match kind {
            0 => be(c) as u16 as i16 as f64,
            1 => be(c) as u32 as i32 as f64,
            2 => f32::from_bits(be(c) as u32) as f64,
            _ => f64::from_bits(be(c)),
        })
        .collect())
}
fn carried(s: &Codestream) -> R<Inverse> {
    let n = s.siz.comps.len();
    let bad = |w: &str| Err(format!("component transform markers: {w}"));
    if s.siz.rsiz & 0x8100 != 0x8100 {
        return bad("SIZ does not announce them");
    }
    // index, type -> values
    let mut arrays = std::collections::BTreeMap::new();
    let mut sets = std::collections::BTreeMap::new();
    let (mut order, mut depths) = (None, None);
    for (code, b) in &s.mct_markers {
        let need = |k: usize| if b.len() < k { Err(format!("marker {code:#06x} of {} bytes", b.len())) } else { Ok(()) };
        match code {
            0xFF78 => {
                need(2)?;
                let k = be(&b[..2]);
                let d: Vec<u8> = if k >> 15 == 1 { vec![*b.get(2).unwrap_or(&0); (k & 0x7FFF) as usize] } else { b[2..].to_vec() };
                if d.len() != (k & 0x7FFF) as usize {
                    return bad("CBD length");
                }
                depths = Some(d.iter().map(|v| ((v & 0x7F) as u32 + 1, v & 0x80 != 0)).collect::<Vec<_>>());
            }
            0xFF74 => {
                need(6)?;
                let i = be(&b[2..4]);
                if be(&b[..2]) != 0 || be(&b[4..6]) != 0 || i >> 12 != 0 {
                    return bad("MCT in several segments");
                }
                arrays.insert((i & 0xFF, i >> 8 & 3), array(i >> 10 & 3, &b[6..])?);
            }
            0xFF75 => {
                need(7)?;
                if be(&b[..2]) != 0 || be(&b[3..5]) != 0 || be(&b[5..7]) != 1 {
                    return bad("MCC in several segments or with several collections");
                }
                let mut p = 7;
                let mut take = |k: usize| -> R<u64> {
                    let v = b.get(p..p + k).ok_or("MCC too short")?;
                    p += k;
                    Ok(be(v))
                };
                if take(1)? & 3 != 1 {
                    return bad("MCC without decorrelation");
                }
                let mut lists = vec![];
                for _ in 0..2 {
                    let k = take(2)?;
                    let w = 1 + (k >> 15) as usize;
                    lists.push((0..k & 0x7FFF).map(|_| take(w)).collect::<R<Vec<_>>>()?);
                }
                let t = take(3)?;
                if p != b.len() {
                    return bad("MCC length");
                }
                for l in lists {
                    if l != (0..n as u64).collect::<Vec<_>>() {
                        return bad("MCC components");
                    }
                }
                if t >> 16 != 0 {
                    return bad("MCC of a reversible transform");
                }
                sets.insert(b[2] as u64, (t & 0xFF, t >> 8 & 0xFF));
            }
            0xFF77 => {
                need(1)?;
                if b.len() != 1 + b[0] as usize {
                    return bad("MCO length");
                }
                order = Some(b[1..].to_vec());
            }
            _ => {}
        }
    }
    let Some(order) = order else { return bad("no MCO") };
    let Some(depths) = depths else { return bad("no CBD") };
    let [one] = order[..] else { return bad("not one stage") };
    let Some(&(d, o)) = sets.get(&(one as u64)) else { return bad("MCO names no MCC") };
    let Some(m) = arrays.get(&(d, 1)) else { return bad("MCC names no decorrelation array") };
    let Some(offset) = arrays.get(&(o, 2)) else { return bad("MCC names no offset array") };
    if m.len() != n * n || offset.len() != n || depths.len() != n {
        return bad("array sizes");
    }
    Ok(Inverse { m: m.chunks(n).map(|r| r.to_vec()).collect(), offset: offset.clone(), depths })
}
/// Inverts by Gauss and Jordan; None: singular.
fn invert(m: &[Vec<f64>]) -> Option<Vec<Vec<f64>>> {
    let n = m.len();
    let mut a: Vec<Vec<f64>> = m.iter().enumerate().map(|(i, r)| r.iter().copied().chain((0..n).map(|j| (i == j) as u8 as f64)).collect()).collect();
    let big = m.iter().flatten().fold(0f64, |x, y| x.max(y.abs()));
    for k in 0..n {
        let p = (k..n).max_by(|x, y| a[*x][k].abs().total_cmp(&a[*y][k].abs()))?;
        if a[p][k].abs() <= big * 1e-9 {
            return None;
        }
        a.swap(k, p);
        let d = a[k][k];
        a[k].iter_mut().for_each(|v| *v /= d);
        for i in 0..n {
            if i != k && a[i][k] != 0. {
                let f = a[i][k];
                for j in 0..2 * n {
                    let x = a[k][j];
                    a[i][j] -= f * x;
                }
            }
        }
    }
    Some(a.into_iter().map(|r| r[n..].to_vec()).collect())
}
fn raw_to_image(raw: &[OutComp], siz: &Siz, inv: &Inverse) -> Vec<OutComp> {
    let shift = |c: usize| if siz.comps[c].sgnd { 0. } else { 2f64.powi(siz.comps[c].prec as i32 - 1) };
    (0..raw.len())
        .map(|i| OutComp {
            r: raw[i].r,
            reversible: false,
            v: (0..raw[i].v.len()).map(|k| (0..raw.len()).map(|j| inv.m[i][j] * (raw[j].v[k] - shift(j))).sum::<f64>() + inv.offset[i]).collect(),
        })
        .collect()
}
/// The largest magnitude the transform can give component `j`.
fn coded(img: &Img, f: &Forward, j: usize) -> f64 {
    (0..img.comps.len())
        .map(|k| {
            let (lo, hi) = range(img.comps[k].prec, img.comps[k].sgnd);
            f.m[j][k].abs() * (lo as f64 - f.offset[k]).abs().max((hi as f64 - f.offset[k]).abs())
        })
        .sum()
}
/// The guard bits may leave too little room for what the transform gives a component.
fn beyond_guard(img: &Img, e: &Enc, f: &Forward) -> bool {
    let guard = e.extra.iter().find_map(|s| s.strip_prefix("GUARD_BITS=").map(|n| n.parse::<i32>().unwrap())).unwrap_or(2);
    (0..img.comps.len()).any(|j| coded(img, f, j) > 2f64.powi(img.comps[j].prec as i32 + guard - 3))
}
/// How much more than half a unit the 32-bit arithmetic may add.
fn slack(img: &Img, f: &Forward, inv: &Inverse) -> f64 {
    let n = img.comps.len();
    let coded = |j| coded(img, f, j);
    (0..n).map(|i| (0..n).map(|j| inv.m[i][j].abs() * coded(j)).sum::<f64>()).fold(0., f64::max) * SLACK
}
struct Custom {
    img: Img,
    e: Enc,
    /// decode at these reductions and in windows
    views: bool,
}
fn custom(k: &Custom, cx: &mut Cx) -> Result<(), String> {
    let (img, e) = (&k.img, &k.e);
    let n = img.comps.len();
    let (m, offset) = e.custom_mct.clone().unwrap();
    let f = Forward { m: m.chunks(n).map(|r| r.iter().map(|v| *v as f64).collect()).collect(), offset: offset.iter().map(|v| *v as f64).collect() };
    let alike = img.comps.iter().all(|c| (c.dx, c.dy) == (img.comps[0].dx, img.comps[0].dy));
    let want = invert(&f.m);
    if want.is_none() || !alike || n > 127 {
        cx.add("refusals demanded", 1);
        return match encode(img, e) {
            Err(r) if r.stage == Stage::Setup => Ok(()),
            Err(r) => Err(format!("{r}")),
            Ok(_) => Err(format!("encoded with {}", if want.is_none() { "a singular matrix" } else if alike { "too many components" } else { "components of different sizes" })),
        };
    }
    let want = want.unwrap();
    let b = match encode(img, e) {
        Err(r) if r.stage == Stage::Encode && beyond_guard(img, e, &f) => {
            cx.add("refused", 1);
            return Ok(());
        }
        _ => encoded(img, e, cx)?,
    };
    let Some(b) = b else { return Ok(()) };
    cx.evaluations(1);
    let cs = codestream(&b, e.jp2)?;
    let s = Codestream::parse(&cs, true)?;
    declared(&s, img, &Enc { irreversible: true, mct: 2, ..e.clone() })?;
    let inv = carried(&s)?;
    for (i, (a, b)) in inv.m.iter().flatten().zip(want.iter().flatten()).enumerate() {
        let big = want.iter().flatten().fold(0f64, |x, y| x.max(y.abs()));
        if !((a - b).abs() <= big * 1e-5) {
            return Err(format!("the carried matrix has {a} at ({}, {}), the inverse {b}", i / n, i % n));
        }
    }
    if inv.offset != f.offset {
        return Err(format!("offsets {:?} carried, {:?} given", inv.offset, f.offset));
    }
    let d: Vec<_> = img.comps.iter().map(|c| (c.prec, c.sgnd)).collect();
    if inv.depths != d {
        return Err(format!("depths {:?} carried, the image has {d:?}", inv.depths));
    }
    let tiles = s.packets(&cs, false, u32::MAX)?;
    within_steps(&s, &tiles, img, &f, cx)?;
    let tiles: Vec<_> = tiles.into_iter().map(|t| (t.tile, t.state, t.params)).collect();
    let slack = slack(img, &f, &inv);
    let agree = |d: &Dec, siz: &Siz, comps: &[OutComp], what: &str| -> Result<Img, String> {
        let o = crate::driver::decode(&b, d).map_err(|r| format!("{what}: {r}"))?;
        for (c, (k, w)) in o.comps.iter().zip(comps).enumerate() {
            lay::agree_within(c, k, &siz.comps[c], w, d.reduce, slack).map_err(|r| format!("{what}: {r}"))?;
        }
        Ok(o)
    };
    let dec = Dec { jp2: e.jp2, ..Dec::default() };
    let full = raw_to_image(&assemble(&s.siz, &tiles, 0, false)?, &s.siz, &inv);
    let o = agree(&dec, &s.siz, &full, "decoded")?;
    let gain = inv.m.iter().map(|r| r.iter().map(|v| v.abs()).sum::<f64>()).fold(0., f64::max);
    near(&o, img, 4. * gain.max(1.) + slack)?;
    if k.views {
        for reduce in 1..e.res as u32 {
            let r = raw_to_image(&assemble(&s.siz, &tiles, reduce, false)?, &s.siz, &inv);
            if r.iter().all(|c| !c.r.empty()) {
                agree(&Dec { reduce, ..dec.clone() }, &s.siz, &r, &format!("reduced by {reduce}"))?;
            }
        }
        let a = s.siz.area();
        for (x0, y0, x1, y1) in [(a.x0, a.y0, a.x0 + 1, a.y0 + 1), (a.x0 + 1, a.y0 + 2, a.x1 - 1, a.y1 - 1), (a.x0, a.y0, a.x1 - 2, a.y1)] {
            let win = Rect { x0, y0, x1, y1 };
            if x1 <= x0 || y1 <= y0 || (0..n).any(|c| s.siz.on_comp(win, c).empty()) {
                continue;
            }
            let part: Vec<_> = full.iter().enumerate().map(|(c, o)| crate::views::crop(o, &s.siz, c, win, 0)).collect();
            agree(&Dec { area: Some((x0 as i32, y0 as i32, x1 as i32, y1 as i32)), ..dec.clone() }, &s.siz, &part, &format!("window {:?}", (x0, y0, x1, y1)))?;
        }
    }
    cx.outcome(hash_bytes(&b));
    Ok(())
}
fn noise(area: (u32, u32, u32, u32), comps: &[(u32, u32, u32, bool)]) -> Img {
    Img::new(area, comps).fill(|c, x, y, lo, hi| conf::pattern(0, c, x, y, lo, hi))
}
/// A matrix for any number of components.
fn matrix(kind: usize, n: usize) -> Vec<f32> {
    let at = |i: usize, j: usize| -> f32 {
        match kind {
            0 => (i == j) as u8 as f32,
            // cyclic shift
            1 => ((i + 1) % n == j) as u8 as f32,
            // differences of neighbours
            2 => if i == j { 1. } else if j + 1 == i { -1. } else { 0. },
            // cosine transform
            3 => {
                let k = if i == 0 { (1. / n as f64).sqrt() } else { (2. / n as f64).sqrt() };
                (k * (std::f64::consts::PI * (2 * j + 1) as f64 * i as f64 / (2 * n) as f64).cos()) as f32
            }
            // halves and twos
            4 => if i == j { [0.5, 2., -1., 1.25][i % 4] } else { 0. },
            // averages above
            _ => if i == j { 1. } else if j > i { 0.5 / n as f32 } else { 0. },
        }
    };
    (0..n * n).map(|k| at(k / n, k % n)).collect()
}
const KINDS: usize = 6;

/// The markers of an array transform: component transforms as they may be carried.
#[derive(Clone, Copy)]
struct Carry {
    /// element types of the matrix and of the offsets
    kinds: (usize, usize),
    /// indices of the matrix, the offsets and the collection
    index: (u8, u8, u8),
    /// unused arrays and collections before the ones in use, and arrays behind
    unused: (usize, usize, usize),
    wide: bool,
    offset_first: bool,
}
fn segment(code: u16, body: Vec<u8>) -> Vec<u8> {
    let mut v = code.to_be_bytes().to_vec();
    v.extend(((body.len() + 2) as u16).to_be_bytes());
    v.extend(body);
    v
}
fn elements(kind: usize, v: &[f64]) -> Vec<u8> {
    v.iter()
        .flat_map(|v| match kind {
            0 => (*v as i16).to_be_bytes().to_vec(),
            1 => (*v as i32).to_be_bytes().to_vec(),
            2 => (*v as f32).to_be_bytes().to_vec(),
            _ => v.to_be_bytes().to_vec(),
        })
        .collect()
}
impl Carry {
    /// `own`: numbers for the unused arrays which nothing else takes.
    fn markers(&self, m: Option<&[f64]>, offset: Option<&[f64]>, n: usize, own: &[u8]) -> Vec<u8> {
        let mct = |index: u8, ty: u16, kind: usize, v: &[f64]| {
            let mut b = vec![0, 0];
            b.extend((index as u16 | ty << 8 | (kind as u16) << 10).to_be_bytes());
            b.extend([0, 0]);
            b.extend(elements(kind, v));
            segment(0xFF74, b)
        };
        let mcc = |index: u8, d: u8, o: u8| {
            let mut b = vec![0, 0, index, 0, 0, 0, 1, 1];
            for _ in 0..2 {
                b.extend((n as u16 | (self.wide as u16) << 15).to_be_bytes());
                for c in 0..n as u16 {
                    if self.wide { b.extend(c.to_be_bytes()) } else { b.push(c as u8) }
                }
            }
            b.extend([0, o, d]);
            segment(0xFF75, b)
        };
        let mut out = vec![];
        for k in 0..self.unused.0 {
            let v: Vec<f64> = (0..n * n).map(|i| (i * 7 + k) as f64 - 9.).collect();
            out.extend(mct(own[k], 1 + (k % 2) as u16, k % 4, if k % 2 == 0 { &v } else { &v[..n] }));
        }
        let a = m.map_or(vec![], |m| mct(self.index.0, 1, self.kinds.0, m));
        let b = offset.map_or(vec![], |o| mct(self.index.1, 2, self.kinds.1, o));
        if self.offset_first {
            out.extend(b);
            out.extend(a);
        } else {
            out.extend(a);
            out.extend(b);
        }
        for k in 0..self.unused.1 {
            out.extend(mcc(own[own.len() - 1 - k], own.get(0).filter(|_| self.unused.0 > 0).map_or(0, |v| *v), 0));
        }
        out.extend(mcc(self.index.2, m.map_or(0, |_| self.index.0), offset.map_or(0, |_| self.index.1)));
        for k in self.unused.0..self.unused.0 + self.unused.2 {
            out.extend(mct(own[k], 1, 3, &vec![1e9; n * n]));
        }
        out.extend(segment(0xFF77, vec![1, self.index.2]));
        out
    }
}
/// The codestream with other transform markers: at the end of the main header, and in the first tile-part header of tile 1.
fn carry(cs: &[u8], main: &[u8], tile1: &[u8]) -> Vec<u8> {
    let mut out = cs[..2].to_vec();
    let mut p = 2;
    while be(&cs[p..p + 2]) != 0xFF90 {
        let n = 2 + be(&cs[p + 2..p + 4]) as usize;
        if !matches!(be(&cs[p..p + 2]), 0xFF74 | 0xFF75 | 0xFF77) {
            out.extend(&cs[p..p + n]);
        }
        p += n;
    }
    out.extend(main);
    while be(&cs[p..p + 2]) == 0xFF90 {
        let (tile, len) = (be(&cs[p + 4..p + 6]), be(&cs[p + 6..p + 10]) as usize);
        let add: &[u8] = if tile == 1 && cs[p + 10] == 0 { tile1 } else { &[] };
        out.extend(&cs[p..p + 6]);
        out.extend(((len + add.len()) as u32).to_be_bytes());
        out.extend(&cs[p + 10..p + 12]);
        out.extend(add);
        out.extend(&cs[p + 12..p + len]);
        p += len;
    }
    out.extend(&cs[p..]);
    out
}
/// A file of this encoder whose transform markers are written otherwise decodes to what they say.
fn carried_otherwise(n: usize, k: &Carry, given: (usize, usize), tile1: Option<(usize, usize)>, cx: &mut Cx) -> Result<(), String> {
    let comps: Vec<_> = (0..n).map(|c| [(1, 1, 8, false), (1, 1, 8, true)][c % 2]).collect();
    let img = noise((2, 1, 12, 8), &comps);
    let identity = (matrix(0, n), comps.iter().map(|c| if c.3 { 0 } else { 128 }).collect());
    let e = Enc { res: 2, custom_mct: Some(identity), extra: vec!["GUARD_BITS=4".into()], tile: Some((8, 9)), ..Enc::default() };
    let Some(b) = encoded(&img, &e, cx)? else { return Ok(()) };
    let cs = codestream(&b, false)?;
    // integers, so that every element type carries them
    let arrays = |(m, o): (usize, usize)| -> (Option<Vec<f64>>, Option<Vec<f64>>) {
        let m = match m {
            0 => None,
            v => Some((0..n * n).map(|i| ((i / n + 2 * (i % n) + v) % 5) as f64 - 2. + (i / n == i % n) as u8 as f64).collect()),
        };
        let o = match o {
            0 => None,
            v => Some((0..n).map(|i| 40. * v as f64 - 61. * i as f64).collect()),
        };
        (m, o)
    };
    let own: Vec<u8> = (1..=255).filter(|v| *v != k.index.0 && *v != k.index.1 && *v != k.index.2).collect();
    let markers = |g| {
        let (m, o) = arrays(g);
        k.markers(m.as_deref(), o.as_deref(), n, &own)
    };
    let inverse = |g| {
        let (m, offset) = arrays(g);
        let m: Option<Vec<Vec<f64>>> = m.map(|m| m.chunks(n).map(|r| r.to_vec()).collect());
        let m = m.unwrap_or_else(|| (0..n).map(|i| (0..n).map(|j| (i == j) as u8 as f64).collect()).collect());
        Inverse { m, offset: offset.unwrap_or(vec![0.; n]), depths: vec![] }
    };
    let new = carry(&cs, &markers(given), &tile1.map_or(vec![], |g| markers(g)));
    let s = Codestream::parse(&new, true)?;
    let tiles: Vec<_> = s.packets(&new, false, u32::MAX)?.into_iter().map(|t| (t.tile, t.state, t.params)).collect();
    cx.evaluations(1);
    for reduce in 0..2 {
        let raw = assemble(&s.siz, &tiles, reduce, false)?;
        let mut want = raw_to_image(&raw, &s.siz, &inverse(given));
        if let Some(g) = tile1 {
            let other = raw_to_image(&raw, &s.siz, &inverse(g));
            for c in 0..n {
                let r = want[c].r;
                // tile 1 begins at column 8
                let from = 8u32.div_ceil(1 << reduce);
                for (i, v) in want[c].v.iter_mut().enumerate() {
                    if r.x0 as u32 + (i % r.w()) as u32 >= from {
                        *v = other[c].v[i];
                    }
                }
            }
        }
        let o = crate::driver::decode(&new, &Dec { reduce, ..Dec::default() }).map_err(|r| format!("reduced by {reduce}: {r}"))?;
        for c in 0..n {
            lay::agree_within(c, &o.comps[c], &s.siz.comps[c], &want[c], reduce, 0.05).map_err(|r| format!("reduced by {reduce}: {r}"))?;
        }
    }
    cx.outcome(hash_bytes(&new));
    Ok(())
}
pub fn c26(tier: Tier) -> Check {
    let mut c = Check::new("C26", "exploration").counter("refused").counter("refusals demanded");
    let deep = tier == Tier::Thorough;
    // all small matrices
    let span: i64 = if deep { 7 } else { 5 };
    let n2 = (span as u64).pow(4);
    c = c.with(space(
        "matrices2",
        &format!("every 2x2 matrix of integers within {}, three offset pairs, 1 and 2 resolutions", span / 2),
        n2,
        move |i| format!("{:?}", mixed(i, &[span as usize; 4])),
        move |i, cx| {
            let m: Vec<f32> = mixed(i, &[span as usize; 4]).iter().map(|v| (*v as i64 - span / 2) as f32).collect();
            for offset in [vec![128, 128], vec![0, 0], vec![-5, 300]] {
                for res in 1..=2 {
                    let e = Enc { res, custom_mct: Some((m.clone(), offset.clone())), extra: vec!["GUARD_BITS=7".into()], ..Enc::default() };
                    custom(&Custom { img: noise((1, 0, 6, 4), &[(1, 1, 8, false); 2]), e, views: true }, cx).map_err(|w| format!("{m:?} {offset:?} {res}: {w}"))?;
                }
            }
            Ok(())
        },
    ));
    let alphabet: &'static [i64] = if deep { &[-1, 0, 1, 2] } else { &[-1, 0, 1] };
    let k = alphabet.len();
    let n3 = (k as u64).pow(9);
    c = c.with(space(
        "matrices3",
        &format!("every 3x3 matrix over {alphabet:?}, unsigned 8 bits"),
        n3.div_ceil(32),
        move |i| format!("matrices from {}", i * 32),
        move |i, cx| {
            for q in i * 32..((i + 1) * 32).min(n3) {
                let m: Vec<f32> = mixed(q, &[k; 9]).iter().map(|v| alphabet[*v] as f32).collect();
                let e = Enc { res: 1 + (q % 2) as i32, custom_mct: Some((m.clone(), vec![128, 100, 0])), extra: vec!["GUARD_BITS=7".into()], ..Enc::default() };
                custom(&Custom { img: noise((0, 0, 4, 3), &[(1, 1, 8, false); 3]), e, views: false }, cx).map_err(|w| format!("{m:?}: {w}"))?;
            }
            Ok(())
        },
    ));
    // any number of components
    let counts: Vec<usize> = if deep { (1..=40).chain([64, 100, 126, 127, 128, 129, 200]).collect() } else { (1..=9).chain([16, 33, 127, 128, 129]).collect() };
    let rad = [counts.len(), KINDS, 3, 4];
    c = c.with(space(
        "numbers",
        "one to nine and up to 129 components (200 in the thorough tier) with six families of matrices, unsigned 8, signed 12 and mixed precisions, four images",
        product(&rad),
        move |i| format!("{:?}", mixed(i, &rad)),
        move |i, cx| {
            let d = mixed(i, &rad);
            let n = counts[d[0]];
            if n > 40 && d[3] > 0 {
                return Ok(());
            }
            let comps: Vec<_> = (0..n).map(|c| match d[2] {
                0 => (1, 1, 8, false),
                1 => (1, 1, 12, true),
                _ => [(1, 1, 8, false), (1, 1, 10, true), (1, 1, 5, false), (1, 1, 16, true)][c % 4],
            }).collect();
            let area = [(0, 0, 5, 4), (3, 1, 20, 18), (7, 7, 8, 30), (0, 1, 33, 4)][d[3]];
            let res = [2, 3, 1, 2][d[3]];
            let offset: Vec<i32> = comps.iter().enumerate().map(|(c, k)| if k.3 { c as i32 * 3 } else { 1 << (k.2 - 1) }).collect();
            let e = Enc { res, custom_mct: Some((matrix(d[1], n), offset)), extra: vec!["GUARD_BITS=5".into()], tile: if d[3] == 1 { Some((9, 8)) } else { None }, ..Enc::default() };
            custom(&Custom { img: noise(area, &comps), e, views: n <= 40 }, cx)
        },
    ));
    // with everything else the encoder can do
    let depth = if deep { 2 } else { 1 };
    let l: Vec<_> = (0..4).flat_map(|b| conf::around(b, depth)).filter(|v| conf::build(v, true).is_some()).collect();
    let l = Rc::new(l);
    let l2 = l.clone();
    let rad = [l.len(), KINDS];
    c = c.with(space(
        "configurations",
        &format!("every configuration within {depth} deviations of four bases in the 18-parameter encoder grid (components of different sizes must be refused) with six families of matrices"),
        product(&rad),
        move |i| {
            let d = mixed(i, &rad);
            format!("{} matrix {}", conf::show(&l2[d[0]]), d[1])
        },
        move |i, cx| {
            let d = mixed(i, &rad);
            let (img, mut e) = conf::build(&l[d[0]], true).unwrap();
            let n = img.comps.len();
            e.mct = 2;
            e.custom_mct = Some((matrix(d[1], n), img.comps.iter().map(|k| if k.sgnd { 7 } else { 1 << (k.prec - 1) }).collect()));
            if !e.extra.iter().any(|s| s.starts_with("GUARD")) {
                e.extra.push("GUARD_BITS=4".into());
            }
            let prec = img.comps.iter().map(|c| c.prec).max().unwrap();
            if prec + 4 + 4 + e.roi.map_or(0, |r| r.1 as u32) > 31 || e.rates.last().map_or(false, |r| *r > 1.) || e.distos.last().map_or(false, |d| *d > 0.) {
                return Ok(());
            }
            let views = !e.pocs.iter().any(|_| true);
            custom(&Custom { img, e, views }, cx)
        },
    ));
    let rad = [4, 4, 4, 5, 3, 2, 2, 2, 3];
    c = c.with(space(
        "carriage",
        "files whose transform markers are rewritten: element types of matrix and offsets, four sets of indices, 0, 1, 9, 10, 11 unused arrays and 0, 9, 11 unused collections before, 0, 8, 20 unused arrays behind, narrow and wide component numbers, either order of the arrays, 2 and 3 components",
        product(&rad),
        move |i| format!("{:?}", mixed(i, &rad)),
        move |i, cx| {
            let d = mixed(i, &rad);
            let k = Carry {
                kinds: (d[0], d[1]),
                index: [(1, 2, 3), (255, 254, 1), (7, 8, 7), (2, 1, 255)][d[2]],
                unused: ([0, 1, 9, 10, 11][d[3]], [0, 9, 11][d[4]], [0, 8, 20][d[8]]),
                wide: d[5] == 1,
                offset_first: d[6] == 1,
            };
            carried_otherwise(2 + d[7], &k, (1, 2), None, cx)
        },
    ));
    let rad = [4, 4, 5, 4, 2, 5, 4];
    c = c.with(space(
        "places",
        "transforms of the main header, with and without matrix and offsets, and others in a tile-part header, one to five components",
        product(&rad),
        move |i| format!("{:?}", mixed(i, &rad)),
        move |i, cx| {
            let d = mixed(i, &rad);
            let k = Carry { kinds: (2, 2), index: (1, 2, 3), unused: ([0, 9, 10, 0][d[6]], 0, if d[6] == 3 { 20 } else { 0 }), wide: false, offset_first: d[4] == 1 };
            carried_otherwise(1 + d[5], &k, (d[0], d[1]), if d[2] == 4 { None } else { Some((d[2], d[3])) }, cx)
        },
    ));
    c.assume("The reference decoder (written from ISO/IEC 15444-1 and, for the component transform, 15444-2) is right.")
        .assume("Matrices whose output needs more bits than the guard bits leave room for may be refused while encoding; the matrices here have room.")
}
