//! Encoder configurations as points of a finite parameter grid.

use crate::driver::*;
use mck::mix64;

pub const AREAS: &[(u32, u32, u32, u32)] = &[(0, 0, 20, 17), (3, 5, 24, 22), (0, 0, 1, 1), (7, 2, 8, 19), (1, 1, 18, 2), (0, 0, 33, 35), (13, 11, 64, 50)];
/// (dx, dy, precision, signed) of each component
pub fn comps(i: usize) -> Vec<(u32, u32, u32, bool)> {
    match i {
        0 => vec![(1, 1, 8, false)],
        1 => vec![(1, 1, 8, false); 3],
        2 => vec![(1, 1, 8, false), (2, 1, 8, false), (2, 2, 8, false)],
        3 => vec![(1, 2, 12, true), (1, 1, 8, false)],
        4 => vec![(1, 1, 1, false)],
        5 => vec![(1, 1, 16, false); 4],
        6 => vec![(2, 3, 5, true)],
        7 => vec![(1, 1, 16, true), (3, 1, 9, true)],
        8 => vec![(1, 1, 24, false)],
        9 => vec![(1, 1, 12, true); 3],
        _ => unreachable!(),
    }
}
pub const NCOMPS: usize = 10;
pub const TILES: &[(Option<(i32, i32)>, (i32, i32))] = &[(None, (0, 0)), (Some((16, 16)), (0, 0)), (Some((9, 7)), (0, 0)), (Some((11, 30)), (1, 1)), (Some((33, 8)), (0, 1))];
pub const RES: &[i32] = &[3, 1, 2, 5, 6];
pub const CBS: &[(i32, i32)] = &[(64, 64), (4, 4), (8, 16), (4, 64), (32, 8)];
pub const MODES: &[i32] = &[0, 1, 2, 4, 8, 16, 32, 5, 63];
pub const PROGS: &[i32] = &[0, 1, 2, 3, 4];
pub const CSTYS: &[i32] = &[0, 2, 4, 6];
pub fn precincts(i: usize) -> Vec<(i32, i32)> {
    match i {
        0 => vec![],
        1 => vec![(16, 16)],
        2 => vec![(32, 8), (8, 16), (8, 8)],
        3 => vec![(4, 4)],
        4 => vec![(128, 128), (8, 8)],
        _ => unreachable!(),
    }
}
pub const NPREC: usize = 5;
/// (layers, rates, distortion targets, by quality)
pub fn layers(i: usize) -> (i32, Vec<f32>, Vec<f32>, bool) {
    match i {
        0 => (0, vec![], vec![], false),
        1 => (1, vec![0.], vec![], false),
        2 => (2, vec![8., 0.], vec![], false),
        3 => (3, vec![20., 5., 0.], vec![], false),
        4 => (3, vec![], vec![20., 30., 0.], true),
        5 => (2, vec![], vec![25., 0.], true),
        _ => unreachable!(),
    }
}
pub const NLAYERS: usize = 6;
pub const ROIS: &[Option<(i32, i32)>] = &[None, Some((0, 3)), Some((0, 11))];
pub const EXTRAS: &[&[&str]] = &[&[], &["PLT=YES"], &["TLM=YES"], &["PLT=YES", "TLM=YES"], &["GUARD_BITS=7"], &["GUARD_BITS=3"]];
pub const TPS: &[Option<u8>] = &[None, Some(b'R'), Some(b'L'), Some(b'C')];
/// Progression-order changes for every tile.
pub fn pocs(i: usize, tiles: u32, nc: u32, res: u32, layers: u32) -> Vec<PocSpec> {
    let mut v = vec![];
    for t in 0..tiles {
        let p = |res0, comp0, lay1, res1, comp1, prog| PocSpec { tile: t + 1, res0, comp0, lay1, res1, comp1, prog };
        match i {
            0 => {}
            // the lower resolutions first
            1 => v.extend([p(0, 0, layers, 1, nc, 0), p(1, 0, layers, res, nc, 1)]),
            // components one after the other
            2 => v.extend([p(0, 0, layers, res, 1, 4), p(0, 0, layers, res, nc, 2)]),
            // the first layer first
            3 => v.extend([p(0, 0, 1, res, nc, 3), p(0, 0, layers, res, nc, 0)]),
            _ => unreachable!(),
        }
    }
    v
}
pub const NPOCS: usize = 4;
pub const NPATTERNS: usize = 7;
pub fn pattern(k: usize, c: usize, x: u32, y: u32, lo: i64, hi: i64) -> i64 {
    let span = (hi - lo) as u64 + 1;
    let h = mix64(((c as u64) << 40) ^ ((x as u64) << 20) ^ y as u64 ^ 0x1234);
    match k {
        0 => lo + (h % span) as i64,
        1 => lo + ((x as i64 * 3 + y as i64 * 5 + c as i64 * 17) * (hi - lo) / 255).rem_euclid(span as i64),
        2 => if (x + y + c as u32) % 2 == 0 { lo } else { hi },
        3 => hi,
        4 => if (x, y) == (3, 4) { hi } else { (lo + hi + 1) / 2 },
        5 => if h & 7 == 0 { lo } else { hi },
        6 => lo,
        _ => unreachable!(),
    }
}

/// Radices of a configuration: area, components, tiles, resolutions, code-blocks, mode, progression,
/// SOP/EPH, precincts, layers, ROI, MCT, extras, tile-parts, POC, container, pattern, buffer
pub const RADICES: [usize; 18] = [AREAS.len(), NCOMPS, TILES.len(), RES.len(), CBS.len(), MODES.len(), PROGS.len(), CSTYS.len(), NPREC, NLAYERS, ROIS.len(), 2, EXTRAS.len(), TPS.len(), NPOCS, 2, NPATTERNS, 2];
pub const NAMES: [&str; 18] = ["area", "comps", "tiles", "res", "cb", "mode", "prog", "csty", "prec", "layers", "roi", "mct", "extra", "tp", "poc", "jp2", "pattern", "buf"];
/// Starting points whose neighbourhoods are explored.
pub const BASES: &[[usize; 18]] = &[
    [0; 18],
    // three components with transform, tiles, layers, precincts
    [1, 1, 1, 0, 2, 0, 2, 3, 1, 3, 0, 1, 3, 0, 0, 1, 1, 0],
    // sub-sampled and tiled with an offset, position progression
    [1, 2, 3, 2, 1, 5, 3, 1, 2, 2, 0, 0, 0, 1, 0, 0, 0, 1],
    // signed, all block styles, POC
    [5, 9, 2, 0, 3, 8, 4, 2, 3, 4, 0, 1, 2, 0, 1, 0, 2, 0],
];
/// Points within `t` deviations of base `b`.
pub fn around(b: usize, t: usize) -> Vec<[usize; 18]> {
    mck::deviations(&RADICES, t)
        .into_iter()
        .map(|d| {
            let mut v = [0; 18];
            for k in 0..18 {
                v[k] = (BASES[b][k] + d[k]) % RADICES[k];
            }
            v
        })
        .collect()
}
pub fn show(v: &[usize]) -> String {
    NAMES.iter().zip(v).filter(|x| *x.1 != 0).map(|(n, i)| format!("{n}{i}")).collect::<Vec<_>>().join(".")
}
pub fn image(v: &[usize; 18]) -> Img {
    Img::new(AREAS[v[0]], &comps(v[1])).fill(|c, x, y, lo, hi| pattern(v[16], c, x, y, lo, hi))
}
pub fn ntiles(img: &Img, e: &Enc) -> u32 {
    match e.tile {
        None => 1,
        Some((w, h)) => ceil_div(img.x1 - e.tile_origin.0 as u32, w as u32) * ceil_div(img.y1 - e.tile_origin.1 as u32, h as u32),
    }
}
/// None: not a legal configuration.
pub fn build(v: &[usize; 18], irreversible: bool) -> Option<(Img, Enc)> {
    let img = image(v);
    let (layers, rates, distos, fixed_quality) = layers(v[9]);
    let mut e = Enc {
        jp2: v[15] == 1,
        tile: TILES[v[2]].0,
        tile_origin: TILES[v[2]].1,
        res: RES[v[3]],
        cb: CBS[v[4]],
        mode: MODES[v[5]],
        prog: PROGS[v[6]],
        csty: CSTYS[v[7]],
        prec: precincts(v[8]),
        layers,
        rates,
        distos,
        fixed_quality,
        roi: ROIS[v[10]],
        mct: v[11] as i8,
        extra: EXTRAS[v[12]].iter().map(|s| s.to_string()).collect(),
        tp: TPS[v[13]],
        bufsize: [1 << 16, 7][v[17]],
        irreversible,
        ..Enc::default()
    };
    // every component needs a sample
    if img.comps.iter().any(|c| c.w == 0 || c.h == 0) {
        return None;
    }
    // the tile grid: the first tile must meet the image (B-5)
    if let Some((w, h)) = e.tile {
        let (ox, oy) = e.tile_origin;
        if ox as u32 > img.x0 || oy as u32 > img.y0 || (ox + w) as u32 <= img.x0 || (oy + h) as u32 <= img.y0 {
            return None;
        }
    }
    // the encoder demands that every decomposition level halves the tile
    let (tw, th) = e.tile.unwrap_or((img.x1 as i32 - e.tile_origin.0, img.y1 as i32 - e.tile_origin.1));
    if tw < 1 << (e.res - 1) || th < 1 << (e.res - 1) {
        return None;
    }
    // a progression change needs a resolution
    if v[14] == 1 && e.res == 1 {
        return None;
    }
    if e.mct == 1 {
        // the component transform needs three alike
        if img.comps.len() < 3 || img.comps[1..3].iter().any(|c| (c.dx, c.dy, c.prec, c.sgnd) != (img.comps[0].dx, img.comps[0].dy, img.comps[0].prec, img.comps[0].sgnd)) {
            return None;
        }
    }
    // no magnitude may need more than 31 bit-planes
    let guard = e.extra.iter().find_map(|s| s.strip_prefix("GUARD_BITS=").map(|n| n.parse::<u32>().unwrap())).unwrap_or(2);
    let prec = img.comps.iter().map(|c| c.prec).max().unwrap();
    if prec + 2 + e.mct as u32 + guard - 1 + e.roi.map_or(0, |r| r.1 as u32) > 31 {
        return None;
    }
    if v[14] > 0 {
        e.pocs = pocs(v[14], ntiles(&img, &e), img.comps.len() as u32, e.res as u32, layers.max(1) as u32);
        if e.pocs.len() > 32 {
            return None;
        }
    }
    Some((img, e))
}
/// Configurations the encoder may refuse while encoding: its output buffer is estimated from the
/// number of samples and does not allow for a large overhead of packets and terminations.
pub fn demanding(img: &Img, e: &Enc) -> bool {
    let overhead = e.mode & 5 != 0 || e.prec.iter().any(|p| p.0.min(p.1) < 32) || e.cb.0 * e.cb.1 < 64;
    // tile-parts split below the position level
    let split = e.tp.is_some() && e.prog >= 2;
    // markers around the packets of many layers
    let marked = e.layers > 50 && e.csty & 6 != 0;
    overhead || split || marked || empty_tile(img, e)
}
/// Coefficients may need more bits than the coder or the guard bits have room for.
pub fn overflowing(img: &Img, e: &Enc) -> bool {
    let guard = e.extra.iter().find_map(|s| s.strip_prefix("GUARD_BITS=").map(|n| n.parse::<u32>().unwrap())).unwrap_or(2);
    guard < 2 || img.comps.iter().any(|k| k.prec + if e.irreversible { e.res as u32 - 1 } else { e.mct as u32 } > 24)
}
/// A tile may need more than the 255 tile-parts it can have.
pub fn many_parts(img: &Img, e: &Enc) -> bool {
    if e.tp.is_none() {
        return false;
    }
    let (mut w, mut h) = (img.x1 - img.x0, img.y1 - img.y0);
    if let Some((a, b)) = e.tile {
        (w, h) = (w.min(a as u32), h.min(b as u32));
    }
    let mut n = 0;
    for r in 0..e.res as u32 {
        let k = if e.prec.is_empty() { (1 << 15, 1 << 15) } else { e.prec[(r as usize).min(e.prec.len() - 1)] };
        let s = r.saturating_sub(e.prec.len() as u32 - (!e.prec.is_empty()) as u32);
        n += ((w >> r) / (k.0 as u32 >> s).max(1) + 2) * ((h >> r) / (k.1 as u32 >> s).max(1) + 2);
    }
    n * img.comps.len() as u32 * e.layers.max(1) as u32 > 255
}
/// Some tile has no sample of any component.
pub fn empty_tile(img: &Img, e: &Enc) -> bool {
    let Some((w, h)) = e.tile else { return false };
    let (w, h) = (w as u32, h as u32);
    let (ox, oy) = (e.tile_origin.0 as u32, e.tile_origin.1 as u32);
    let mut y = oy;
    while y < img.y1 {
        let mut x = ox;
        while x < img.x1 {
            let (a, b, c, d) = (x.max(img.x0), y.max(img.y0), (x + w).min(img.x1), (y + h).min(img.y1));
            if img.comps.iter().all(|k| ceil_div(a, k.dx) >= ceil_div(c, k.dx) || ceil_div(b, k.dy) >= ceil_div(d, k.dy)) {
                return true;
            }
            x += w;
        }
        y += h;
    }
    false
}
