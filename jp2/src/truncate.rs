//! C20: files that end too early.

use crate::driver::*;
use crate::jp2box;
use crate::lay;
use crate::refj2k::{self, OutComp, Rect, Sample, Siz, TComp, TileComp, TilePackets, TilePart};
use crate::views::*;
use mck::*;
use openjp2::openjpeg::*;
use std::collections::BTreeMap;
use std::rc::Rc;

/// Whether a value depends on coefficients that are not known. 5/3: two lifting steps, 9/7: four.
#[derive(Clone, Copy, Default, PartialEq, Debug)]
struct Taint<const STEPS: usize>(bool);
impl<const STEPS: usize> Sample for Taint<STEPS> {
    fn inverse(v: &mut [Self], i0: i64) {
        for step in 0..STEPS {
            for i in 0..v.len() {
                if (i as i64 + i0 + step as i64) & 1 == 0 {
                    v[i].0 |= i > 0 && v[i - 1].0 || i + 1 < v.len() && v[i + 1].0;
                }
            }
        }
    }
    fn forward(_: &mut [Self], _: i64) {
        unreachable!()
    }
}
fn taint_band<const S: usize>(t: &TComp, r: usize, b: usize, bad: &[(usize, usize)]) -> (Rect, Vec<Taint<S>>) {
    let band = &t.res[r].bands[b];
    let w = band.r.w();
    let mut a = vec![Taint(false); w * band.r.h()];
    for &(_, k) in bad.iter().filter(|x| x.0 == r) {
        for cb in &t.res[r].precs[k].bands[b].cblks {
            for y in cb.r.y0..cb.r.y1 {
                for x in cb.r.x0..cb.r.x1 {
                    a[(y - band.r.y0) as usize * w + (x - band.r.x0) as usize] = Taint(true);
                }
            }
        }
    }
    (band.r, a)
}
/// Samples of a tile-component at a reduction that depend on precincts (resolution, number).
fn taint_comp<const S: usize>(t: &TComp, p: &TileComp, reduce: u32, bad: &[(usize, usize)]) -> (Rect, Vec<bool>) {
    let (mut r, mut ll) = taint_band::<S>(t, 0, 0, bad);
    for k in 1..=(p.cod.levels - reduce) as usize {
        let bands: Vec<_> = (0..3).map(|b| taint_band::<S>(t, k, b, bad)).collect();
        ll = refj2k::synthesize(t.res[k].r, &ll, r, &bands);
        r = t.res[k].r;
    }
    (r, ll.into_iter().map(|x| x.0).collect())
}

/// What is known of an image of which some bytes are there.
struct Known {
    comps: Vec<OutComp>,
    /// samples that are not determined
    open: Vec<Vec<bool>>,
    /// samples that may be missing: of tiles that are not complete
    missing: Vec<Vec<bool>>,
    complete: bool,
    packets: usize,
}
/// How many bytes of a codestream of which `n` are there are read: tile-parts of unspecified length end before the EOC marker.
fn readable(parts: &[TilePart], n: usize) -> usize {
    match parts.last() {
        Some(p) if p.psot == 0 && n > p.start => n.saturating_sub(2).max(p.start),
        _ => n,
    }
}
fn known(k: &Code, tp: Vec<TilePackets>, reduce: u32) -> Result<Known, String> {
    let packets = tp.iter().map(|t| t.packets.len()).sum();
    let complete = tp.iter().all(|t| t.complete);
    let mut bad: Vec<Vec<Vec<(usize, usize)>>> = vec![];
    for t in &tp {
        let mut b = vec![vec![]; k.siz.comps.len()];
        let n = if t.packed { t.rest.len() } else if t.partial { 1 } else { 0 };
        for id in &t.rest[..n] {
            b[id.0].push((id.1, id.2));
        }
        bad.push(b);
    }
    let whole: Vec<bool> = tp.iter().map(|t| t.complete).collect();
    let mut tiles: Vec<_> = tp.into_iter().map(|t| (t.tile, t.state, t.params)).collect();
    for ((_, t, _), b) in tiles.iter_mut().zip(&bad) {
        for (c, l) in b.iter().enumerate() {
            for &(r, k) in l {
                for cb in t.comps[c].res[r].precs[k].bands.iter_mut().flat_map(|b| &mut b.cblks) {
                    *cb = refj2k::Cblk { r: cb.r, ..Default::default() };
                }
            }
        }
    }
    let comps = refj2k::assemble(&k.siz, &tiles, reduce, true)?;
    let mut open: Vec<Vec<bool>> = comps.iter().map(|o| vec![false; o.v.len()]).collect();
    let mut missing = open.clone();
    for (i, (_, t, p)) in tiles.iter().enumerate() {
        let mut planes: Vec<(Rect, Vec<bool>)> = (0..comps.len())
            .map(|c| if p.comps[c].cod.reversible { taint_comp::<2>(&t.comps[c], &p.comps[c], reduce, &bad[i][c]) } else { taint_comp::<4>(&t.comps[c], &p.comps[c], reduce, &bad[i][c]) })
            .collect();
        if p.mct == 1 {
            let all: Vec<bool> = (0..planes[0].1.len()).map(|j| (0..3).any(|c| planes[c].1[j])).collect();
            for c in 0..3 {
                planes[c].1 = all.clone();
            }
        }
        for (c, (r, v)) in planes.into_iter().enumerate() {
            let o = &comps[c];
            for y in r.y0..r.y1 {
                for x in r.x0..r.x1 {
                    let at = (y - o.r.y0) as usize * o.r.w() + (x - o.r.x0) as usize;
                    open[c][at] = v[(y - r.y0) as usize * r.w() + (x - r.x0) as usize];
                    missing[c][at] = !whole[i];
                }
            }
        }
    }
    Ok(Known { comps, open, missing, complete, packets })
}
/// One component of what was decoded of the first bytes.
fn fits(c: usize, d: &Comp, siz: &Siz, k: &Known, win: Rect, reduce: u32) -> Result<(), String> {
    let flag = |v: &Vec<bool>| crop(&OutComp { v: v.iter().map(|b| *b as u8 as f64).collect(), ..k.comps[c].clone() }, siz, c, win, reduce).v;
    let mut e = crop(&k.comps[c], siz, c, win, reduce);
    let w = siz.on_comp(win, c);
    if (d.x0 as i64, d.y0 as i64) != (w.x0, w.y0) {
        return Err(format!("component {c} starts at {:?}, the area at {:?}", (d.x0, d.y0), (w.x0, w.y0)));
    }
    let Some(have) = &d.data else {
        return if e.r.empty() { Ok(()) } else { Err(format!("component {c}: no samples")) };
    };
    let (lo, hi) = range(siz.comps[c].prec, siz.comps[c].sgnd);
    let (open, missing) = (flag(&k.open[c]), flag(&k.missing[c]));
    if have.len() == e.v.len() {
        for (i, &v) in have.iter().enumerate() {
            if open[i] != 0. || missing[i] != 0. && v == 0 {
                if (v as i64) < lo || v as i64 > hi {
                    return Err(format!("component {c}: sample {i} is {v}, out of range"));
                }
                e.v[i] = v as f64;
            }
        }
    }
    if e.r.empty() {
        if d.w != 0 && d.h != 0 {
            return Err(format!("component {c} holds something"));
        }
        return Ok(());
    }
    lay::agree_comp(c, d, &siz.comps[c], &e, reduce)
}
struct Cut {
    k: Code,
    jp2: bool,
    bytes: Vec<u8>,
    /// where the codestream starts in the file
    head: usize,
    cache: BTreeMap<(Vec<(usize, bool, bool)>, u32), Rc<Known>>,
}
impl Cut {
    fn new(k: Code, jp2: bool) -> Cut {
        let bytes = if jp2 { jp2box::wrap(&k.bytes, &k.siz) } else { k.bytes.clone() };
        let head = bytes.len() - k.bytes.len();
        Cut { k, jp2, bytes, head, cache: BTreeMap::new() }
    }
    /// What is known of the first bytes, at the end of which reading may fail.
    fn known(&mut self, n: usize, fail: bool, reduce: u32) -> Result<Rc<Known>, String> {
        let n = if fail { n } else { readable(&self.k.cs.parts, n) };
        let tp = self.k.cs.packets_until(&self.k.bytes, true, u32::MAX, n)?;
        let key = (tp.iter().map(|t| (t.packets.len(), t.partial, t.complete)).collect(), reduce);
        if let Some(v) = self.cache.get(&key) {
            return Ok(v.clone());
        }
        let v = Rc::new(known(&self.k, tp, reduce)?);
        self.cache.insert(key, v.clone());
        Ok(v)
    }
    /// The end of the first tile-part's header.
    fn data_starts(&self) -> usize {
        self.k.cs.parts[0].body
    }
    fn end_of_data(&self) -> usize {
        self.k.cs.parts.last().unwrap().end
    }
    /// The number of tile-parts of some tile of which there is something is not declared, and the end comes where a tile-part would start.
    fn unknown(&self, n: usize) -> bool {
        let there: Vec<&TilePart> = self.k.cs.parts.iter().filter(|p| p.end <= n).collect();
        there.iter().any(|p| (p.end..p.end + 2).contains(&n)) && there.iter().any(|p| !there.iter().any(|q| q.tile == p.tile && q.count > 0))
    }
    /// Some component has no sample in the part inside the window of the tiles of which there is something.
    fn without(&self, n: usize, win: Rect) -> bool {
        (0..self.k.siz.comps.len()).any(|c| !self.k.cs.parts.iter().any(|p| p.body <= n && !self.k.siz.on_comp(self.k.siz.tile(p.tile).meet(win), c).empty()))
    }
    /// The last of the bytes are those of the last tile-part of its tile.
    fn in_last(&self, n: usize) -> bool {
        self.k.cs.parts.iter().enumerate().any(|(i, p)| n > p.body && n < p.end && !self.k.cs.parts[i + 1..].iter().any(|q| q.tile == p.tile))
    }
}
/// Which variants of a length are tried: strict, reading fails, in a window.
fn variants(n: usize, head: usize, window: bool, tier: Tier) -> Vec<(bool, bool, bool)> {
    let mut v = vec![(true, false, false), (false, false, false)];
    if tier == Tier::Thorough || n & 1 == 0 {
        v.push((false, true, false));
    }
    if window && (tier == Tier::Thorough || n & 1 == 1) {
        v.push((false, false, true));
    }
    if n > head + 150 {
        v.truncate(0);
    }
    v
}
/// Every length of a file.
fn prefixes(v: &[usize; 26], tier: Tier, cx: &mut Cx) -> Result<(), String> {
    for jp2 in [false, true] {
        let Some(k) = code(v, 0, cx)? else { return Ok(()) };
        let siz = k.siz.clone();
        let area = siz.area();
        let full = k.image(0, true)?;
        let mut cut = Cut::new(k, jp2);
        let psot0 = cut.k.cs.parts.last().unwrap().psot == 0;
        let win = Rect { x0: area.x0 + 2, y0: area.y0 + 1, x1: area.x1 - 1, y1: area.y1 - 3 };
        let win = if nothing(&cut.k, &full, win, 0) { area } else { win };
        for n in 0..cut.bytes.len() {
            let at = n as i64 - cut.head as i64;
            {
                {
                    // how the end shows: the stream is known to be short, or reading fails
                    for (strict, fail, in_window) in variants(n, if jp2 { cut.head } else { usize::MAX - 150 }, win != area, tier) {
                        let w = if in_window { win } else { area };
                        cx.evaluations(1);
                        let what = |e: String| format!("{n} of {} bytes{}, window {w:?}, strict {strict}{}: {e}", cut.bytes.len(), if jp2 { " of a JP2 file" } else { "" }, if fail { ", then reading fails" } else { "" });
                        let io = if fail { Io { data: cut.bytes.clone(), cut: Some(n), ..Io::default() } } else { Io { data: cut.bytes[..n].to_vec(), ..Io::default() } };
                        let s = Stream::input(io, 4096);
                        let d = Dec { jp2, strict, area: (w != area).then_some((w.x0 as i32, w.y0 as i32, w.x1 as i32, w.y1 as i32)), no_end: true, ..Dec::default() };
                        let r = decode_from(&s, &d);
                        if let Some(m) = &s.io.as_ref().unwrap().misuse {
                            return Err(what(m.clone()));
                        }
                        let i = match r {
                            Ok(i) => i,
                            Err(e) => {
                                if at >= cut.end_of_data() as i64 && !strict && !psot0 && !fail {
                                    return Err(what(format!("{e} although all data is there")));
                                }
                                if at >= 0 && !strict && !fail && !psot0 && cut.in_last(at as usize) && !cut.without(at as usize, w) {
                                    return Err(what(format!("{e} although not strict")));
                                }
                                cx.add("refused", 1);
                                continue;
                            }
                        };
                        if at < cut.data_starts() as i64 {
                            return Err(what("success without any data".into()));
                        }
                        if (i.x0 as i64, i.y0 as i64, i.x1 as i64, i.y1 as i64) != (w.x0, w.y0, w.x1, w.y1) || i.comps.len() != siz.comps.len() {
                            return Err(what("another geometry".into()));
                        }
                        if strict && !psot0 && !(at < cut.end_of_data() as i64 && cut.unknown(at as usize)) {
                            if at < cut.end_of_data() as i64 {
                                return Err(what("success although data is missing".into()));
                            }
                            cx.add("complete", 1);
                            whole(&i, &siz, &full, w, 0).map_err(what)?;
                            continue;
                        }
                        let k = cut.known(at as usize, fail, 0)?;
                        let what = |e: String| format!("{n} of {} bytes{}, window {w:?}, strict {strict}{}, {} packets: {e}", cut.bytes.len(), if jp2 { " of a JP2 file" } else { "" }, if fail { ", then reading fails" } else { "" }, k.packets);
                        cx.add("decoded", 1);
                        if k.complete {
                            cx.add("complete", 1);
                        }
                        for (c, d) in i.comps.iter().enumerate() {
                            fits(c, d, &siz, &k, w, 0).map_err(what)?;
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
/// Each deviation from one of the bases, or from every one.
pub fn rotated(tier: Tier) -> Vec<[usize; 26]> {
    if tier == Tier::Thorough {
        return neighbours(1);
    }
    let n = lay::BASES.len();
    let mut v: Vec<[usize; 26]> = (0..n).flat_map(|b| lay::around(b, 1).into_iter().enumerate().filter(move |x| x.0 % n == b).map(|x| x.1)).collect();
    v.extend((0..n).flat_map(|b| lay::around(b, 0)));
    v.sort();
    v.dedup();
    v
}
pub fn c20(tier: Tier) -> Check {
    let configs = rotated(tier);
    Check::new("C20", "fault_enumeration")
        .counter("not legal")
        .counter("not expressible")
        .counter("refused")
        .counter("decoded")
        .counter("complete")
        .with(code_space("prefixes", "every proper prefix: strict or not, the end known or reading failing there (quick: at even lengths), whole and in a window (quick: at odd lengths)", configs, move |v, cx| prefixes(v, tier, cx)))
}
