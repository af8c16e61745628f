//! C13 to C17: partial decodes (windows, tiles, resolutions, components, layers) against the reference decoder.

use crate::driver::*;
use crate::lay;
use crate::refj2k::{self, Codestream, OutComp, Rect, Siz, Tile, TileParams};
use mck::*;
use openjp2::openjpeg::*;
use std::rc::Rc;

/// A generated codestream and what it holds.
pub struct Code {
    pub bytes: Vec<u8>,
    pub siz: Siz,
    pub cs: Codestream,
    pub tiles: Vec<(u32, Tile, TileParams)>,
}
impl Code {
    pub fn parse(bytes: Vec<u8>, layers: u32) -> Result<Code, String> {
        let s = Codestream::parse(&bytes, true)?;
        let tp = s.packets(&bytes, false, if layers == 0 { u32::MAX } else { layers })?;
        Ok(Code { siz: s.siz.clone(), tiles: tp.into_iter().map(|t| (t.tile, t.state, t.params)).collect(), cs: s, bytes })
    }
    pub fn image(&self, reduce: u32, mct: bool) -> Result<Vec<OutComp>, String> {
        refj2k::assemble(&self.siz, &self.tiles, reduce, mct)
    }
    /// The largest reduction every tile-component has.
    pub fn levels(&self) -> u32 {
        self.tiles.iter().flat_map(|t| t.2.comps.iter().map(|c| c.cod.levels)).min().unwrap()
    }
    /// The largest reduction every coding style of the file has, be it in effect or not.
    pub fn declared_levels(&self) -> u32 {
        let of = |o: &refj2k::Overrides| o.cod.iter().map(|c| c.comp.levels).chain(o.coc.values().map(|c| c.levels)).min().unwrap_or(33);
        std::iter::once(&self.cs.main).chain(self.cs.tiles.values()).map(of).min().unwrap().min(self.levels())
    }
}
/// The codestream of one point of the layout grid, if it is one.
pub fn code(v: &[usize; 26], layers: u32, cx: &mut Cx) -> Result<Option<Code>, String> {
    let Some(k) = lay::build(v) else {
        cx.add("not legal", 1);
        return Ok(None);
    };
    let Ok(b) = k.bytes() else {
        cx.add("not expressible", 1);
        return Ok(None);
    };
    Code::parse(b, layers).map(Some).map_err(|e| format!("generator: {e}"))
}
/// What of a component at a reduction lies in a rectangle of the reference grid.
pub fn crop(o: &OutComp, siz: &Siz, c: usize, win: Rect, reduce: u32) -> OutComp {
    let r = siz.on_comp(win, c);
    let d = |v: i64| refj2k::cdiv(v, 1 << reduce);
    let r = Rect { x0: d(r.x0), y0: d(r.y0), x1: d(r.x1), y1: d(r.y1) };
    let mut v = vec![];
    if !r.empty() {
        for y in r.y0..r.y1 {
            let at = (y - o.r.y0) as usize * o.r.w() + (r.x0 - o.r.x0) as usize;
            v.extend_from_slice(&o.v[at..at + r.w()]);
        }
    }
    OutComp { r, reversible: o.reversible, v }
}
/// One component of a partial decode.
pub fn part(c: usize, k: &Comp, siz: &Siz, o: &OutComp, win: Rect, reduce: u32) -> Result<(), String> {
    let e = crop(o, siz, c, win, reduce);
    let w = siz.on_comp(win, c);
    if (k.x0 as i64, k.y0 as i64) != (w.x0, w.y0) {
        return Err(format!("component {c} starts at {:?}, the area at {:?}", (k.x0, k.y0), (w.x0, w.y0)));
    }
    if e.r.empty() {
        let (have, want) = ((k.w as usize, k.h as usize), (e.r.w(), e.r.h()));
        if have != want || k.data.as_ref().is_some_and(|d| !d.is_empty()) {
            return Err(format!("component {c} is {have:?}, should hold nothing ({want:?})"));
        }
        return Ok(());
    }
    lay::agree_comp(c, k, &siz.comps[c], &e, reduce)
}
pub fn whole(o: &Img, siz: &Siz, comps: &[OutComp], win: Rect, reduce: u32) -> Result<(), String> {
    if (o.x0 as i64, o.y0 as i64, o.x1 as i64, o.y1 as i64) != (win.x0, win.y0, win.x1, win.y1) {
        return Err(format!("the image covers {:?}, not {win:?}", (o.x0, o.y0, o.x1, o.y1)));
    }
    if o.comps.len() != comps.len() {
        return Err(format!("{} components, not {}", o.comps.len(), comps.len()));
    }
    for (c, k) in o.comps.iter().enumerate() {
        part(c, k, siz, &comps[c], win, reduce)?;
    }
    Ok(())
}
fn rect(x: (i64, i64), y: (i64, i64)) -> Rect {
    Rect { x0: x.0, y0: y.0, x1: x.1, y1: y.1 }
}

// ---------------------------------------------------------------- C13

/// Intervals of interest along one axis: the extent [a, b), tiles of size t from o.
fn intervals(a: i64, b: i64, o: i64, t: i64) -> Vec<(i64, i64)> {
    let mut tb = o + t;
    while tb <= a {
        tb += t;
    }
    if tb >= b {
        tb = (a + b) / 2;
    }
    let mut v = vec![(a, b), (tb, tb + 1), (tb - 1, tb + 1), (a + 1, b - 1), (a, a + 1), (b - 1, b), (tb - 1, tb), (a + 2, a + 4), (a - 3, tb), (tb, b + 5), (tb + 2, b), (b, b + 1), (0, a), (b - 1, tb), (b + 1, b + 3), (-1, b), (a + 5, a + 5)];
    v.dedup();
    v
}
/// Some component has no sample there.
pub fn nothing(k: &Code, o: &[OutComp], win: Rect, reduce: u32) -> bool {
    (0..o.len()).any(|c| crop(&o[c], &k.siz, c, win, reduce).r.empty())
}
fn window(k: &Code, o: &[OutComp], reduce: u32, x: (i64, i64), y: (i64, i64), cx: &mut Cx) -> Result<(), String> {
    let a = k.siz.area();
    let what = format!("window {:?} at reduction {reduce}", (x.0, y.0, x.1, y.1));
    // all zeroes means the whole image
    let (cx0, cx1) = (x.0.max(a.x0), x.1.min(a.x1));
    let (cy0, cy1) = (y.0.max(a.y0), y.1.min(a.y1));
    let zero = x == (0, 0) && y == (0, 0);
    let win = if zero { a } else { rect((cx0, cx1), (cy0, cy1)) };
    let d = Dec { reduce, area: Some((x.0 as i32, y.0 as i32, x.1 as i32, y.1 as i32)), ..Dec::default() };
    cx.evaluations(1);
    let r = decode(&k.bytes, &d);
    let outside = !zero && (x.0 < 0 || y.0 < 0 || win.x0 > win.x1 || win.y0 > win.y1);
    match r {
        // nothing to show of some component: may be refused
        Err(e) if outside || nothing(k, o, win, reduce) => {
            cx.add("refused windows", 1);
            if e.stage > Stage::Decode {
                return Err(format!("{what}: {e}"));
            }
            Ok(())
        }
        Err(e) => Err(format!("{what}: {e}")),
        Ok(i) => {
            if outside {
                // a reversed window may still round to no sample at all in every component
                if i.comps.iter().any(|c| c.data.as_ref().is_some_and(|d| !d.is_empty())) {
                    return Err(format!("{what} was decoded although it does not lie in the image"));
                }
                return Ok(());
            }
            cx.outcome(i.comps.iter().filter_map(|c| c.data.as_ref()).fold(0, |h, d| mix64(h ^ hash_i32(d))));
            whole(&i, &k.siz, o, win, reduce).map_err(|e| format!("{what}: {e}"))
        }
    }
}
fn windows(v: &[usize; 26], how: usize, thin: bool, cx: &mut Cx) -> Result<(), String> {
    let Some(k) = code(v, 0, cx)? else { return Ok(()) };
    let a = k.siz.area();
    let (xs, ys) = (intervals(a.x0, a.x1, k.siz.tx0 as i64, k.siz.tw as i64), intervals(a.y0, a.y1, k.siz.ty0 as i64, k.siz.th as i64));
    for reduce in 0..=k.declared_levels().min(3) {
        let o = k.image(reduce, true)?;
        match how {
            // some pairs
            0 => {
                for i in (0..xs.len()).step_by(if thin { 3 } else { 1 }) {
                    window(&k, &o, reduce, xs[i], ys[(i * 3 + 1) % ys.len()], cx)?;
                }
            }
            // all pairs
            1 => {
                for &x in &xs {
                    for &y in &ys {
                        let odd = |v: (i64, i64), a, b| v.0.max(a) >= v.1.min(b);
                        if odd(x, a.x0, a.x1) && y != ys[0] || odd(y, a.y0, a.y1) && x != xs[0] {
                            continue;
                        }
                        window(&k, &o, reduce, x, y, cx)?;
                    }
                }
            }
            // everything there is
            _ => {
                for x0 in (a.x0..a.x1).filter(|x| *x as usize % 8 == how - 2) {
                    for x1 in x0 + 1..=a.x1 {
                        for y0 in a.y0..a.y1 {
                            for y1 in y0 + 1..=a.y1 {
                                window(&k, &o, reduce, (x0, x1), (y0, y1), cx)?;
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
pub fn code_space(name: &str, rule: &str, l: Vec<[usize; 26]>, f: impl Fn(&[usize; 26], &mut Cx) -> Result<(), String> + Send + Sync + 'static) -> Box<dyn Space> {
    let l = Rc::new(l);
    let l2 = l.clone();
    space(name, &format!("{rule}, of {} choices in the layout grid", lay::RADICES.len()), l.len() as u64, move |i| lay::show(&l2[i as usize]), move |i, cx| f(&l[i as usize], cx))
}
pub fn neighbours(t: usize) -> Vec<[usize; 26]> {
    let mut v: Vec<[usize; 26]> = (0..lay::BASES.len()).flat_map(|b| lay::around(b, t)).collect();
    v.sort();
    v.dedup();
    v
}
/// Two decodes of different windows with the same codec.
fn twice(v: &[usize; 26], cx: &mut Cx) -> Result<(), String> {
    let Some(k) = code(v, 0, cx)? else { return Ok(()) };
    let a = k.siz.area();
    let (xs, ys) = (intervals(a.x0, a.x1, k.siz.tx0 as i64, k.siz.tw as i64), intervals(a.y0, a.y1, k.siz.ty0 as i64, k.siz.th as i64));
    let menu: Vec<Rect> = [(0, 0), (1, 4), (2, 3), (6, 5)].iter().map(|&(i, j)| rect((xs[i].0.max(a.x0), xs[i].1.min(a.x1)), (ys[j].0.max(a.y0), ys[j].1.min(a.y1)))).filter(|w| !w.empty()).collect();
    let single = k.siz.ntiles() == 1;
    for reduce in [0, k.declared_levels().min(1)] {
        let o = k.image(reduce, true)?;
        for h in 0..menu.len() * menu.len() * menu.len() {
            let l = mixed(h as u64, &[menu.len(); 3]);
            let s = Stream::input(Io { data: k.bytes.clone(), ..Io::default() }, 1 << 16);
            let p = open(&s, &Dec { reduce, ..Dec::default() }).map_err(|e| format!("{e}"))?;
            for (n, &i) in l.iter().enumerate() {
                let w = menu[i];
                let what = format!("windows {:?}, number {n}", l.iter().map(|i| menu[*i]).collect::<Vec<_>>());
                cx.transitions(1);
                unsafe {
                    let set = opj_set_decode_area(p.codec.p, p.image.0, w.x0 as i32, w.y0 as i32, w.x1 as i32, w.y1 as i32);
                    if set == 0 || opj_decode(p.codec.p, s.p, p.image.0) == 0 {
                        // only single-tile images can be decoded again, and only once data is kept
                        if (n == 0 || single && i != 0 && l[0] != 0 && n == 1) && !nothing(&k, &o, w, reduce) {
                            return Err(format!("{what}: refused: {}", p.codec.why()));
                        }
                        cx.add("refused windows", 1);
                        break;
                    }
                }
                whole(&p.image.get(), &k.siz, &o, w, reduce).map_err(|e| format!("{what}: {e}"))?;
            }
        }
    }
    Ok(())
}
pub fn c13(tier: Tier) -> Check {
    let deep = tier == Tier::Thorough;
    let mut tiny = vec![];
    for (g, c, l) in [(1, 3, 0), (5, 2, 0), (5, 3, 2), (4, 0, 0), (0, 5, 3)] {
        for kind in [0, 2] {
            let mut v = [0; 26];
            (v[0], v[1], v[3], v[9], v[4]) = (g, c, l, kind, 3);
            if deep || !(g == 0 && kind == 2) && !(g == 1 && kind == 2) {
                tiny.push(v);
            }
        }
    }
    if deep {
        tiny.extend_from_slice(lay::BASES);
    }
    let tiny2 = tiny.clone();
    Check::new("C13", "exploration")
        .counter("not legal")
        .counter("not expressible")
        .counter("refused windows")
        .with(code_space("windows", "pairs of intervals of interest (tile borders, single samples, empty, beyond the image) on all codestreams that differ from a base in one choice", neighbours(1), |v, cx| windows(v, 1, false, cx)))
        .with(code_space("some windows", if deep { "17 windows on all codestreams that differ from a base in two choices" } else { "6 windows on all codestreams that differ from a base in two choices" }, neighbours(2), move |v, cx| windows(v, 0, !deep, cx)))
        .with(space("every window", "every rectangle of the image area (left edge modulo 8), on some codestreams", tiny.len() as u64 * 8, move |i| format!("{} left {}", lay::show(&tiny[i as usize / 8]), i % 8), move |i, cx| windows(&tiny2[i as usize / 8], 2 + (i % 8) as usize, false, cx)))
        .with(code_space("histories", "up to three windows after one another on one codec", neighbours(1), twice))
}

// ---------------------------------------------------------------- C14

fn ask(p: &Opened, s: &Stream, k: &Code, o: &[OutComp], t: u32, reduce: u32) -> Result<(), String> {
    let win = inter(k.siz.tile(t), k.siz.area());
    let ok = unsafe { opj_get_decoded_tile(p.codec.p, s.p, p.image.0, t) } != 0;
    if !ok {
        if nothing(k, o, win, reduce) {
            return Ok(());
        }
        return Err(format!("refused: {}", p.codec.why()));
    }
    whole(&p.image.get(), &k.siz, o, win, reduce)
}
fn inter(a: Rect, b: Rect) -> Rect {
    Rect { x0: a.x0.max(b.x0), y0: a.y0.max(b.y0), x1: a.x1.min(b.x1), y1: a.y1.min(b.y1) }
}
/// All sequences of tile requests of a length over the given tiles (numbers past the last one are invalid).
fn tile_requests(k: &Code, menu: &[u32], len: usize, reduce: u32, jp2: bool, cx: &mut Cx) -> Result<(), String> {
    let o = k.image(reduce, true)?;
    let n = k.siz.ntiles();
    for h in 0..menu.len().pow(len as u32) {
        let l: Vec<u32> = mixed(h as u64, &vec![menu.len(); len]).into_iter().map(|i| menu[i]).collect();
        let bytes = k.bytes.clone();
        let s = Stream::input(Io { data: bytes, ..Io::default() }, 1 << 16);
        let p = open(&s, &Dec { reduce, jp2, ..Dec::default() }).map_err(|e| format!("{e}"))?;
        for (i, &t) in l.iter().enumerate() {
            let what = |e: String| format!("tiles {l:?} at reduction {reduce}, request {i}: {e}");
            cx.transitions(1);
            if t >= n {
                if unsafe { opj_get_decoded_tile(p.codec.p, s.p, p.image.0, t) } != 0 {
                    return Err(what("accepted".into()));
                }
                continue;
            }
            if nothing(k, &o, inter(k.siz.tile(t), k.siz.area()), reduce) {
                // what happens to a request for nothing is not prescribed, nor what comes after its refusal
                let r = unsafe { opj_get_decoded_tile(p.codec.p, s.p, p.image.0, t) };
                if r == 0 {
                    cx.add("nothing to decode", 1);
                    break;
                }
                continue;
            }
            ask(&p, &s, k, &o, t, reduce).map_err(what)?;
            cx.evaluations(1);
        }
        if let Some(m) = &s.io.as_ref().unwrap().misuse {
            return Err(format!("tiles {l:?}: stream misused: {m}"));
        }
    }
    Ok(())
}
/// The tiles one after another as they come, with or without decoding all of them.
fn tile_stream(k: &Code, reduce: u32, area: Option<Rect>, cx: &mut Cx) -> Result<(), String> {
    let o = k.image(reduce, true)?;
    let n = k.siz.ntiles();
    let s = Stream::input(Io { data: k.bytes.clone(), ..Io::default() }, 1 << 16);
    let p = open(&s, &Dec { reduce, ..Dec::default() }).map_err(|e| format!("{e}"))?;
    if let Some(w) = area {
        if unsafe { opj_set_decode_area(p.codec.p, p.image.0, w.x0 as i32, w.y0 as i32, w.x1 as i32, w.y1 as i32) } == 0 {
            return Err(format!("area refused: {}", p.codec.why()));
        }
    }
    let mut seen = vec![];
    loop {
        let (mut t, mut size, mut nb, mut go) = (0u32, 0u32, 0u32, 0);
        let mut r = [0i32; 4];
        let [a, b, c, d] = &mut r;
        let what = |e: String| format!("streaming, after tiles {seen:?}, reduction {reduce}: {e}");
        unsafe {
            if opj_read_tile_header(p.codec.p, s.p, &mut t, &mut size, a, b, c, d, &mut nb, &mut go) == 0 {
                return Err(what(format!("refused: {}", p.codec.why())));
            }
            if go == 0 {
                break;
            }
            let win = inter(k.siz.tile(t), k.siz.area());
            if t >= n || seen.contains(&t) || nb as usize != o.len() || r.map(|x| x as i64) != [win.x0, win.y0, win.x1, win.y1] {
                return Err(what(format!("tile {t} covers {r:?} with {nb} components")));
            }
            let parts: Vec<OutComp> = (0..o.len()).map(|c| crop(&o[c], &k.siz, c, win, reduce)).collect();
            let bytes = |c: usize| [0, 1, 2, 4, 4][k.siz.comps[c].prec.div_ceil(8) as usize];
            let need: usize = (0..o.len()).map(|c| parts[c].v.len() * bytes(c)).sum();
            if size as usize != need {
                return Err(what(format!("tile {t} is said to take {size} bytes, not {need}")));
            }
            let mut buf = vec![0xA5u8; need + 16];
            if opj_decode_tile_data(p.codec.p, t, buf.as_mut_ptr(), size, s.p) == 0 {
                return Err(what(format!("tile {t} refused: {}", p.codec.why())));
            }
            if buf[need..].iter().any(|b| *b != 0xA5) {
                return Err(what(format!("tile {t}: written past the buffer")));
            }
            let mut at = 0;
            for (c, e) in parts.iter().enumerate() {
                let q = &k.siz.comps[c];
                let n = e.v.len();
                let data: Vec<i32> = (0..n)
                    .map(|i| {
                        let b = &buf[at + i * bytes(c)..];
                        match (bytes(c), q.sgnd) {
                            (1, false) => b[0] as i32,
                            (1, true) => b[0] as i8 as i32,
                            (2, false) => u16::from_ne_bytes([b[0], b[1]]) as i32,
                            (2, true) => i16::from_ne_bytes([b[0], b[1]]) as i32,
                            _ => i32::from_ne_bytes([b[0], b[1], b[2], b[3]]),
                        }
                    })
                    .collect();
                at += n * bytes(c);
                let kk = Comp { dx: q.dx, dy: q.dy, prec: q.prec, sgnd: q.sgnd, w: e.r.w() as u32, h: e.r.h() as u32, x0: 0, y0: 0, factor: reduce, alpha: 0, data: Some(data) };
                lay::agree_comp(c, &kk, q, e, reduce).map_err(|e| what(format!("tile {t}: {e}")))?;
            }
            cx.evaluations(1);
            cx.outcome(hash_bytes(&buf));
        }
        seen.push(t);
        if seen.len() as u32 > n {
            return Err("more tiles than there are".into());
        }
    }
    let mut all = seen.clone();
    all.sort();
    let want: Vec<u32> = (0..n).filter(|&t| area.is_none_or(|w| !inter(inter(k.siz.tile(t), k.siz.area()), w).empty())).collect();
    if all != want {
        return Err(format!("streamed tiles {seen:?} of {want:?}"));
    }
    let end = unsafe { opj_end_decompress(p.codec.p, s.p) };
    if end == 0 {
        return Err(format!("after streaming {seen:?}: {}", p.codec.why()));
    }
    Ok(())
}
fn by_tile(v: &[usize; 26], depth: usize, cx: &mut Cx) -> Result<(), String> {
    let Some(k) = code(v, 0, cx)? else { return Ok(()) };
    let n = k.siz.ntiles();
    let a = k.siz.area();
    for reduce in 0..=k.declared_levels().min(2) {
        tile_stream(&k, reduce, None, cx)?;
        let (xs, ys) = (intervals(a.x0, a.x1, k.siz.tx0 as i64, k.siz.tw as i64), intervals(a.y0, a.y1, k.siz.ty0 as i64, k.siz.th as i64));
        for (i, j) in [(1, 4), (4, 0), (9, 8)] {
            let w = inter(rect(xs[i], ys[j]), a);
            if !w.empty() {
                tile_stream(&k, reduce, Some(w), cx).map_err(|e| format!("area {w:?}: {e}"))?;
            }
        }
        let mut menu: Vec<u32> = vec![0, n, n - 1, n / 2, u32::MAX, 1, n - 2];
        menu.retain(|t| *t >= n.min(1) || *t == 0);
        let mut seen = vec![];
        menu.retain(|t| {
            let new = !seen.contains(t);
            seen.push(*t);
            new
        });
        let d = if reduce == 0 { depth } else { 2 };
        for len in 1..=d {
            tile_requests(&k, &menu[..menu.len().min(if len > 2 { 4 } else { 7 })], len, reduce, false, cx)?;
        }
    }
    Ok(())
}
pub fn c14(tier: Tier) -> Check {
    let deep = tier == Tier::Thorough;
    Check::new("C14", "exploration")
        .counter("not legal")
        .counter("not expressible")
        .counter("nothing to decode")
        .with(code_space("tiles", "all sequences of up to three tile requests, and all tiles streamed, on all codestreams that differ from a base in one choice", neighbours(1), move |v, cx| by_tile(v, if deep { 4 } else { 3 }, cx)))
        .with(code_space("more layouts", "all pairs of tile requests, and all tiles streamed, on codestreams that differ from a base in two choices", neighbours(2), move |v, cx| by_tile(v, if deep { 2 } else { 1 }, cx)))
}

// ---------------------------------------------------------------- C15

fn reduced(v: &[usize; 26], cx: &mut Cx) -> Result<(), String> {
    let Some(k) = code(v, 0, cx)? else { return Ok(()) };
    reductions(&k, false, cx)
}
fn reductions(k: &Code, jp2: bool, cx: &mut Cx) -> Result<(), String> {
    let a = k.siz.area();
    let max = k.levels();
    for reduce in (0..=max + 1).chain([31, 32, 33, 1000, u32::MAX]) {
        for late in [false, true] {
            let what = |e: String| format!("reduction {reduce} of {max} ({}): {e}", if late { "after the header" } else { "as parameter" });
            let s = Stream::input(Io { data: k.bytes.clone(), ..Io::default() }, 1 << 16);
            let d = Dec { reduce: if late { 0 } else { reduce }, jp2, ..Dec::default() };
            let run = || -> Result<Img, Refused> {
                let p = open(&s, &d)?;
                let no = |stage| Err(Refused { stage, why: p.codec.why() });
                unsafe {
                    if late && opj_set_decoded_resolution_factor(p.codec.p, reduce) == 0 {
                        return no(Stage::Select);
                    }
                    if opj_decode(p.codec.p, s.p, p.image.0) == 0 {
                        return no(Stage::Decode);
                    }
                    if opj_end_decompress(p.codec.p, s.p) == 0 {
                        return no(Stage::DecodeEnd);
                    }
                }
                Ok(p.image.get())
            };
            cx.evaluations(1);
            match run() {
                Ok(_) if reduce > max => return Err(what("accepted".into())),
                Ok(i) => {
                    let o = k.image(reduce, true)?;
                    whole(&i, &k.siz, &o, a, reduce).map_err(what)?;
                    cx.outcome(i.comps.iter().filter_map(|c| c.data.as_ref()).fold(0, |h, d| mix64(h ^ hash_i32(d))));
                }
                Err(_) if reduce > max => cx.add("refused reductions", 1),
                Err(e) => {
                    if reduce <= k.declared_levels() && !nothing(k, &k.image(reduce, true)?, a, reduce) {
                        return Err(what(format!("{e}")));
                    }
                    cx.add("refused reductions", 1);
                }
            }
        }
    }
    Ok(())
}
/// A small image at every offset.
fn small(i: u64, max: u32, off: u32, cx: &mut Cx) -> Result<(), String> {
    let v = mixed(i, &[max as usize, max as usize, off as usize, off as usize, 5, 2, 3]);
    let (w, h, x, y) = (v[0] as u32 + 1, v[1] as u32 + 1, v[2] as u32, v[3] as u32);
    let (l, rev) = ([1, 2, 3, 4, 6][v[4]], v[5] == 0);
    let (dx, dy) = [(1, 1), (2, 1), (3, 2)][v[6]];
    let siz = Siz { rsiz: 0, x0: x, y0: y, x1: x + w, y1: y + h, tw: x + w, th: y + h, tx0: 0, ty0: 0, comps: vec![refj2k::SizComp { dx, dy, prec: 8, sgnd: false }] };
    let r = siz.on_comp(siz.area(), 0);
    if r.empty() {
        cx.add("not legal", 1);
        return Ok(());
    }
    let b = lay::plain(&siz, l, rev, |x, y| (x * 97 + y * 61 + x * y * 13 + 5) as i64 % 256).map_err(|e| format!("generator: {e}"))?;
    reductions(&Code::parse(b, 0).map_err(|e| format!("generator: {e}"))?, false, cx)
}
pub fn c15(tier: Tier) -> Check {
    let deep = tier == Tier::Thorough;
    let (max, off) = if deep { (12, 9) } else { (7, 5) };
    Check::new("C15", "exploration")
        .counter("not legal")
        .counter("not expressible")
        .counter("refused reductions")
        .with(code_space("layouts", "every reduction, given before and after reading the header, on all codestreams that differ from a base in at most two choices", neighbours(2), reduced))
        .with(space(
            "small images",
            &format!("every reduction of every image of up to {max} x {max} reference grid points at every offset below {off}, with 1, 2, 3, 4 or 6 levels, reversible or not, three sub-samplings"),
            product(&[max, max, off, off, 5, 2, 3]),
            |i| format!("{i}"),
            move |i, cx| small(i, max as u32, off as u32, cx),
        ))
}

// ---------------------------------------------------------------- C16

fn select(k: &Code, reduce: u32, list: &[u32], area: Option<Rect>, o: &[OutComp], cx: &mut Cx) -> Result<(), String> {
    let n = k.siz.comps.len() as u32;
    let what = |e: String| format!("components {list:?}, reduction {reduce}, area {area:?}: {e}");
    let bad = list.iter().enumerate().any(|(i, c)| *c >= n || list[..i].contains(c));
    let win = area.unwrap_or(k.siz.area());
    let d = Dec { reduce, comps: Some(list.to_vec()), area: area.map(|w| (w.x0 as i32, w.y0 as i32, w.x1 as i32, w.y1 as i32)), ..Dec::default() };
    cx.evaluations(1);
    match decode(&k.bytes, &d) {
        Ok(_) if bad => Err(what("accepted".into())),
        Err(e) if bad => {
            cx.add("refused lists", 1);
            if e.stage != Stage::Select {
                return Err(what(format!("{e}")));
            }
            Ok(())
        }
        Err(_) if list.iter().any(|c| crop(&o[*c as usize], &k.siz, *c as usize, win, reduce).r.empty()) => Ok(()),
        Err(e) => Err(what(format!("{e}"))),
        Ok(i) => {
            if i.comps.len() != list.len() {
                return Err(what(format!("{} components", i.comps.len())));
            }
            for (j, c) in list.iter().enumerate() {
                part(*c as usize, &i.comps[j], &k.siz, &o[*c as usize], win, reduce).map_err(what)?;
            }
            cx.outcome(i.comps.iter().filter_map(|c| c.data.as_ref()).fold(0, |h, d| mix64(h ^ hash_i32(d))));
            Ok(())
        }
    }
}
fn subsets(v: &[usize; 26], full: bool, cx: &mut Cx) -> Result<(), String> {
    let Some(k) = code(v, 0, cx)? else { return Ok(()) };
    let n = k.siz.comps.len();
    let a = k.siz.area();
    let (xs, ys) = (intervals(a.x0, a.x1, k.siz.tx0 as i64, k.siz.tw as i64), intervals(a.y0, a.y1, k.siz.ty0 as i64, k.siz.th as i64));
    let areas: Vec<Option<Rect>> = std::iter::once(None).chain([(2, 3), (3, 2), (9, 8)].iter().map(|&(i, j)| inter(rect(xs[i], ys[j]), a)).filter(|w| !w.empty()).map(Some)).collect();
    for reduce in 0..=k.declared_levels().min(2) {
        let o = k.image(reduce, false)?;
        for set in 1u32..1 << n {
            let list: Vec<u32> = (0..n as u32).filter(|c| set >> c & 1 == 1).collect();
            for w in &areas {
                select(&k, reduce, &list, *w, &o, cx)?;
            }
        }
        if full && reduce == 0 {
            for len in 1..=n.min(3) + 1 {
                for h in 0..(n + 1).pow(len as u32) {
                    let list: Vec<u32> = mixed(h as u64, &vec![n + 1; len]).into_iter().map(|c| c as u32).collect();
                    select(&k, reduce, &list, areas[h % areas.len()], &o, cx)?;
                }
            }
        }
    }
    Ok(())
}
pub fn c16(tier: Tier) -> Check {
    let deep = tier == Tier::Thorough;
    let multi = |t| neighbours(t).into_iter().filter(|v: &[usize; 26]| lay::comps(v[1]).len() > 1).collect::<Vec<_>>();
    let mut with_comps = multi(1);
    for b in lay::BASES {
        for c in [1, 2, 3, 4] {
            for kind in 0..4 {
                for geo in [0, 1, 2] {
                    let mut v = *b;
                    (v[0], v[1], v[9]) = (geo, c, kind);
                    with_comps.push(v);
                }
            }
        }
    }
    Check::new("C16", "exploration")
        .counter("not legal")
        .counter("not expressible")
        .counter("refused lists")
        .with(code_space("lists", "every list of components up to one longer than there are (with duplicates and an index too large), every subset, whole and in windows, on codestreams that differ from a base in one choice", with_comps, |v, cx| subsets(v, true, cx)))
        .with(code_space("subsets", "every subset of components, whole and in windows, on codestreams that differ from a base in two choices", multi(2), |v, cx| subsets(v, false, cx)))
}
