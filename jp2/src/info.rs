//! C24: the codestream information and index against an independent reading of the marker segments.

use crate::code::{codestream, encoded};
use crate::conf;
use crate::driver::*;
use crate::jp2box;
use crate::lay;
use crate::refj2k::{CodComp, Codestream};
use mck::*;
use openjp2::openjpeg::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
struct Mark {
    code: u16,
    pos: i64,
    len: i64,
}
#[derive(Clone, Debug, Default, PartialEq)]
struct Tile {
    tileno: u32,
    parts: Vec<(i64, i64, i64)>,
    marks: Vec<Mark>,
}
#[derive(Clone, Debug, Default, PartialEq)]
struct Index {
    head: (i64, i64),
    marks: Vec<Mark>,
    tiles: Vec<Tile>,
}
unsafe fn marks(p: *const opj_marker_info_t, n: u32) -> Vec<Mark> {
    if n == 0 {
        return vec![];
    }
    std::slice::from_raw_parts(p, n as usize).iter().map(|m| Mark { code: m.type_, pos: m.pos, len: m.len as i64 }).collect()
}
unsafe fn index(c: &Codec) -> Result<Index, String> {
    let mut p = opj_get_cstr_index(c.p);
    if p.is_null() {
        return Err("no index".into());
    }
    let q = &*p;
    let mut r = Index { head: (q.main_head_start, q.main_head_end), marks: marks(q.marker, q.marknum), tiles: vec![] };
    for t in 0..if q.tile_index.is_null() { 0 } else { q.nb_of_tiles } {
        let t = &*q.tile_index.add(t as usize);
        let parts = if t.tp_index.is_null() { vec![] } else { std::slice::from_raw_parts(t.tp_index, t.nb_tps as usize).iter().map(|p| (p.start_pos, p.end_header, p.end_pos)).collect() };
        r.tiles.push(Tile { tileno: t.tileno, parts, marks: marks(t.marker, t.marknum) });
    }
    opj_destroy_cstr_index(&mut p);
    if !p.is_null() {
        return Err("destroying the index leaves the pointer".into());
    }
    Ok(r)
}
#[derive(Clone, Debug, PartialEq)]
struct CompInfo {
    precincts_given: bool,
    resolutions: u32,
    cb: (u32, u32),
    style: u32,
    reversible: u32,
    quant: u32,
    guard: u32,
    roi: i32,
    prec: Vec<(u32, u32)>,
    steps: Vec<(u32, u32)>,
}
#[derive(Clone, Debug, PartialEq)]
struct Info {
    grid: [u32; 7],
    /// SOP and EPH; precincts are told by component
    flags: u32,
    prog: i32,
    layers: u32,
    mct: u32,
    comps: Vec<CompInfo>,
}
unsafe fn info(c: &Codec) -> Result<Info, String> {
    let mut p = opj_get_cstr_info(c.p);
    if p.is_null() {
        return Err("no information".into());
    }
    let q = &*p;
    let t = &q.m_default_tile_info;
    let mut comps = vec![];
    for (i, k) in std::slice::from_raw_parts(t.tccp_info, q.nbcomps as usize).iter().enumerate() {
        let _ = i;
        let n = if k.qntsty == 1 { 1 } else { (k.numresolutions * 3 - 2) as usize };
        let r = k.numresolutions as usize;
        comps.push(CompInfo {
            precincts_given: k.csty & 1 != 0,
            resolutions: k.numresolutions,
            cb: (k.cblkw, k.cblkh),
            style: k.cblksty,
            reversible: k.qmfbid,
            quant: k.qntsty,
            guard: k.numgbits,
            roi: k.roishift,
            prec: k.prcw[..r].iter().zip(&k.prch).map(|(a, b)| (*a, *b)).collect(),
            steps: k.stepsizes_expn[..n].iter().zip(&k.stepsizes_mant).map(|(a, b)| (*a, *b)).collect(),
        });
    }
    let r = Info { grid: [q.tx0, q.ty0, q.tdx, q.tdy, q.tw, q.th, q.nbcomps], flags: t.csty & 6, prog: t.prg as i32, layers: t.numlayers, mct: t.mct, comps };
    opj_destroy_cstr_info(&mut p);
    if !p.is_null() {
        return Err("destroying the information leaves the pointer".into());
    }
    Ok(r)
}
/// What the main header says.
fn said(s: &Codestream) -> Info {
    let z = &s.siz;
    let d = s.main.cod.as_ref().unwrap();
    let comps = (0..z.comps.len())
        .map(|c| {
            let k: &CodComp = s.main.coc.get(&c).unwrap_or(&d.comp);
            let q = s.main.qcc.get(&c).or(s.main.qcd.as_ref()).unwrap();
            let n = if q.style == 1 { 1 } else { (k.levels * 3 + 1) as usize };
            CompInfo {
                precincts_given: k.custom,
                resolutions: k.levels + 1,
                cb: (k.xcb, k.ycb),
                style: k.style as u32,
                reversible: k.reversible as u32,
                quant: q.style as u32,
                guard: q.guard,
                roi: s.main.rgn.get(&c).copied().unwrap_or(0) as i32,
                prec: k.prec.clone(),
                // a main header may hold fewer steps than levels that tiles override
                steps: q.steps.iter().take(n).copied().collect(),
            }
        })
        .collect();
    Info { grid: [z.tx0, z.ty0, z.tw, z.th, z.ntx(), z.nty(), z.comps.len() as u32], flags: (d.sop as u32) << 1 | (d.eph as u32) << 2, prog: d.prog as i32, layers: d.layers, mct: d.mct as u32, comps }
}
fn same_info(mut a: Info, b: &Info) -> Result<(), String> {
    for (i, (k, w)) in a.comps.iter_mut().zip(&b.comps).enumerate() {
        k.steps.truncate(w.steps.len());
        if k != w {
            return Err(format!("component {i} is said to be {k:?}, the main header has {w:?}"));
        }
    }
    if &a != b {
        return Err(format!("said to be {a:?}, the main header has {b:?}"));
    }
    Ok(())
}
/// The library may have no number for a marker it does not know.
fn known(c: u16) -> bool {
    matches!(c, 0xFF4F | 0xFF51..=0xFF53 | 0xFF55 | 0xFF57 | 0xFF58 | 0xFF5C..=0xFF5F | 0xFF60 | 0xFF61 | 0xFF63 | 0xFF64 | 0xFF90..=0xFF93 | 0xFFD9)
}
/// Reported and true, in the order of the codestream.
fn true_marks(a: &[Mark], b: &[Mark]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| true_mark(a, b))
}
fn true_mark(a: &Mark, b: &Mark) -> bool {
    (a.pos, a.len) == (b.pos, b.len) && (a.code == b.code || a.code == 0 && !known(b.code))
}
fn expected(s: &Codestream, off: i64) -> Index {
    let mark = |m: &crate::refj2k::Marker| Mark { code: m.code, pos: m.pos as i64 + off, len: m.len as i64 + 2 };
    let mut tiles: Vec<Tile> = (0..s.siz.ntiles()).map(|tileno| Tile { tileno, ..Tile::default() }).collect();
    for p in &s.parts {
        let t = &mut tiles[p.tile as usize];
        t.parts.push((p.start as i64 + off, p.body as i64 + off - 2, p.end as i64 + off));
        for m in &p.markers {
            let mut k = mark(m);
            if m.code == 0xFF93 {
                // what follows it belongs to it
                k.len = (p.end - m.pos) as i64;
            }
            t.marks.push(k);
        }
    }
    Index { head: (off, s.main_end as i64 + off), marks: s.markers.iter().map(mark).collect(), tiles }
}
fn list(v: &[Mark]) -> String {
    v.iter().map(|m| format!("{:x}@{}+{}", m.code, m.pos, m.len)).collect::<Vec<_>>().join(" ")
}
fn same_head(a: &Index, b: &Index) -> Result<(), String> {
    if a.head != b.head {
        return Err(format!("the main header is said to lie at {:?}, it does at {:?}", a.head, b.head));
    }
    // in whatever order
    let sorted = |v: &[Mark]| {
        let mut v = v.to_vec();
        v.sort_by_key(|m| m.pos);
        v
    };
    if !true_marks(&sorted(&a.marks), &b.marks) {
        return Err(format!("main header markers {} but there are {}", list(&a.marks), list(&b.marks)));
    }
    Ok(())
}
/// Everything reported is true; with `all`, everything is reported.
fn same_tiles(a: &Index, b: &Index, s: &Codestream, all: bool) -> Result<(), String> {
    if a.tiles.len() != b.tiles.len() && (all || !a.tiles.is_empty()) {
        return Err(format!("{} tiles in the index, {} in the codestream", a.tiles.len(), b.tiles.len()));
    }
    for (t, (k, w)) in a.tiles.iter().zip(&b.tiles).enumerate() {
        if let Some(m) = k.marks.iter().find(|m| !w.marks.iter().any(|w| true_mark(m, w))) {
            return Err(format!("tile {t}: the index reports {} but the tile's markers are {}", list(&[m.clone()]), list(&w.marks)));
        }
        // a count that is never declared is not known
        let declared = s.parts.iter().any(|p| p.tile == t as u32 && p.count != 0);
        if all {
            let mut x = k.marks.clone();
            x.sort_by_key(|m| m.pos);
            if !true_marks(&x, &w.marks) {
                return Err(format!("tile {t}: markers {} but there are {}", list(&x), list(&w.marks)));
            }
            if k.tileno != t as u32 {
                return Err(format!("tile {t} is called {}", k.tileno));
            }
            if declared && k.parts != w.parts || !k.parts.is_empty() && k.parts != w.parts {
                return Err(format!("tile {t}: tile-parts at {:?} but they are at {:?}", k.parts, w.parts));
            }
        } else {
            if k.parts.len() > w.parts.len() {
                return Err(format!("tile {t}: {} tile-parts of {}", k.parts.len(), w.parts.len()));
            }
            for (i, p) in k.parts.iter().enumerate() {
                let q = w.parts[i];
                // what has not been read is zero
                if p.0 != 0 && p.0 != q.0 || p.1 != 0 && p.1 != q.1 || p.2 != 0 && p.2 != q.2 {
                    return Err(format!("tile {t}: tile-part {i} at {p:?} but it is at {q:?}"));
                }
            }
        }
    }
    Ok(())
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    All,
    /// only the header
    Header,
    /// the middle
    Area,
    /// the last tile, then the first
    Tiles,
    /// one tile after the other, through the tile interface
    Each,
}
const HOWS: [How; 5] = [How::All, How::Header, How::Area, How::Tiles, How::Each];

fn judge(file: &[u8], jp2: bool, how: How, cx: &mut Cx) -> Result<(), String> {
    cx.evaluations(1);
    let cs = codestream(file, jp2)?;
    let off = if jp2 { jp2box::parse(file)?.iter().find(|b| &b.kind == b"jp2c").unwrap().body.start as i64 } else { 0 };
    let s = Codestream::parse(&cs, true).map_err(|e| format!("generator: {e}"))?;
    let (want, inf) = (expected(&s, off), said(&s));
    let st = Stream::input(Io { data: file.to_vec(), ..Io::default() }, 1 << 16);
    let Opened { codec: c, image } = open(&st, &Dec { jp2, ..Dec::default() }).map_err(|e| e.to_string())?;
    unsafe {
        let at = |w: &str, e: String| format!("{w}: {e}");
        same_info(info(&c)?, &inf).map_err(|e| at("after the header", e))?;
        let i = index(&c)?;
        same_head(&i, &want).map_err(|e| at("after the header", e))?;
        same_tiles(&i, &want, &s, false).map_err(|e| at("after the header", e))?;
        let done = match how {
            How::Header => return Ok(()),
            How::All => opj_decode(c.p, st.p, image.0) != 0,
            How::Area => {
                let (w, h) = (s.siz.x1 - s.siz.x0, s.siz.y1 - s.siz.y0);
                let (a, b) = (s.siz.x0 + w / 3, s.siz.y0 + h / 3);
                opj_set_decode_area(c.p, image.0, a as i32, b as i32, (a + w.div_ceil(3)) as i32, (b + h.div_ceil(3)) as i32) != 0 && opj_decode(c.p, st.p, image.0) != 0
            }
            How::Tiles => {
                let n = s.siz.ntiles();
                opj_get_decoded_tile(c.p, st.p, image.0, n - 1) != 0 && (n == 1 || opj_get_decoded_tile(c.p, st.p, image.0, 0) != 0)
            }
            How::Each => {
                let mut ok = true;
                loop {
                    let (mut t, mut size, mut x0, mut y0, mut x1, mut y1, mut nc, mut go) = (0, 0, 0, 0, 0, 0, 0, 0);
                    ok = ok && opj_read_tile_header(c.p, st.p, &mut t, &mut size, &mut x0, &mut y0, &mut x1, &mut y1, &mut nc, &mut go) != 0;
                    if !ok || go == 0 {
                        break;
                    }
                    let mut b = vec![0u8; size as usize + 1];
                    ok = opj_decode_tile_data(c.p, t, b.as_mut_ptr(), size, st.p) != 0;
                }
                ok
            }
        };
        if !done {
            if how == How::Area || how == How::Tiles {
                // some components have no sample there
                cx.add("refused", 1);
                return Ok(());
            }
            return Err(format!("legal codestream refused: {}", c.why()));
        }
        let whole = matches!(how, How::All | How::Each);
        same_info(info(&c)?, &inf).map_err(|e| at("after decoding", e))?;
        let i = index(&c)?;
        same_head(&i, &want).map_err(|e| at("after decoding", e))?;
        same_tiles(&i, &want, &s, whole).map_err(|e| at("after decoding", e))?;
        cx.outcome(hash_bytes(format!("{i:?}").as_bytes()));
    }
    Ok(())
}
fn every(file: &[u8], jp2: bool, cx: &mut Cx) -> Result<(), String> {
    for how in HOWS {
        judge(file, jp2, how, cx).map_err(|e| format!("{how:?}: {e}"))?;
    }
    Ok(())
}

pub fn c24(tier: Tier) -> Check {
    let deep = tier == Tier::Thorough;
    let mut c = Check::new("C24", "exploration").counter("refused").counter("not legal").counter("not expressible");
    for b in 0..lay::BASES.len() {
        let t = if deep { 3 } else { 2 };
        let l = Rc::new(lay::around(b, t));
        let l2 = l.clone();
        c = c.with(space(
            &format!("layouts{b}"),
            &format!("all legal codestreams that differ from base {b} ({}) in at most {t} of {} choices; information and index after the header and after {HOWS:?}; every other one inside a JP2 file", lay::show(&lay::BASES[b]), lay::RADICES.len()),
            l.len() as u64,
            move |i| lay::show(&l2[i as usize]),
            move |i, cx| {
                let Some(k) = lay::build(&l[i as usize]) else {
                    cx.add("not legal", 1);
                    return Ok(());
                };
                let Ok(b) = k.bytes() else {
                    cx.add("not expressible", 1);
                    return Ok(());
                };
                let jp2 = i % 2 == 1;
                let f = if jp2 { jp2box::wrap(&b, &k.siz) } else { b };
                every(&f, jp2, cx)
            },
        ));
    }
    for (b, t) in (if deep { [3, 3, 3, 2] } else { [2, 2, 2, 1] }).into_iter().enumerate() {
        let l: Vec<_> = conf::around(b, t).into_iter().filter(|v| conf::build(v, false).is_some()).collect();
        let l = Rc::new(l);
        let l2 = l.clone();
        c = c.with(space(
            &format!("configurations{b}"),
            &format!("what the encoder makes of all legal configurations that differ from base {b} ({}) in at most {t} of {} parameters", conf::show(&conf::BASES[b]), conf::RADICES.len()),
            l.len() as u64,
            move |i| conf::show(&l2[i as usize]),
            move |i, cx| {
                let (img, e) = conf::build(&l[i as usize], i % 2 == 1).unwrap();
                let Some(b) = encoded(&img, &e, cx)? else { return Ok(()) };
                every(&b, e.jp2, cx)
            },
        ));
    }
    for (name, rule, l) in lay::limits(deep) {
        if !["levels", "components", "tiles"].contains(&name) {
            continue;
        }
        c = c.with(list_space(name, rule, l, |l, cx| {
            let Some(k) = l.case().filter(|k| k.tiles.len() <= 2000) else {
                cx.add("not legal", 1);
                return Ok(());
            };
            let Ok(b) = k.bytes() else {
                cx.add("not expressible", 1);
                return Ok(());
            };
            every(&b, false, cx)
        }));
    }
    c.assume("Unknown marker segments have no code in the index; a tile whose number of tile-parts is nowhere declared may have none of them reported.")
}
