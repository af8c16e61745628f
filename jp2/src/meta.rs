//! C23: what a JP2 file says besides its codestream.

use crate::driver::*;
use crate::jp2box::{be16, be32, make, parse, parse_in};
use crate::lay;
use crate::refj2k::{Siz, SizComp};
use mck::*;
use openjp2::openjpeg::*;
use std::rc::Rc;

// ---------------------------------------------------------------- writing

const DEPTHS: [[u32; 4]; 5] = [[8, 8, 8, 8], [12, 12, 12, 12], [1, 1, 1, 1], [8, 8, 12, 8], [5, 16, 3, 9]];
const SIGNS: [[bool; 4]; 5] = [[false; 4], [true; 4], [false, true, false, false], [true, false, false, false], [false, false, false, true]];
const ALPHAS: [[u16; 4]; 7] = [[0; 4], [0, 0, 0, 1], [0, 1, 0, 0], [1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 1], [1; 4]];
const ICCS: [usize; 6] = [0, 1, 2, 77, 3144, 70000];
const AREAS: [(u32, u32, u32, u32); 4] = [(0, 0, 5, 4), (3, 2, 9, 7), (0, 0, 1, 1), (0, 0, 300, 2)];
const SPACES: [i32; 7] = [1, 2, 3, 4, 5, 0, -1];
const SUBS: [(u32, u32); 3] = [(1, 1), (2, 1), (2, 2)];
const WRITTEN: [usize; 8] = [4, SPACES.len(), DEPTHS.len(), SIGNS.len(), ALPHAS.len(), ICCS.len(), AREAS.len(), SUBS.len()];

fn source(v: &[usize]) -> Img {
    let comps: Vec<_> = (0..=v[0])
        .map(|c| {
            let (dx, dy) = if c == 1 || c == 2 { SUBS[v[7]] } else { (1, 1) };
            (dx, dy, DEPTHS[v[2]][c], SIGNS[v[3]][c])
        })
        .collect();
    let mut img = Img::new(AREAS[v[6]], &comps).fill(|c, x, y, lo, hi| lo + ((x * 7 + y * 13) as i64 + c as i64 * 3) % (hi - lo + 1));
    img.cs = SPACES[v[1]];
    img.icc = (ICCS[v[5]] > 0).then(|| (0..ICCS[v[5]]).map(|i| (i * 31 + 7) as u8).collect());
    for (c, k) in img.comps.iter_mut().enumerate() {
        k.alpha = ALPHAS[v[4]][c];
    }
    img
}
/// The number of colour channels of an enumerated colour space.
fn colours(cs: i32) -> Option<usize> {
    match cs {
        1 | 3 => Some(3),
        2 => Some(1),
        _ => None,
    }
}
fn written(v: &[usize], cx: &mut Cx) -> Result<(), String> {
    let img = source(v);
    let n = img.comps.len();
    if img.comps.iter().any(|c| c.w == 0 || c.h == 0) {
        cx.add("not legal", 1);
        return Ok(());
    }
    let file = encode(&img, &Enc { jp2: true, res: 1, ..Enc::default() }).map_err(|r| format!("not encoded: {r}"))?;
    cx.evaluations(1);
    let top = parse(&file)?;
    let kinds: Vec<String> = top.iter().map(|b| String::from_utf8_lossy(&b.kind).into()).collect();
    if kinds != ["jP  ", "ftyp", "jp2h", "jp2c"] {
        return Err(format!("boxes {kinds:?}"));
    }
    let body = |i: usize| &file[top[i].body.clone()];
    if body(0) != [0x0D, 0x0A, 0x87, 0x0A] {
        return Err("signature".into());
    }
    let f = body(1);
    if f.len() < 12 || f.len() % 4 != 0 || &f[..4] != b"jp2 " || !f[8..].chunks(4).any(|c| c == b"jp2 ") {
        return Err(format!("file type {f:?}"));
    }
    let sub = parse_in(&file, top[2].body.clone()).map_err(|e| format!("JP2 header: {e}"))?;
    let find = |k: &[u8; 4]| -> Result<Option<&[u8]>, String> {
        let l: Vec<_> = sub.iter().filter(|b| &b.kind == k).collect();
        match l.len() {
            0 => Ok(None),
            1 => Ok(Some(&file[l[0].body.clone()])),
            n => Err(format!("{n} boxes {}", String::from_utf8_lossy(k))),
        }
    };
    if sub.first().map(|b| &b.kind) != Some(b"ihdr") {
        return Err("the JP2 header does not start with the image header".into());
    }
    let h = find(b"ihdr")?.unwrap();
    if h.len() != 14 {
        return Err(format!("image header of {} bytes", h.len()));
    }
    let depth = |c: &Comp| (c.prec - 1) as u8 | if c.sgnd { 0x80 } else { 0 };
    let alike = img.comps.iter().all(|c| depth(c) == depth(&img.comps[0]));
    let want = (img.y1 - img.y0, img.x1 - img.x0, n as u16, if alike { depth(&img.comps[0]) } else { 255 }, 7u8);
    let got = (be32(h), be32(&h[4..]), be16(&h[8..]), h[10], h[11]);
    if got != want {
        return Err(format!("image header (height, width, components, depth, compression) {got:?} / {want:?}"));
    }
    if h[12] > 1 || h[13] > 1 {
        return Err(format!("image header flags {} {}", h[12], h[13]));
    }
    match find(b"bpcc")? {
        None if !alike => return Err("the depths differ, and no bpcc box".into()),
        Some(_) if alike => return Err("a bpcc box though all depths are alike".into()),
        Some(b) if b.iter().copied().ne(img.comps.iter().map(depth)) => return Err(format!("bpcc {b:?}")),
        _ => {}
    }
    let colr = find(b"colr")?.ok_or("no colr box")?;
    match &img.icc {
        Some(p) => {
            if colr.len() < 3 || colr[0] != 2 || &colr[3..] != p {
                return Err(format!("colr of {} bytes, method {}, is not the profile of {} bytes", colr.len(), colr[0], p.len()));
            }
        }
        None => {
            let cs = match img.cs {
                1 => Some(16),
                2 => Some(17),
                3 => Some(18),
                _ => None,
            };
            if colr.len() != 7 || colr[0] != 1 || cs.is_some_and(|c| be32(&colr[3..]) != c) {
                return Err(format!("colr {colr:?}, colour space {}", img.cs));
            }
        }
    }
    // alpha can be told where the colours are known and come first
    let flagged: Vec<usize> = (0..n).filter(|&c| img.comps[c].alpha != 0).collect();
    let said = flagged.len() == 1 && img.icc.is_none() && colours(img.cs).is_some_and(|m| flagged[0] >= m);
    match find(b"cdef")? {
        None if said => return Err(format!("component {} is alpha, and no cdef box", flagged[0])),
        Some(b) => {
            let m = be16(b) as usize;
            if m != n || b.len() != 2 + 6 * n {
                return Err(format!("cdef of {} bytes with {m} entries", b.len()));
            }
            let e: Vec<_> = b[2..].chunks(6).map(|e| (be16(e), be16(&e[2..]), be16(&e[4..]))).collect();
            for c in 0..n {
                let l: Vec<_> = e.iter().filter(|x| x.0 == c as u16).collect();
                if l.len() != 1 {
                    return Err(format!("cdef {e:?}"));
                }
                let k = colours(img.cs).unwrap_or(0);
                let ok = match c {
                    c if img.comps[c].alpha != 0 => *l[0] == (c as u16, 1, 0),
                    c if c < k => *l[0] == (c as u16, 0, c as u16 + 1),
                    _ => l[0].1 == 65535,
                };
                if !ok {
                    return Err(format!("cdef {e:?}"));
                }
            }
        }
        _ => {}
    }
    let c = body(3);
    let (s, _) = crate::refj2k::decode(c, 0, 0, true).map_err(|e| format!("codestream: {e}"))?;
    if (s.siz.x0, s.siz.y0, s.siz.x1, s.siz.y1, s.siz.comps.len()) != (img.x0, img.y0, img.x1, img.y1, n) {
        return Err("the codestream is of another image".into());
    }
    if !c.ends_with(&[0xFF, 0xD9]) {
        return Err("the codestream box does not end with the codestream".into());
    }
    // reading it back
    let o = decode(&file, &Dec { jp2: true, ..Dec::default() }).map_err(|r| format!("own output not decoded: {r}"))?;
    if let Some(d) = diff(&o, &img) {
        return Err(format!("read back / written: {d}"));
    }
    let cs = if img.icc.is_some() || colours(img.cs).is_none() { -1 } else { img.cs };
    if o.cs != cs {
        return Err(format!("colour space {} / {cs}", o.cs));
    }
    if o.icc != img.icc {
        return Err(format!("profile of {:?} bytes / {:?}", o.icc.map(|x| x.len()), img.icc.as_ref().map(|x| x.len())));
    }
    if said {
        for (c, k) in o.comps.iter().enumerate() {
            let w = if c == flagged[0] {
                1
            } else if c < colours(img.cs).unwrap() {
                0
            } else {
                65535
            };
            if k.alpha != w {
                return Err(format!("component {c} is read with channel type {}, written with {w}", k.alpha));
            }
        }
    }
    cx.outcome(hash_bytes(&file));
    Ok(())
}

// ---------------------------------------------------------------- reading

#[derive(Clone, Debug, Default)]
pub struct Pclr {
    entries: usize,
    cols: Vec<(u32, bool)>,
}
impl Pclr {
    fn value(&self, e: usize, c: usize) -> i64 {
        let (b, s) = self.cols[c];
        let all = (1i64 << b) - 1;
        let v = match e {
            0 => all >> 1, // the largest signed value
            1 => (all >> 1) + 1,
            _ => e as i64 * 37 + c as i64 * 101 + (e as i64 * (c as i64 + 3)) * 0x1357,
        } & all;
        if s && v > all >> 1 {
            v - all - 1
        } else {
            v
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut v = (self.entries as u16).to_be_bytes().to_vec();
        v.push(self.cols.len() as u8);
        v.extend(self.cols.iter().map(|&(b, s)| (b - 1) as u8 | if s { 0x80 } else { 0 }));
        for e in 0..self.entries {
            for (c, &(b, _)) in self.cols.iter().enumerate() {
                let k = (b as usize + 7) / 8;
                let x = self.value(e, c) & ((1i64 << b) - 1);
                v.extend_from_slice(&x.to_be_bytes()[8 - k..]);
            }
        }
        make(b"pclr", &v)
    }
}
type Map = (u16, u8, u8);
type Def = (u16, u16, u16);
fn cmap_box(m: &[Map]) -> Vec<u8> {
    make(b"cmap", &m.iter().flat_map(|&(c, t, p)| [(c >> 8) as u8, c as u8, t, p]).collect::<Vec<_>>())
}
fn cdef_box(m: &[Def]) -> Vec<u8> {
    let mut v = (m.len() as u16).to_be_bytes().to_vec();
    v.extend(m.iter().flat_map(|&(c, t, a)| [c, t, a].into_iter().flat_map(|x| x.to_be_bytes())));
    make(b"cdef", &v)
}
fn colr_box(meth: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![meth, 0, 0];
    v.extend_from_slice(body);
    make(b"colr", &v)
}
fn enumerated(k: u32) -> Vec<u8> {
    colr_box(1, &k.to_be_bytes())
}
fn depth(c: &SizComp) -> u8 {
    (c.prec - 1) as u8 | if c.sgnd { 0x80 } else { 0 }
}
fn ihdr_box(s: &Siz) -> Vec<u8> {
    let mut h = (s.y1 - s.y0).to_be_bytes().to_vec();
    h.extend((s.x1 - s.x0).to_be_bytes());
    h.extend((s.comps.len() as u16).to_be_bytes());
    h.extend([if s.comps.iter().all(|c| depth(c) == depth(&s.comps[0])) { depth(&s.comps[0]) } else { 255 }, 7, 0, 0]);
    make(b"ihdr", &h)
}
fn bpcc_box(s: &Siz) -> Vec<u8> {
    make(b"bpcc", &s.comps.iter().map(depth).collect::<Vec<_>>())
}
fn alike(s: &Siz) -> bool {
    s.comps.iter().all(|c| depth(c) == depth(&s.comps[0]))
}

/// What the file may decode to.
#[derive(Debug, Default)]
struct Expect {
    images: Vec<Vec<Comp>>,
    refusal: bool,
    /// any order of the channels, each with its own type
    any_order: bool,
    anything: bool,
}
fn mapped(raw: &[Comp], p: &Pclr, m: &[Map]) -> Vec<Comp> {
    m.iter()
        .map(|&(c, t, col)| {
            let mut k = raw[c as usize].clone();
            if t == 1 {
                (k.prec, k.sgnd) = p.cols[col as usize];
                for v in k.data.as_mut().unwrap() {
                    *v = p.value((*v).clamp(0, p.entries as i32 - 1) as usize, col as usize) as i32;
                }
            }
            k
        })
        .collect()
}
fn expected(raw: &[Comp], pclr: Option<&Pclr>, cmap: Option<&[Map]>, cdef: Option<&[Def]>) -> Expect {
    let mut x = Expect::default();
    match (pclr, cmap) {
        (None, None) => x.images.push(raw.to_vec()),
        // both or none
        (Some(_), None) | (None, Some(_)) => {
            x.images.push(raw.to_vec());
            x.refusal = true;
        }
        (Some(p), Some(m)) => {
            let n = p.cols.len();
            let bad = m.iter().any(|&(c, t, col)| c as usize >= raw.len() || t > 1 || t == 1 && col as usize >= n || t == 0 && col != 0);
            if bad {
                x.refusal = true;
                return x;
            }
            x.images.push(mapped(raw, p, m));
            let columns: Vec<u8> = m.iter().filter(|k| k.1 == 1).map(|k| k.2).collect();
            // columns that are used twice, or not in the order of the channels, need not be supported
            if m.iter().enumerate().any(|(i, k)| k.1 == 1 && k.2 as usize != i) {
                x.refusal = true;
            }
            // a grey image with unused columns is taken for one whose mapping was forgotten
            if raw.len() == 1 && (1..n).any(|c| !columns.contains(&(c as u8))) {
                let all: Vec<Map> = m.iter().enumerate().map(|(i, k)| (k.0, 1, i as u8)).collect();
                x.images.push(mapped(raw, p, &all));
            }
        }
    }
    let Some(d) = cdef else { return x };
    let n = x.images[0].len();
    let missing = (0..n as u16).any(|c| d.iter().all(|k| k.0 != c));
    if missing || d.iter().any(|k| k.0 as usize >= n) || d.is_empty() {
        return Expect { refusal: true, ..Expect::default() };
    }
    if d.len() > n {
        return Expect { refusal: true, anything: true, ..Expect::default() };
    }
    let mut col: Vec<(u16, u16)> = d.iter().filter(|k| k.1 == 0 && k.2 != 0 && k.2 != 65535).map(|k| (k.2, k.0)).collect();
    if d.iter().any(|k| k.2 != 65535 && k.2 as usize > n) {
        x.refusal = true;
    }
    for im in x.images.iter_mut() {
        for k in d {
            im[k.0 as usize].alpha = k.1;
        }
    }
    col.sort();
    if col.iter().enumerate().any(|(i, k)| k.0 as usize != i + 1) {
        x.any_order = true;
    }
    for im in x.images.iter_mut() {
        let old = im.clone();
        let others: Vec<usize> = (0..n).filter(|&c| col.iter().all(|k| k.1 as usize != c)).collect();
        *im = col.iter().map(|k| k.1 as usize).chain(others).map(|c| old[c].clone()).collect();
    }
    // what is no colour follows in any order
    if n - col.len() > 1 {
        x.images.iter_mut().for_each(|im| im.extend(std::iter::once(Comp { w: u32::MAX, h: col.len() as u32, ..Comp::default() })));
    }
    x
}
fn matches(got: &[Comp], want: &[Comp], any_order: bool) -> bool {
    let (want, fixed) = match want.last() {
        Some(k) if k.w == u32::MAX => (&want[..want.len() - 1], k.h as usize),
        _ => (want, want.len()),
    };
    let fixed = if any_order { 0 } else { fixed };
    if got.len() != want.len() || got[..fixed] != want[..fixed] {
        return false;
    }
    let mut left: Vec<&Comp> = want[fixed..].iter().collect();
    for g in &got[fixed..] {
        match left.iter().position(|w| *w == g) {
            Some(k) => left.swap_remove(k),
            None => return false,
        };
    }
    true
}
fn brief(v: &[Comp]) -> String {
    v.iter()
        .map(|c| {
            let d = c.data.as_deref().unwrap_or(&[]);
            format!("[{}x{} {}{} alpha {}: {:?}]", c.w, c.h, c.prec, if c.sgnd { "s" } else { "u" }, c.alpha, &d[..d.len().min(6)])
        })
        .collect::<Vec<_>>()
        .join(" ")
}
fn check(got: Result<Img, Refused>, x: &Expect) -> Result<(), String> {
    match got {
        Err(_) if x.refusal => Ok(()),
        Err(r) => Err(format!("{r}")),
        Ok(_) if x.anything => Ok(()),
        Ok(o) if x.images.iter().any(|w| matches(&o.comps, w, x.any_order)) => Ok(()),
        Ok(o) if x.images.is_empty() => Err(format!("accepted: {}", brief(&o.comps))),
        Ok(o) => Err(format!("decoded {} instead of {}", brief(&o.comps), brief(&x.images[0]))),
    }
}

/// A codestream with its components' description.
struct Base {
    siz: Siz,
    code: Vec<u8>,
}
const BASES: [(&[(u32, bool, u32, u32)], u32); 8] = [
    (&[(8, false, 1, 1)], 6),
    (&[(8, false, 1, 1), (8, false, 1, 1)], 6),
    (&[(8, false, 1, 1), (8, false, 1, 1), (8, false, 1, 1)], 6),
    (&[(8, false, 1, 1), (5, true, 1, 1), (12, false, 1, 1), (8, true, 1, 1)], 6),
    (&[(8, false, 1, 1), (8, false, 2, 1)], 6),
    (&[(8, false, 1, 1), (8, false, 1, 1), (8, false, 1, 1)], 3), // two tiles
    (&[(12, true, 1, 1)], 3),
    (&[(8, false, 1, 1), (8, false, 1, 1), (8, false, 1, 1), (8, false, 1, 1)], 6),
];
fn base(k: usize) -> Base {
    let (comps, tw) = BASES[k];
    let siz = Siz { rsiz: 0, x1: 6, y1: 5, x0: 0, y0: 0, tw, th: 5, tx0: 0, ty0: 0, comps: comps.iter().map(|&(prec, sgnd, dx, dy)| SizComp { prec, sgnd, dx, dy }).collect() };
    let code = lay::plain_by(&siz, 1, true, |c, x, y| match (x, y) {
        (0, 0) => -1 - c as i64,
        (1, 0) => 1 << 20,
        (x, y) => (x * 2 + y * 11 + c as i64 * 5) % 23 - if c == 3 { 9 } else { 0 } - if comps.len() == 1 && comps[0].1 { 11 } else { 0 },
    })
    .expect("base codestream");
    Base { siz, code }
}
fn file(parts: &[Vec<u8>], header: &[Vec<u8>], code: &[u8]) -> Vec<u8> {
    let mut v = make(b"jP  ", &[0x0D, 0x0A, 0x87, 0x0A]);
    v.extend(make(b"ftyp", b"jp2 \0\0\0\0jp2 "));
    v.extend(make(b"jp2h", &header.concat()));
    for p in parts {
        v.extend(p);
    }
    v.extend(make(b"jp2c", code));
    v
}
fn header(b: &Base) -> Vec<Vec<u8>> {
    let mut h = vec![ihdr_box(&b.siz)];
    if !alike(&b.siz) {
        h.push(bpcc_box(&b.siz));
    }
    h.push(enumerated(if b.siz.comps.len() >= 3 { 16 } else { 17 }));
    h
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Whole,
    Area,
    Reduced,
    Raw,
    One,
    Twice,
    Tiles(u32, u32),
}
fn dec(how: How) -> Dec {
    let mut d = Dec { jp2: true, ..Dec::default() };
    match how {
        How::Area => d.area = Some((1, 1, 4, 5)),
        How::Reduced => d.reduce = 1,
        How::Raw => d.raw_channels = true,
        How::One => d.comps = Some(vec![0]),
        _ => {}
    }
    d
}
/// Decodes the file as `how` says and judges what comes out.
fn look(f: &[u8], b: &Base, how: How, want: &dyn Fn(&[Comp]) -> Expect, cx: &mut Cx) -> Result<(), String> {
    cx.evaluations(1);
    let d = dec(how);
    let plain = Dec { jp2: false, raw_channels: false, ..d.clone() };
    let raw = |d: &Dec| decode(&b.code, d).map_err(|r| format!("bare codestream: {r}"));
    let none = |c: &[Comp]| Expect { images: vec![c.to_vec()], refusal: true, ..Expect::default() };
    let asked = |c: &[Comp]| if matches!(how, How::Raw | How::One) { none(c) } else { want(c) };
    match how {
        How::Tiles(a, z) => {
            let one = |t: u32, s: &Stream, o: &Opened| unsafe {
                if opj_get_decoded_tile(o.codec.p, s.p, o.image.0, t) == 0 {
                    return Err(Refused { stage: Stage::Decode, why: o.codec.why() });
                }
                Ok(o.image.get())
            };
            let s = Stream::input(Io { data: f.to_vec(), ..Io::default() }, 1 << 16);
            let r = Stream::input(Io { data: b.code.clone(), ..Io::default() }, 1 << 16);
            let ro = open(&r, &plain).map_err(|r| format!("bare codestream: {r}"))?;
            let o = match open(&s, &d) {
                Ok(o) => o,
                Err(e) => return check(Err(e), &asked(&raw(&plain)?.comps)),
            };
            for t in [a, z] {
                let c = one(t, &r, &ro).map_err(|r| format!("bare codestream: {r}"))?;
                let g = one(t, &s, &o);
                let stop = g.is_err();
                check(g, &asked(&c.comps)).map_err(|e| format!("tile {t}: {e}"))?;
                if stop {
                    break;
                }
            }
            Ok(())
        }
        How::Twice => {
            let s = Stream::input(Io { data: f.to_vec(), ..Io::default() }, 1 << 16);
            let o = match open(&s, &d) {
                Ok(o) => o,
                Err(e) => return check(Err(e), &asked(&raw(&plain)?.comps)),
            };
            for area in [(0, 0, 6, 3), (2, 0, 6, 5)] {
                let c = raw(&Dec { area: Some(area), ..plain.clone() })?;
                let g = unsafe {
                    if opj_set_decode_area(o.codec.p, o.image.0, area.0, area.1, area.2, area.3) == 0 {
                        return Err("area refused".into());
                    }
                    if opj_decode(o.codec.p, s.p, o.image.0) == 0 {
                        Err(Refused { stage: Stage::Decode, why: o.codec.why() })
                    } else {
                        Ok(o.image.get())
                    }
                };
                let stop = g.is_err();
                check(g, &asked(&c.comps)).map_err(|e| format!("area {area:?}: {e}"))?;
                if stop {
                    break;
                }
            }
            Ok(())
        }
        _ => {
            let c = raw(&plain)?;
            let g = decode(f, &d);
            if let Ok(o) = &g {
                cx.outcome(hash_bytes(format!("{:?}", o).as_bytes()));
            }
            check(g, &asked(&c.comps))
        }
    }
}

fn coloured(b: &Base, pclr: Option<&Pclr>, cmap: Option<&[Map]>, cdef: Option<&[Def]>, how: How, cx: &mut Cx) -> Result<(), String> {
    let mut h = header(b);
    if let Some(p) = pclr {
        h.push(p.bytes());
    }
    if let Some(m) = cmap {
        h.push(cmap_box(m));
    }
    if let Some(d) = cdef {
        h.push(cdef_box(d));
    }
    look(&file(&[], &h, &b.code), b, how, &|c| expected(c, pclr, cmap, cdef), cx)
}
fn palettes() -> Vec<Pclr> {
    let mut v = vec![];
    for entries in [1, 2, 3, 23, 256, 1024] {
        for cols in [
            vec![(8, false)],
            vec![(8, true)],
            vec![(1, false), (16, false)],
            vec![(12, true), (7, true)],
            vec![(8, false); 3],
            vec![(5, false), (17, true), (24, false), (31, false)],
            vec![(16, true); 3],
            vec![(8, false); 20],
            vec![(9, true); 255],
        ] {
            v.push(Pclr { entries, cols });
        }
    }
    v
}
const HOWS: [How; 10] = [How::Whole, How::Area, How::Reduced, How::Raw, How::One, How::Twice, How::Tiles(0, 0), How::Tiles(0, 1), How::Tiles(1, 0), How::Tiles(1, 1)];
fn legal(how: How, b: usize) -> bool {
    let tiled = b == 5 || b == 6;
    !matches!(how, How::Tiles(x, y) if x.max(y) as usize > tiled as usize) && !(tiled && how == How::Twice)
}

/// One of the boxes a file can be made of.
fn foreign(k: usize) -> Vec<u8> {
    let xl = |kind: &[u8; 4], body: &[u8]| {
        let mut v = 1u32.to_be_bytes().to_vec();
        v.extend_from_slice(kind);
        v.extend_from_slice(&(body.len() as u64 + 16).to_be_bytes());
        v.extend_from_slice(body);
        v
    };
    match k {
        0 => make(b"abcd", &[]),
        1 => make(b"\0\0\0\0", &[1, 2, 3]),
        2 => make(b"xml ", b"<a/>"),
        3 => make(b"uuid", &[7; 40]),
        4 => make(b"uinf", &[make(b"ulst", &[0, 0]), make(b"url ", &[0, 0, 0, 0, b'x', 0])].concat()),
        5 => make(b"jp2i", &[1; 300]),
        6 => xl(b"zzzz", &[9; 5]),
        7 => xl(b"free", &[]),
        8 => make(b"res ", &make(b"resc", &[0, 1, 0, 1, 0, 1, 0, 1, 0, 0])),
        9 => make(b"url ", &[0xFF; 70000]),
        10 => make(b"colx", &[0xFF, 0x4F, 0xFF, 0x51]),
        _ => make(&[0xFF; 4], &make(b"jp2c", &[0xFF, 0x4F])),
    }
}
const FOREIGN: usize = 12;

fn xl_of(b: &[u8]) -> Vec<u8> {
    let mut v = 1u32.to_be_bytes().to_vec();
    v.extend_from_slice(&b[4..8]);
    v.extend_from_slice(&(b.len() as u64 + 8).to_be_bytes());
    v.extend_from_slice(&b[8..]);
    v
}

#[derive(Clone, Debug)]
struct Layout {
    /// positions of extra boxes: 0..=4 between the top-level boxes, 5.. inside the JP2 header
    extra: Vec<(usize, usize)>,
    /// order of the boxes inside the JP2 header after the image header
    order: Vec<usize>,
    /// boxes with an extended length: bits of jP, ftyp, jp2h, jp2c, every box inside the JP2 header
    xl: usize,
    /// the last box has length zero
    open_end: bool,
    bufsize: usize,
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(n - 1 - i, n - 1);
            out.push(q);
        }
    }
    out
}
const LAID_DEF: [Def; 3] = [(0, 0, 2), (1, 0, 1), (2, 1, 0)];
const LAID_MAP: [Map; 3] = [(1, 1, 0), (0, 1, 1), (2, 0, 0)];
fn laid_palette() -> Pclr {
    Pclr { entries: 9, cols: vec![(8, false), (12, true), (12, false)] }
}
fn lay_out(b: &Base, l: &Layout) -> Vec<u8> {
    let inner = [bpcc_box(&b.siz), enumerated(18), laid_palette().bytes(), cmap_box(&LAID_MAP), cdef_box(&LAID_DEF)];
    let mut h: Vec<Vec<u8>> = vec![ihdr_box(&b.siz)];
    h.extend(l.order.iter().map(|&k| inner[k].clone()));
    if l.xl & 16 != 0 {
        h = h.iter().map(|x| xl_of(x)).collect();
    }
    for &(at, k) in &l.extra {
        if at >= 5 {
            h.insert((at - 4).min(h.len()), foreign(k));
        }
    }
    let mut top = vec![make(b"jP  ", &[0x0D, 0x0A, 0x87, 0x0A]), make(b"ftyp", b"jp2 \0\0\0\0jp2 "), make(b"jp2h", &h.concat()), make(b"jp2c", &b.code)];
    for (i, t) in top.iter_mut().enumerate() {
        if l.xl >> i & 1 != 0 {
            *t = xl_of(t);
        }
    }
    for &(at, k) in &l.extra {
        if at < 5 {
            top.insert(at, foreign(k));
        }
    }
    if l.open_end {
        top.last_mut().unwrap()[..4].copy_from_slice(&[0; 4]);
    }
    top.concat()
}
fn layouts(deep: bool) -> Vec<Layout> {
    let id: Vec<usize> = (0..5).collect();
    let mut v = vec![];
    let one: Vec<(usize, usize)> = (2..11).flat_map(|p| (0..FOREIGN).map(move |k| (p, k))).collect();
    let mut extras: Vec<Vec<(usize, usize)>> = vec![vec![]];
    extras.extend(one.iter().map(|&x| vec![x]));
    for &x in &one {
        for &y in &one {
            if x.0 <= y.0 && (deep || x.1 + y.1 < 9) {
                extras.push(vec![y, x]);
            }
        }
    }
    for extra in extras {
        for xl in 0..32usize {
            if xl.count_ones() > 1 && extra.len() > 1 && !deep {
                continue;
            }
            for open_end in [false, true] {
                // the image header comes first within the JP2 header: extended or not
                let open_ok = !open_end || xl & 8 == 0 || extra.iter().any(|e| e.0 == 4);
                // a box with an extended length has no zero length
                let last = extra.iter().find(|e| e.0 == 4);
                if !open_ok || open_end && last.is_some_and(|e| matches!(e.1, 6 | 7)) {
                    continue;
                }
                v.push(Layout { extra: extra.clone(), order: id.clone(), xl, open_end, bufsize: 1 << 16 });
            }
        }
    }
    for order in permutations(5) {
        for extra in [vec![], vec![(5, 0)], vec![(7, 3)], vec![(10, 8)]] {
            for bufsize in [1 << 16, 3] {
                v.push(Layout { extra: extra.clone(), order: order.clone(), xl: 0, open_end: false, bufsize });
            }
        }
    }
    // the library reads at most one extra box before the file type box as a defect of the file
    v
}

#[derive(Clone, Debug)]
enum Colour {
    Enum(u32),
    /// CIELab with its parameters, or without
    Lab(bool),
    Icc(usize),
    Vendor(u8),
}
fn colour_box(c: &Colour) -> Vec<u8> {
    match c {
        Colour::Enum(k) => enumerated(*k),
        Colour::Lab(false) => enumerated(14),
        Colour::Lab(true) => colr_box(1, &[14u32, 100, 0, 170, 128, 200, 96, 0x443635].iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<_>>()),
        Colour::Icc(n) => colr_box(2, &(0..*n).map(|i| (i * 7 + 1) as u8).collect::<Vec<_>>()),
        Colour::Vendor(m) => colr_box(*m, &[1, 2, 3, 4, 5]),
    }
}
fn colour(list: &[Colour], cx: &mut Cx) -> Result<(), String> {
    let b = base(0);
    let mut h = vec![ihdr_box(&b.siz)];
    h.extend(list.iter().map(colour_box));
    let f = file(&[], &h, &b.code);
    cx.evaluations(1);
    let s = Stream::input(Io { data: f.clone(), ..Io::default() }, 1 << 16);
    let o = open(&s, &Dec { jp2: true, ..Dec::default() }).map_err(|r| format!("{r}"))?;
    // all colour specifications after the first are ignored; so are those of unknown methods
    let first = list.iter().find(|c| !matches!(c, Colour::Vendor(_)));
    let vendor_first = matches!(list.first(), Some(Colour::Vendor(_)));
    for after in [false, true] {
        if after && unsafe { opj_decode(o.codec.p, s.p, o.image.0) } == 0 {
            return Err(format!("not decoded: {}", o.codec.why()));
        }
        let q = unsafe { &*o.image.0 };
        let cs = q.color_space as i32;
        let icc = (!q.icc_profile_buf.is_null() && q.icc_profile_len > 0).then(|| o.image.get().icc.unwrap());
        let want = match first {
            Some(Colour::Enum(k)) => (
                match k {
                    16 => 1,
                    17 => 2,
                    18 => 3,
                    24 => 4,
                    12 => 5,
                    _ => -1,
                },
                None,
            ),
            Some(Colour::Icc(n)) => (-1, (*n > 0).then(|| (0..*n).map(|i| (i * 7 + 1) as u8).collect::<Vec<u8>>())),
            _ => (-1, None),
        };
        if (cs, icc.clone()) != want && !(vendor_first && (cs, &icc) == (-1, &None)) {
            return Err(format!("colour space {cs}, profile {:?} / {}, {:?}", icc.map(|x| x.len()), want.0, want.1.map(|x| x.len())));
        }
        if let (Some(Colour::Lab(given)), false) = (first, vendor_first) {
            if q.icc_profile_buf.is_null() {
                return Err("no CIELab parameters".into());
            }
            let w: Vec<u32> = unsafe { std::slice::from_raw_parts(q.icc_profile_buf, 36) }.chunks(4).map(|x| u32::from_ne_bytes(x.try_into().unwrap())).collect();
            let want: [u32; 9] = if *given { [14, 0, 100, 0, 170, 128, 200, 96, 0x443635] } else { [14, 0x44454600, 0, 0, 0, 0, 0, 0, 0x443530] };
            if w != want {
                return Err(format!("CIELab parameters {w:x?} / {want:x?}"));
            }
        }
    }
    cx.outcome(hash_bytes(format!("{list:?}").as_bytes()));
    Ok(())
}

pub fn c23(tier: Tier) -> Check {
    let deep = tier == Tier::Thorough;
    let mut c = Check::new("C23", "exploration").counter("not legal");
    // writing: everything in the thorough run, at most four choices other than the first in the quick one
    let l: Vec<Vec<usize>> = if deep { (0..product(&WRITTEN)).map(|i| mixed(i, &WRITTEN)).collect() } else { deviations(&WRITTEN, 4) };
    let l = Rc::new(l);
    let l2 = l.clone();
    c = c.with(space(
        "written",
        &format!("images of 1..4 components with all combinations of colour space, depths, signs, alpha, profile, area and sub-sampling ({WRITTEN:?} choices{}); every box is parsed independently, and the file is read back", if deep { "" } else { "; at most four other than the first" }),
        l.len() as u64,
        move |i| format!("{:?}", l2[i as usize]),
        move |i, cx| written(&l[i as usize], cx),
    ));
    // palettes
    let bases: Rc<Vec<Base>> = Rc::new((0..BASES.len()).map(base).collect());
    let pals = Rc::new(palettes());
    let bs = bases.clone();
    c = c.with(space(
        "palettes",
        "all palettes of 1, 2, 3, 23, 256 and 1024 entries with nine column sets (one to 255 columns of 1 to 31 bits, signed and not) on all base codestreams, in all ways of decoding; the mapping uses the components in turn",
        (pals.len() * BASES.len() * HOWS.len()) as u64,
        |i| format!("{:?}", mixed(i, &[54, BASES.len(), HOWS.len()])),
        move |i, cx| {
            let v = mixed(i, &[pals.len(), BASES.len(), HOWS.len()]);
            if !legal(HOWS[v[2]], v[1]) {
                cx.add("not legal", 1);
                return Ok(());
            }
            let (p, b) = (&pals[v[0]], &bs[v[1]]);
            let m: Vec<Map> = (0..p.cols.len()).map(|i| ((i % b.siz.comps.len()) as u16, 1, i as u8)).collect();
            coloured(b, Some(p), Some(&m), None, HOWS[v[2]], cx).map_err(|e| format!("{e} (base {}, {} entries, {:?}, {:?})", v[1], p.entries, &p.cols[..p.cols.len().min(4)], HOWS[v[2]]))
        },
    ));
    for n in 1..=3usize {
        for (k, nc) in [(0usize, 1usize), (1, 2), (3, 4), (4, 2)] {
            if nc == 4 && n == 3 && !deep {
                continue;
            }
            let per = (nc + 1) * 3 * (n + 1);
            let bs = bases.clone();
            let at = move |i: u64| -> Vec<Map> {
                let v = mixed(i, &vec![per; n]);
                v.iter().map(|&x| ((x % (nc + 1)) as u16, (x / (nc + 1) % 3) as u8, (x / (nc + 1) / 3) as u8)).collect()
            };
            c = c.with(space(
                &format!("mappings {n} of base {k}"),
                &format!("all component mappings of {n} channels: component 0..={nc}, type 0..=2, column 0..={n} each"),
                (per as u64).pow(n as u32),
                move |i| format!("{:?}", at(i)),
                move |i, cx| {
                    let m = at(i);
                    let p = Pclr { entries: 9, cols: vec![(8, false), (12, true), (4, false)][..n].to_vec() };
                    let how = if i % 7 == 3 { How::Twice } else { How::Whole };
                    coloured(&bs[k], Some(&p), Some(&m), None, how, cx)
                },
            ));
        }
    }
    // channel definitions
    for (k, n, rows, typs) in [(0usize, 1usize, 1usize, 4usize), (0, 1, 2, 4), (1, 2, 1, 4), (1, 2, 2, 4), (1, 2, 3, 2), (2, 3, 2, 4), (2, 3, 3, if deep { 4 } else { 3 }), (7, 4, 4, if deep { 3 } else { 0 })] {
        const TYPS: [u16; 4] = [0, 1, 65535, 2];
        let bs = bases.clone();
        let perms = Rc::new(permutations(n));
        // all tables where that is few, else those that define every channel once
        let full = rows < 4;
        let per = if full { (n + 1) * typs * (n + 3) } else { typs.max(2) * (n + if typs > 0 { 2 } else { 1 }) };
        let len = (per as u64).pow(rows as u32) * if full { 1 } else { perms.len() as u64 };
        let at = move |i: u64| -> Vec<Def> {
            let v = mixed(i, &vec![per; rows]);
            let order = &perms[(i / (per as u64).pow(rows as u32)) as usize % perms.len()];
            v.iter()
                .enumerate()
                .map(|(r, &x)| {
                    let (cn, x) = if full { (x % (n + 1), x / (n + 1)) } else { (order[r], x) };
                    let m = if full { typs } else { typs.max(2) };
                    let asoc = x / m;
                    (cn as u16, TYPS[x % m], if asoc > n + 1 { 65535 } else { asoc as u16 })
                })
                .collect()
        };
        let at2 = at.clone();
        c = c.with(space(
            &format!("definitions {rows} for {n} channels"),
            &format!("{} channel definition tables of {rows} rows for {n} components: types among {:?}, associations 0..={} and none", if full { "all" } else { "all complete" }, &TYPS[..if full { typs } else { typs.max(2) }], n + 1),
            len,
            move |i| format!("{:?}", at2(i)),
            move |i, cx| {
                let d = at(i);
                let how = if i % 11 == 5 { How::Twice } else { How::Whole };
                coloured(&bs[k], None, None, Some(&d), how, cx)
            },
        ));
    }
    // palette and definitions together, in all ways of decoding
    let mut both = vec![];
    for d in permutations(3) {
        for a in permutations(3) {
            for t in 0..8usize {
                for how in HOWS {
                    let rows: Vec<Def> = (0..3).map(|i| (d[i] as u16, (t >> i & 1) as u16, if t >> i & 1 == 1 { 0 } else { a[i] as u16 + 1 })).collect();
                    both.push((rows, how));
                }
            }
        }
    }
    let bs = bases.clone();
    c = c.with(list_space("palette and definitions", "six orders of the rows times six associations times eight choices of alpha channels on three base codestreams, with and without a palette, in all ways of decoding", both, move |(d, how), cx| {
        let p = Pclr { entries: 23, cols: vec![(8, false), (12, true), (8, false)] };
        for k in [2usize, 4, 5] {
            for with in [false, true] {
                if k == 4 && !with || !legal(*how, k) {
                    continue;
                }
                let m: Vec<Map> = (0..3).map(|i| ((i % bs[k].siz.comps.len()) as u16, 1, i as u8)).collect();
                coloured(&bs[k], with.then_some(&p), with.then_some(&m[..]), Some(d), *how, cx).map_err(|e| format!("base {k}, palette {with}: {e}"))?;
            }
        }
        Ok(())
    }));
    // box order, foreign boxes, lengths
    let bs = bases.clone();
    c = c.with(list_space("boxes", "all positions of one or two foreign boxes of twelve kinds between the boxes and inside the JP2 header; extended lengths on all subsets of the boxes; a last box that extends to the end; all orders of the boxes in the JP2 header", layouts(deep), move |l, cx| {
        let b = &bs[3];
        let f = lay_out(b, l);
        cx.evaluations(1);
        let o = decode(&f, &Dec { jp2: true, bufsize: l.bufsize, ..Dec::default() });
        let c = decode(&b.code, &Dec::default()).map_err(|r| format!("bare codestream: {r}"))?;
        let x = expected(&c.comps, Some(&laid_palette()), Some(&LAID_MAP), Some(&LAID_DEF));
        if let Ok(o) = &o {
            if o.cs != 3 {
                return Err(format!("colour space {}", o.cs));
            }
        }
        check(o, &x)
    }));
    // colour specifications
    let mut lists: Vec<Vec<Colour>> = (0..=26).chain([100, 1 << 16 | 16, u32::MAX]).filter(|k| *k != 14).map(|k| vec![Colour::Enum(k)]).collect();
    lists.extend([0usize, 1, 2, 3, 500, 70000].map(|n| vec![Colour::Icc(n)]));
    let some = [Colour::Enum(16), Colour::Enum(17), Colour::Icc(5), Colour::Lab(false), Colour::Lab(true), Colour::Vendor(3), Colour::Vendor(255), Colour::Vendor(0)];
    for a in &some {
        lists.push(vec![a.clone()]);
        for b in &some {
            lists.push(vec![a.clone(), b.clone()]);
            for c in &some {
                lists.push(vec![a.clone(), b.clone(), c.clone()]);
            }
        }
    }
    c = c.with(list_space("colours", "all enumerated colour spaces 0..26 and beyond, profiles of 0 to 70000 bytes, CIELab with and without parameters, and all lists of up to three colour specifications of eight kinds", lists, |l, cx| colour(l, cx)));
    c.assume("A grey image whose mapping leaves palette columns unused may be taken for one with the full mapping (a documented leniency). Palette columns out of the channels' order may be refused. Channel definitions whose colours are not 1..m, or more definitions than channels, have no defined order; each channel still keeps its own type.")
}
