//! C21: damaged files.

use crate::driver::*;
use crate::jp2box;
use crate::lay;
use crate::truncate::rotated;
use crate::views::*;
use mck::*;
use openjp2::openjpeg::*;
use std::ops::Range;
use std::rc::Rc;

/// Images of more samples are decoded in part.
const BIG: u64 = if cfg!(asan) { 1 << 15 } else { 1 << 21 };

/// A file and where its parts are.
pub struct Target {
    pub bytes: Vec<u8>,
    pub jp2: bool,
    /// where the codestream begins
    pub boxes: usize,
    /// everything but packets
    pub heads: Vec<Range<usize>>,
    pub data: Vec<Range<usize>>,
}
impl Target {
    fn new(k: &Code, jp2: bool) -> Target {
        let bytes = if jp2 { jp2box::wrap(&k.bytes, &k.siz) } else { k.bytes.clone() };
        let off = bytes.len() - k.bytes.len();
        let mut at = 0;
        let (mut heads, mut data) = (vec![], vec![]);
        for p in &k.cs.parts {
            heads.push(at..p.body + off);
            data.push(p.body + off..p.end + off);
            at = p.end + off;
        }
        heads.push(at..bytes.len());
        Target { bytes, jp2, boxes: off, heads, data }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Way {
    Lenient,
    Strict,
    Tiles,
    Streamed,
    Reduced,
    Window,
    /// only what is asked about the file
    Info,
}
const WAYS: [Way; 7] = [Way::Lenient, Way::Strict, Way::Tiles, Way::Streamed, Way::Reduced, Way::Window, Way::Info];
/// Decodes whatever it is; the result must be an image or a refusal.
pub fn attempt(bytes: Vec<u8>, jp2: bool, way: Way) -> Result<bool, String> {
    let s = Stream::input(Io { data: bytes, ..Io::default() }, 1 << 12);
    let r = attempt_on(&s, jp2, way);
    if let Some(m) = &s.io.as_ref().unwrap().misuse {
        return Err(m.clone());
    }
    r
}
fn attempt_on(s: &Stream, jp2: bool, way: Way) -> Result<bool, String> {
    let d = Dec { jp2, strict: matches!(way, Way::Strict | Way::Info), reduce: (way == Way::Reduced) as u32, layers: (way == Way::Reduced) as u32, ..Dec::default() };
    let Ok(p) = open(s, &d) else { return Ok(false) };
    let (c, i) = (p.codec.p, p.image.0);
    unsafe {
        let mut total = 0u64;
        for k in 0..(*i).numcomps as usize {
            let o = &*(*i).comps.add(k);
            total += o.w as u64 * o.h as u64;
        }
        let big = total > BIG;
        match way {
            Way::Info => {
                let mut info = opj_get_cstr_info(c);
                if !info.is_null() {
                    opj_destroy_cstr_info(&mut info);
                }
                let mut idx = opj_get_cstr_index(c);
                if !idx.is_null() {
                    opj_destroy_cstr_index(&mut idx);
                }
                let a = (*i).x0 as i32;
                // components by number
                let l = [0u32];
                if opj_set_decoded_components(c, 1, l.as_ptr(), 0) == 0 {
                    return Ok(false);
                }
                let _ = a;
                if big {
                    return Ok(false);
                }
                return Ok(opj_decode(c, s.p, i) != 0);
            }
            Way::Tiles if !big => {
                let mut any = false;
                for t in [1u32, 0] {
                    if opj_get_decoded_tile(c, s.p, i, t) == 0 {
                        break;
                    }
                    look(&p.image)?;
                    any = true;
                }
                return Ok(any);
            }
            Way::Streamed if !big => {
                let mut any = false;
                loop {
                    let (mut t, mut size, mut nb, mut go) = (0u32, 0u32, 0u32, 0);
                    let mut r = [0i32; 4];
                    let [x0, y0, x1, y1] = &mut r;
                    if opj_read_tile_header(c, s.p, &mut t, &mut size, x0, y0, x1, y1, &mut nb, &mut go) == 0 || go == 0 || size > 1 << 25 {
                        break;
                    }
                    let mut buf = vec![0u8; size as usize];
                    if opj_decode_tile_data(c, t, buf.as_mut_ptr(), size, s.p) == 0 {
                        break;
                    }
                    any = true;
                }
                return Ok(opj_end_decompress(c, s.p) != 0 && any);
            }
            _ => {}
        }
        if big || way == Way::Window {
            let (x, y) = ((*i).x0, (*i).y0);
            let m = if big { 40 } else { 3 };
            if x > i32::MAX as u32 - 100 || y > i32::MAX as u32 - 100 || opj_set_decode_area(c, i, x as i32 + m / 3, y as i32 + m / 3, (x + 2 * m as u32).min((*i).x1) as i32, (y + 3 * m as u32).min((*i).y1) as i32) == 0 {
                return Ok(false);
            }
        }
        if opj_decode(c, s.p, i) == 0 {
            return Ok(false);
        }
        opj_end_decompress(c, s.p);
        look(&p.image)?;
        Ok(true)
    }
}
/// Every sample can be read.
fn look(i: &Image) -> Result<(), String> {
    let v = i.get();
    if v.comps.is_empty() {
        return Err("an image without components".into());
    }
    Ok(())
}
/// The alterations of one byte.
fn values(old: u8, all: bool) -> Vec<u8> {
    let mut v: Vec<u8> = if all { (0..=255).collect() } else { (0..8).map(|b| old ^ 1 << b).chain([0, 1, 0x7F, 0x80, 0xFF, 0x8F, old.wrapping_add(1), old.wrapping_sub(1)]).collect() };
    v.sort();
    v.dedup();
    v.retain(|x| *x != old);
    v
}
fn check(t: &Target, bytes: Vec<u8>, way: Way, what: impl Fn() -> String, cx: &Cx) -> Result<(), String> {
    cx.tick();
    if std::env::var("C21_TRACE").is_ok() {
        eprintln!("{} {way:?}", what());
    }
    let ok = attempt(bytes, t.jp2, way).map_err(|e| format!("{} {way:?}: {e}", what()))?;
    cx.add(if ok { "decoded" } else { "refused" }, 1);
    cx.evaluations(1);
    Ok(())
}
/// One byte.
fn byte(t: &Target, at: usize, all: bool, deep: bool, cx: &Cx) -> Result<(), String> {
    let old = t.bytes[at];
    for v in values(old, all) {
        let mut b = t.bytes.clone();
        b[at] = v;
        let what = || format!("byte {at} of {} {old:#04x} -> {v:#04x}", b.len());
        check(t, b.clone(), WAYS[(at + v as usize) % WAYS.len()], what, cx)?;
        if deep {
            check(t, b.clone(), WAYS[(at + v as usize + 1 + at % 3) % WAYS.len()], what, cx)?;
        }
    }
    Ok(())
}
/// Bytes that go, come or change together.
fn fields(t: &Target, at: usize, deep: bool, cx: &Cx) -> Result<(), String> {
    let n = t.bytes.len();
    let mut l: Vec<(String, Vec<u8>)> = vec![];
    let mut b = t.bytes.clone();
    b.remove(at);
    l.push(("byte removed".into(), b));
    for v in [t.bytes[at], 0, 0xFF] {
        let mut b = t.bytes.clone();
        b.insert(at, v);
        l.push((format!("{v:#04x} inserted"), b));
    }
    for v in [0u16, 1, 2, 3, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF] {
        if at + 2 <= n {
            let mut b = t.bytes.clone();
            b[at..at + 2].copy_from_slice(&v.to_be_bytes());
            l.push((format!("16 bits -> {v:#x}"), b));
        }
    }
    for v in [0u32, 1, 12, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0xFFFFFFFE, 0xFFFFFFFF] {
        if at + 4 <= n {
            let mut b = t.bytes.clone();
            b[at..at + 4].copy_from_slice(&v.to_be_bytes());
            l.push((format!("32 bits -> {v:#x}"), b));
        }
    }
    for (i, (s, b)) in l.into_iter().enumerate() {
        if b == t.bytes {
            continue;
        }
        let what = || format!("at {at} of {n}: {s}");
        let _ = deep;
        check(t, b.clone(), WAYS[(at + i) % WAYS.len()], what, cx)?;
    }
    Ok(())
}
fn targets(l: &[[usize; 26]], cx: &mut Cx) -> Result<Vec<Target>, String> {
    let mut o = vec![];
    for v in l {
        if let Some(k) = code(v, 0, cx)? {
                o.push(Target::new(&k, false));
            if v.iter().sum::<usize>() % 8 == 0 {
                o.push(Target::new(&k, true));
            }
        }
    }
    Ok(o)
}
/// How the positions of a file are split into cases.
const SPLIT: usize = 16;
/// What is done at each position of a part of a file.
#[derive(Clone, Copy, PartialEq)]
enum Damage {
    /// all values of the bytes outside packets
    All,
    /// a menu of values of the bytes outside packets
    Menu,
    Fields,
    /// a menu of values of the bytes of packets
    Packets(usize),
}
fn damage(v: &[usize; 26], part: usize, d: Damage, deep: bool, cx: &mut Cx) -> Result<(), String> {
    for t in targets(&[*v], cx)? {
        let l: Vec<usize> = match d {
            Damage::Packets(step) if !t.jp2 => t.data.iter().cloned().flatten().filter(|at| at % step == 0).collect(),
            Damage::Packets(_) => vec![],
            // the same marker segments come in one tile-part after another
            Damage::All => t.heads.iter().take(2).chain(t.heads.last()).cloned().flatten().collect(),
            _ => t.heads.iter().take(if deep { 1000 } else { 2 }).chain(t.heads.last()).cloned().flatten().collect(),
        };
        for (i, at) in l.into_iter().enumerate() {
            if i % SPLIT != part || t.jp2 && at > if deep { 300 } else { t.boxes } {
                continue;
            }
            match d {
                Damage::All => byte(&t, at, true, deep, cx)?,
                Damage::Fields => fields(&t, at, deep, cx)?,
                _ => byte(&t, at, false, deep, cx)?,
            }
        }
    }
    Ok(())
}
fn split(name: &str, rule: &str, l: Vec<[usize; 26]>, d: Damage, deep: bool) -> Box<dyn Space> {
    let l = Rc::new(l);
    let l2 = l.clone();
    space(name, &format!("{rule}; layouts of {} choices each, positions modulo {SPLIT}", lay::RADICES.len()), (l.len() * SPLIT) as u64, move |i| format!("{} part {}", lay::show(&l2[i as usize / SPLIT]), i as usize % SPLIT), move |i, cx| damage(&l[i as usize / SPLIT], i as usize % SPLIT, d, deep, cx))
}
pub fn c21(tier: Tier) -> Check {
    let thorough = tier == Tier::Thorough;
    let some: Vec<[usize; 26]> = rotated(Tier::Quick);
    // quick: one kind of damage for each layout
    let third = |k: usize| -> Vec<[usize; 26]> { if thorough { some.clone() } else { some.iter().skip(k).step_by(3).cloned().collect() } };
    let bases: Vec<[usize; 26]> = (0..lay::BASES.len()).flat_map(|b| lay::around(b, 0)).collect();
    let mut c = Check::new("C21", "fault_enumeration");
    if thorough {
        c.budget = std::time::Duration::from_secs(780);
    }
    c
        .counter("not legal")
        .counter("not expressible")
        .counter("refused")
        .counter("decoded")
        .with(split("header bytes", "every byte outside packets, every other value", bases, Damage::All, thorough))
        .with(split("header bytes of layouts", "every byte outside packets, a menu of values", third(0), Damage::Menu, thorough))
        .with(split("header fields", "every position outside packets: a byte removed or inserted, 16 or 32 bits replaced by extreme values", third(1), Damage::Fields, thorough))
        .with(split("packets", "bytes of packets, a menu of values", third(2), Damage::Packets(if thorough { 3 } else { 7 }), thorough))
}
