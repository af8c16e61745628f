//! C22: the calls of the interface in any order.

use crate::driver::*;
use mck::*;
use openjp2::openjpeg::*;
use std::collections::BTreeMap;
use std::rc::Rc;

/// Bytes held by the process.
#[cfg(asan)]
fn held() -> i64 {
    extern "C" {
        fn __sanitizer_get_current_allocated_bytes() -> usize;
    }
    unsafe { __sanitizer_get_current_allocated_bytes() as i64 }
}
#[cfg(not(asan))]
fn held() -> i64 {
    let m = unsafe { libc::mallinfo2() };
    (m.uordblks + m.hblkhd) as i64
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum D {
    Setup,
    SetupReduced,
    Lenient,
    Header,
    Area,
    BadArea,
    WholeArea,
    Reduce,
    BadReduce,
    Components,
    BadComponents,
    Decode,
    Tile,
    BadTile,
    TileHeader,
    TileData,
    ShortTileData,
    OtherTileData,
    End,
    Info,
    Encoder,
}
const DS: [D; 21] = [
    D::Setup,
    D::SetupReduced,
    D::Lenient,
    D::Header,
    D::Area,
    D::BadArea,
    D::WholeArea,
    D::Reduce,
    D::BadReduce,
    D::Components,
    D::BadComponents,
    D::Decode,
    D::Tile,
    D::BadTile,
    D::TileHeader,
    D::TileData,
    D::ShortTileData,
    D::OtherTileData,
    D::End,
    D::Info,
    D::Encoder,
];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum E {
    Setup,
    /// with parameters that cannot be
    BadSetup,
    Options,
    BadOptions,
    Start,
    Encode,
    Tile0,
    Tile1,
    /// not as long as the tile
    ShortTile,
    BadTile,
    End,
    Info,
    Decoder,
}
const ES: [E; 13] = [E::Setup, E::BadSetup, E::Options, E::BadOptions, E::Start, E::Encode, E::Tile0, E::Tile1, E::ShortTile, E::BadTile, E::End, E::Info, E::Decoder];

/// the good one and those cut or damaged
const KINDS: usize = 5;
/// formats and tilings
const WORLDS: usize = 4;
const AREA: (i32, i32, i32, i32) = (3, 2, 9, 6);
fn picture() -> Img {
    Img::new((1, 1, 14, 8), &[(1, 1, 8, false), (2, 1, 5, true)]).fill(|c, x, y, lo, hi| {
        let v = x as i64 * 13 + y as i64 * 29 + c as i64 * 7 + (x * y) as i64 * 5;
        lo + v.rem_euclid(hi - lo + 1)
    })
}
fn params(jp2: bool, single: bool) -> Enc {
    Enc { jp2, tile: Some(if single { (16, 16) } else { (8, 8) }), tile_origin: (0, 0), res: 3, ..Enc::default() }
}
/// The samples of a tile as the tile interface takes them.
fn tile_bytes(img: &Img, x0: u32, x1: u32) -> Vec<u8> {
    let mut b = vec![];
    for c in &img.comps {
        let (a, z) = (ceil_div(x0, c.dx).max(c.x0) - c.x0, ceil_div(x1, c.dx).min(c.x0 + c.w) - c.x0);
        for y in 0..c.h {
            for x in a..z {
                b.push(c.data.as_ref().unwrap()[(y * c.w + x) as usize] as u8);
            }
        }
    }
    b
}
pub struct World {
    jp2: bool,
    /// one tile rather than two
    single: bool,
    img: Img,
    file: Vec<u8>,
    /// damaged: what becomes of them is not said
    others: Vec<Vec<u8>>,
    /// what decoding gives: (area, reduction, components)
    want: BTreeMap<(bool, u32, bool), Img>,
    /// per tile, the image of that tile alone
    tiles: BTreeMap<(u32, u32, bool), Img>,
}
impl World {
    pub fn new(jp2: bool, single: bool) -> Result<World, String> {
        let img = picture();
        let file = encode(&img, &params(jp2, single)).map_err(|e| e.to_string())?;
        let mut want = BTreeMap::new();
        let mut tiles = BTreeMap::new();
        for reduce in 0..2 {
            for one in [false, true] {
                for area in [false, true] {
                    let d = Dec { jp2, reduce, area: area.then_some(AREA), comps: one.then(|| vec![1]), ..Dec::default() };
                    want.insert((area, reduce, one), decode(&file, &d).map_err(|e| format!("{d:?}: {e}"))?);
                }
                for t in 0..2 - single as u32 {
                    let s = Stream::input(Io { data: file.clone(), ..Io::default() }, 1 << 12);
                    let d = Dec { jp2, reduce, ..Dec::default() };
                    let o = open(&s, &d).map_err(|e| e.to_string())?;
                    unsafe {
                        if one && opj_set_decoded_components(o.codec.p, 1, [1u32].as_ptr(), 0) == 0 || opj_get_decoded_tile(o.codec.p, s.p, o.image.0, t) == 0 {
                            return Err(format!("tile {t}: {}", o.codec.why()));
                        }
                    }
                    tiles.insert((t, reduce, one), o.image.get());
                }
            }
        }
        // the reference for what comes out is the picture itself
        if let Some(d) = diff(&img, &want[&(false, 0, false)]) {
            return Err(format!("the whole: {d}"));
        }
        let sot = file.windows(3).position(|w| w == [0xFF, 0x90, 0]).unwrap();
        let cut = |n: usize| file[..n].to_vec();
        let mut bad = file.clone();
        bad[sot + 13] ^= 0x40; // not SOD
        let others = vec![cut(file.len() - 60), cut(sot - 20), cut(sot + 12), bad];
        Ok(World { jp2, single, img, file, others, want, tiles })
    }
}
thread_local! {
    static DEVNULL: *mut libc::FILE = unsafe { libc::fopen(c"/dev/null".as_ptr(), c"w".as_ptr()) };
}
/// What was accepted and where that leads.
struct Seen {
    outcome: u64,
    states: Vec<u64>,
}
impl Seen {
    fn note(&mut self, got: bool, a: impl std::hash::Hash, b: impl std::hash::Hash) {
        use std::hash::{DefaultHasher, Hasher};
        let mut h = DefaultHasher::new();
        a.hash(&mut h);
        b.hash(&mut h);
        self.states.push(h.finish());
        h.write_u64(self.outcome);
        h.write_u8(got as u8);
        self.outcome = h.finish();
    }
}
/// What is known about a decoder from the calls it was given.
#[derive(Clone, Debug, PartialEq)]
struct Known {
    header: bool,
    area: bool,
    reduce: u32,
    one: bool,
    /// read_tile_header gave this tile
    tile: Option<(u32, u32)>,
    /// nothing but whole decodes so far
    decoded: bool,
    tiled: bool,
    /// what follows is not specified beyond that it is safe
    vague: bool,
    strict: bool,
    setups: u32,
}
fn run_decoder(w: &World, kind: usize, l: &[D], order: usize) -> Result<Seen, String> {
    let mut seen = Seen { outcome: kind as u64, states: vec![] };
    let s = Stream::input(Io { data: if kind > 0 { w.others[kind - 1].clone() } else { w.file.clone() }, ..Io::default() }, 1 << 8);
    let c = Codec::decoder(w.jp2);
    let mut images: Vec<Image> = vec![];
    let mut k = Known { header: false, area: false, reduce: 0, one: false, tile: None, decoded: false, tiled: false, vague: false, strict: true, setups: 0 };
    let own = Image::from(&Img::new((0, 0, 3, 2), &[(1, 1, 8, false)]).fill(|_, _, _, _, _| 1));
    for (n, op) in l.iter().enumerate() {
        let im = images.last().map_or(own.0, |i| i.0);
        let before = k.clone();
        let last = 1 - w.single as u32;
        let mut must: Option<bool> = None;
        let mut got: bool;
        unsafe {
            match op {
                D::Setup | D::SetupReduced => {
                    let mut p = Box::new(opj_dparameters_t::default());
                    opj_set_default_decoder_parameters(&mut *p);
                    p.cp_reduce = (*op == D::SetupReduced) as u32;
                    got = opj_setup_decoder(c.p, &mut *p) != 0;
                    if k.header {
                        k.vague = true;
                    } else {
                        must = Some(true);
                        k.reduce = p.cp_reduce;
                    }
                }
                D::Lenient => {
                    got = opj_decoder_set_strict_mode(c.p, 0) != 0;
                    must = Some(true);
                }
                D::Header => {
                    let mut q: *mut opj_image_t = std::ptr::null_mut();
                    got = opj_read_header(s.p, c.p, &mut q) != 0;
                    if !q.is_null() {
                        images.push(Image(q));
                    }
                    if k.header {
                        k.vague = true;
                    } else {
                        must = Some(true);
                        k.header = true;
                        k.vague |= kind > 0;
                        if q.is_null() && kind == 0 && !k.vague {
                            return Err(format!("call {n}: no image"));
                        }
                    }
                }
                D::Area | D::WholeArea => {
                    let a = if *op == D::Area { AREA } else { (0, 0, 0, 0) };
                    got = opj_set_decode_area(c.p, im, a.0, a.1, a.2, a.3) != 0;
                    if !k.header {
                        must = Some(false);
                    } else if k.decoded && !(w.single && k.area && !k.one) || k.tiled || k.tile.is_some() {
                        k.vague = true;
                    } else {
                        // a file of one tile of which an area was decoded can be decoded again
                        must = Some(true);
                        k.area = *op == D::Area;
                        k.decoded = false;
                    }
                }
                D::BadArea => {
                    got = [(20, 2, 30, 9), (-3, 2, 9, 6), (3, 20, 9, 30), (3, 2, 0, 6), (4, 3, 9, -5)].iter().any(|a| opj_set_decode_area(c.p, im, a.0, a.1, a.2, a.3) != 0);
                    must = Some(false);
                }
                D::Reduce => {
                    got = opj_set_decoded_resolution_factor(c.p, 1) != 0;
                    if !k.header {
                        must = Some(false);
                    } else if k.decoded || k.tiled || k.tile.is_some() || k.area || k.one {
                        // the area's size is settled when it is set
                        k.vague = true;
                    } else {
                        must = Some(true);
                        k.reduce = 1;
                    }
                }
                D::BadReduce => {
                    got = opj_set_decoded_resolution_factor(c.p, 3) != 0;
                    must = Some(false);
                }
                D::Components => {
                    got = opj_set_decoded_components(c.p, 1, [1u32].as_ptr(), 0) != 0;
                    if !k.header {
                        must = Some(false);
                    } else if k.decoded || k.tiled || k.tile.is_some() {
                        k.vague = true;
                    } else {
                        must = Some(true);
                        k.one = true;
                    }
                }
                D::BadComponents => {
                    got = opj_set_decoded_components(c.p, 1, [2u32].as_ptr(), 0) != 0 || opj_set_decoded_components(c.p, 2, [1u32, 1].as_ptr(), 0) != 0 || opj_set_decoded_components(c.p, 1, [0u32].as_ptr(), 1) != 0;
                    must = Some(false);
                }
                D::Decode => {
                    got = opj_decode(c.p, s.p, im) != 0;
                    if !k.header {
                        must = Some(false);
                    } else if k.decoded || k.tiled || k.tile.is_some() {
                        k.vague = true;
                    } else {
                        must = Some(true);
                        k.decoded = true;
                    }
                }
                D::Tile => {
                    got = opj_get_decoded_tile(c.p, s.p, im, last) != 0;
                    if !k.header {
                        must = Some(false);
                    } else if k.decoded || k.tile.is_some() || k.area || k.one && k.tiled {
                        // the image has other components than the file after a selection
                        k.vague = true;
                    } else {
                        must = Some(true);
                        k.tiled = true;
                    }
                }
                D::BadTile => {
                    got = opj_get_decoded_tile(c.p, s.p, im, 2) != 0 || opj_get_decoded_tile(c.p, s.p, im, u32::MAX) != 0;
                    must = Some(false);
                }
                D::TileHeader => {
                    let (mut t, mut size, mut nb, mut go) = (77u32, 0u32, 0u32, 0);
                    let mut r = [0i32; 4];
                    let [x0, y0, x1, y1] = &mut r;
                    got = opj_read_tile_header(c.p, s.p, &mut t, &mut size, x0, y0, x1, y1, &mut nb, &mut go) != 0;
                    if !k.header {
                        must = Some(false);
                    } else if k.decoded || k.tiled || k.area || k.one {
                        k.vague = true;
                    }
                    if got && go != 0 {
                        if k.tile.is_none() && !k.vague && (t != 0 || nb != 2) {
                            return Err(format!("call {n}: the first tile is {t} with {nb} components"));
                        }
                        k.tile = Some((t, size));
                    } else if k.header && !k.vague {
                        if k.tile.is_none() {
                            return Err(format!("call {n}: no tile header"));
                        }
                        k.vague = true;
                    }
                }
                D::TileData | D::ShortTileData | D::OtherTileData => {
                    let (t, size) = k.tile.unwrap_or((0, 200));
                    let size = if *op == D::ShortTileData { size - 1 } else { size };
                    let mut b = vec![0xA5u8; size as usize];
                    got = opj_decode_tile_data(c.p, if *op == D::OtherTileData { t ^ 1 } else { t }, b.as_mut_ptr(), size, s.p) != 0;
                    if *op != D::TileData {
                        must = Some(false)
                    } else if k.tile.is_none() {
                        if !k.decoded {
                            must = Some(false);
                        }
                    } else if !k.vague {
                        must = Some(true);
                        let half = |c: &Img| tile_bytes(c, 0, 100);
                        let want = half(&w.tiles[&(t, k.reduce, false)]);
                        if got && b != want {
                            return Err(format!("call {n}: tile {t} has other samples: {:?} / {:?}", &b[..b.len().min(12)], &want[..want.len().min(12)]));
                        }
                        k.vague = true; // the next header follows
                        if let Some(D::TileHeader) = l.get(n + 1) {
                            k.vague = false;
                        }
                        k.tile = None;
                        k.decoded = false;
                        if t == last {
                            k.vague = true;
                        } else if !k.vague {
                            // only another tile header can follow
                            k.tile = Some((99, 200));
                        }
                    }
                }
                D::End => {
                    got = opj_end_decompress(c.p, s.p) != 0;
                    if k.header && k.decoded && !k.vague {
                        must = Some(true);
                    }
                    k.vague = true;
                }
                D::Info => {
                    let mut i = opj_get_cstr_info(c.p);
                    got = !i.is_null();
                    if !i.is_null() {
                        opj_destroy_cstr_info(&mut i);
                    }
                    let mut x = opj_get_cstr_index(c.p);
                    if !x.is_null() {
                        opj_destroy_cstr_index(&mut x);
                    }
                    DEVNULL.with(|f| opj_dump_codec(c.p, [1 + 2 + 8 + 16, 128, 256, -1][n % 4], *f as *mut _));
                    if k.header && !k.vague {
                        must = Some(true);
                    }
                }
                D::Encoder => {
                    let mut p = Params::new(&params(w.jp2, w.single)).unwrap();
                    let other = Image::from(&w.img);
                    let mut b = tile_bytes(&w.img, 0, 8);
                    let none: [*const std::ffi::c_char; 2] = [b"PLT=YES\0".as_ptr() as _, std::ptr::null()];
                    let r = [
                        opj_setup_encoder(c.p, &mut *p.p, other.0),
                        opj_encoder_set_extra_options(c.p, none.as_ptr()),
                        opj_start_compress(c.p, other.0, s.p),
                        opj_encode(c.p, s.p),
                        opj_write_tile(c.p, 0, b.as_mut_ptr(), b.len() as u32, s.p),
                        opj_end_compress(c.p, s.p),
                    ];
                    if r != [0; 6] {
                        return Err(format!("call {n}: a decoder accepts calls of an encoder: {r:?}"));
                    }
                    got = false;
                    must = Some(false);
                }
            }
        }
        if before.vague || k.vague && *op != D::End {
            // only what must be refused is
            if must == Some(true) {
                must = None;
            }
            if before.vague && !matches!(op, D::BadArea | D::BadComponents | D::BadTile | D::Encoder | D::OtherTileData) {
                must = None;
            }
        }
        if let Some(m) = must {
            if m != got {
                return Err(format!("call {n} {op:?} is {}: {}", if got { "accepted" } else { "refused" }, c.why()));
            }
        }
        if got && must == Some(true) && !k.vague {
            let want = match op {
                D::Decode => Some(&w.want[&(k.area, k.reduce, k.one)]),
                D::Tile => Some(&w.tiles[&(last, k.reduce, k.one)]),
                _ => None,
            };
            if let Some(d) = want.and_then(|x| diff(&images.last().map_or_else(|| own.get(), |i| i.get()), x)) {
                return Err(format!("call {n} {op:?}: {d}"));
            }
        }
        seen.note(got, (k.header, k.area, k.reduce, k.one, k.tile), (k.decoded, k.tiled, k.vague, kind, w.jp2, w.single));
        if let Some(m) = &s.io.as_ref().unwrap().misuse {
            return Err(format!("call {n}: stream misused: {m}"));
        }
    }
    // in any order
    match order % 3 {
        0 => {
            drop(s);
            drop(c);
            drop(images);
        }
        1 => {
            drop(images);
            drop(c);
            drop(s);
        }
        _ => {
            drop(c);
            drop(s);
            drop(images);
        }
    }
    Ok(seen)
}
fn run_encoder(w: &World, l: &[E], order: usize) -> Result<Seen, String> {
    let mut seen = Seen { outcome: 99, states: vec![] };
    let mut s = Stream::output(Io::default(), 1 << 8);
    let c = Codec::encoder(w.jp2);
    let mut images: Vec<Image> = vec![];
    // 0: fresh, 1: set up, 2: started, 3: everything written, 4: done
    let (mut state, mut vague, mut tiles, mut opt) = (0, false, 0u32, false);
    let mut done = None;
    for (n, op) in l.iter().enumerate() {
        let was = vague;
        let mut must: Option<bool> = None;
        let got: bool;
        unsafe {
            match op {
                E::Setup | E::BadSetup => {
                    let mut p = Params::new(&params(w.jp2, w.single)).unwrap();
                    if *op == E::BadSetup {
                        p.p.numresolution = 34;
                    }
                    let i = Image::from(&w.img);
                    got = opj_setup_encoder(c.p, &mut *p.p, i.0) != 0;
                    images.push(i);
                    must = Some(*op == E::Setup);
                    if *op == E::BadSetup || state != 0 {
                        // what is left of a setup is not said
                        vague |= state != 0;
                    } else {
                        state = 1;
                    }
                }
                E::Options => {
                    got = set_extra(&c, &["PLT=NO".into()]);
                    if state == 1 {
                        must = Some(true);
                    }
                    opt |= got;
                }
                E::BadOptions => {
                    got = set_extra(&c, &["PLT=MAYBE".into()]) || set_extra(&c, &["XYZ=1".into()]) || set_extra(&c, &["TLM".into()]);
                    must = Some(false);
                }
                E::Start => {
                    let i = Image::from(&w.img);
                    got = opj_start_compress(c.p, i.0, s.p) != 0;
                    images.push(i);
                    match state {
                        0 => must = Some(false),
                        1 => {
                            must = Some(true);
                            state = 2;
                        }
                        _ => vague = true,
                    }
                }
                E::Encode => {
                    got = opj_encode(c.p, s.p) != 0;
                    match (state, tiles) {
                        (0 | 1, _) => must = Some(false),
                        (2, 0) => {
                            must = Some(true);
                            state = 3;
                        }
                        _ => vague = true,
                    }
                }
                E::Tile0 | E::Tile1 | E::ShortTile | E::BadTile => {
                    let (t, a, z) = match op {
                        E::Tile0 => (0, 0, if w.single { 16 } else { 8 }),
                        E::Tile1 => (1, 8, 16),
                        E::ShortTile => (tiles.min(1), 0, 8),
                        _ => (2, 8, 16),
                    };
                    let mut b = tile_bytes(&w.img, a, z);
                    if *op == E::ShortTile {
                        b.pop();
                        b.pop();
                        b.pop();
                        b.pop();
                        b.pop();
                    }
                    got = opj_write_tile(c.p, t, b.as_mut_ptr(), b.len() as u32, s.p) != 0;
                    if state < 2 || matches!(op, E::ShortTile | E::BadTile) {
                        must = Some(false);
                        if state >= 2 {
                            vague = true;
                        }
                    } else if t == tiles && state == 2 {
                        must = Some(true);
                        tiles += 1;
                        if tiles == 2 - w.single as usize as u32 {
                            state = 3;
                        }
                    } else {
                        vague = true;
                    }
                }
                E::End => {
                    got = opj_end_compress(c.p, s.p) != 0;
                    match state {
                        0 | 1 => must = Some(false),
                        3 if !vague => {
                            must = Some(true);
                            state = 4;
                            done = Some(n);
                        }
                        _ => vague = true,
                    }
                }
                E::Info => {
                    let mut i = opj_get_cstr_info(c.p);
                    got = !i.is_null();
                    if !i.is_null() {
                        opj_destroy_cstr_info(&mut i);
                    }
                    let mut x = opj_get_cstr_index(c.p);
                    if !x.is_null() {
                        opj_destroy_cstr_index(&mut x);
                    }
                    DEVNULL.with(|f| opj_dump_codec(c.p, [1 + 2 + 8 + 16, 128, 256, -1][n % 4], *f as *mut _));
                }
                E::Decoder => {
                    let im = images.last().map_or(std::ptr::null_mut(), |i| i.0);
                    let other = Image::from(&w.img);
                    let im = if im.is_null() { other.0 } else { im };
                    let mut p = Box::new(opj_dparameters_t::default());
                    opj_set_default_decoder_parameters(&mut *p);
                    let (mut t, mut size, mut nb, mut go) = (77u32, 0u32, 0u32, 0);
                    let mut r = [0i32; 4];
                    let [x0, y0, x1, y1] = &mut r;
                    let mut b = vec![0u8; 300];
                    let mut q: *mut opj_image_t = std::ptr::null_mut();
                    let r = [
                        opj_setup_decoder(c.p, &mut *p),
                        opj_decoder_set_strict_mode(c.p, 0),
                        opj_read_header(s.p, c.p, &mut q),
                        opj_set_decoded_components(c.p, 1, [0u32].as_ptr(), 0),
                        opj_set_decode_area(c.p, im, 0, 0, 4, 4),
                        opj_set_decoded_resolution_factor(c.p, 1),
                        opj_decode(c.p, s.p, im),
                        opj_read_tile_header(c.p, s.p, &mut t, &mut size, x0, y0, x1, y1, &mut nb, &mut go),
                        opj_decode_tile_data(c.p, 0, b.as_mut_ptr(), 300, s.p),
                        opj_get_decoded_tile(c.p, s.p, im, 0),
                        opj_end_decompress(c.p, s.p),
                    ];
                    if r != [0; 11] || !q.is_null() {
                        return Err(format!("call {n}: an encoder accepts calls of a decoder: {r:?}"));
                    }
                    got = false;
                }
            }
        }
        if was && !matches!(op, E::BadSetup | E::BadTile | E::BadOptions) || vague && must == Some(true) {
            must = None;
        }
        if let Some(m) = must {
            if m != got {
                return Err(format!("call {n} {op:?} is {}: {}", if got { "accepted" } else { "refused" }, c.why()));
            }
        }
        seen.note(got, (state, vague, tiles, opt), (w.jp2, w.single));
        if let Some(m) = &s.io.as_ref().unwrap().misuse {
            return Err(format!("call {n}: stream misused: {m}"));
        }
    }
    let mut io = s.io.take().unwrap();
    match order % 2 {
        0 => {
            drop(s);
            drop(c);
            drop(images);
        }
        _ => {
            drop(images);
            drop(c);
            drop(s);
        }
    }
    if done.map_or(false, |n| n + 1 == l.len()) && !vague {
        let b = std::mem::take(&mut io.data);
        if b != w.file {
            return Err(format!("the file differs from one encoded without detours: {} / {} bytes", b.len(), w.file.len()));
        }
    }
    Ok(seen)
}
/// All the sequences that begin with two given calls, up to a length.
fn sequences<T: Copy + PartialEq + std::fmt::Debug>(all: &[T], head: &[T], depth: usize, mut f: impl FnMut(&[T], usize) -> Result<Seen, String>, cx: &mut Cx) -> Result<(), String> {
    let mut stack = vec![head.to_vec()];
    if head[0] == head[1] {
        // the shorter ones
        f(&head[..1], 0).map_err(|e| format!("{:?}: {e}", &head[..1]))?;
        f(&head[..0], 1)?;
    }
    let mut n = 0;
    while let Some(l) = stack.pop() {
        cx.tick();
        if std::env::var("C22_TRACE").is_ok() {
            eprintln!("{l:?}");
        }
        n += 1;
        let mut leak = 0;
        for round in 0..3 {
            let a = held();
            let seen = f(&l, n).map_err(|e| format!("{l:?}: {e}"))?;
            if round == 0 {
                // those of the sequence's beginning have been noted with that
                if let Some(s) = seen.states.last() {
                    cx.state(*s);
                }
                cx.outcome(seen.outcome);
            }
            drop(seen);
            leak = held() - a;
            if leak == 0 {
                break;
            }
            cx.add("measured again", (round == 0) as u64);
        }
        if leak != 0 {
            return Err(format!("{l:?}: {leak} bytes stay allocated"));
        }
        cx.add("sequences", 1);
        cx.transitions(l.len() as u64);
        cx.evaluations(1);
        if l.len() < depth {
            for x in all {
                let mut m = l.clone();
                m.push(*x);
                stack.push(m);
            }
        }
    }
    Ok(())
}
fn heads<T: Copy>(all: &[T]) -> Vec<Vec<T>> {
    let mut v = vec![];
    for a in all {
        for b in all {
            v.push(vec![*a, *b]);
        }
    }
    v
}
pub fn c22(tier: Tier) -> Check {
    let thorough = tier == Tier::Thorough;
    let (dd, de) = if thorough { (5, 6) } else { (4, 5) };
    let w: Rc<Vec<World>> = Rc::new([(false, false), (true, false), (false, true), (true, true)].iter().map(|(j, o)| World::new(*j, *o).unwrap()).collect());
    let (hd, he) = (Rc::new(heads(&DS)), Rc::new(heads(&ES)));
    let (hd2, he2) = (hd.clone(), he.clone());
    let (w3, w4) = (w.clone(), w.clone());
    let (hd3, hd4) = (hd.clone(), hd.clone());
    Check::new("C22", "model_checking")
        .counter("sequences")
        .counter("measured again")
        .with(space("decoder", &format!("all sequences of up to {dd} of {} calls, on two formats, one or two tiles, the file as it is", DS.len()), (hd.len() * WORLDS) as u64, move |i| format!("{:?} world {}", hd2[i as usize / WORLDS], i as usize % WORLDS), move |i, cx| {
            let i = i as usize;
            sequences(&DS, &hd[i / WORLDS], dd, |l, n| run_decoder(&w[i % WORLDS], 0, l, n), cx)
        }))
        .with(space("decoder of damaged files", &format!("all sequences of up to 4 of {} calls, on two formats, one or two tiles, {} files", DS.len(), KINDS - 1), (hd3.len() * WORLDS * (KINDS - 1)) as u64, move |i| format!("{:?} world {} file {}", hd4[i as usize / WORLDS / (KINDS - 1)], i as usize % WORLDS, 1 + i as usize / WORLDS % (KINDS - 1)), move |i, cx| {
            let i = i as usize;
            sequences(&DS, &hd3[i / WORLDS / (KINDS - 1)], 4, |l, n| run_decoder(&w4[i % WORLDS], 1 + i / WORLDS % (KINDS - 1), l, n), cx)
        }))
        .with(space("encoder", &format!("all sequences of up to {de} of {} calls, two formats, one or two tiles", ES.len()), (he.len() * WORLDS) as u64, move |i| format!("{:?} world {}", he2[i as usize / WORLDS], i as usize % WORLDS), move |i, cx| {
            sequences(&ES, &he[i as usize / WORLDS], de, |l, n| run_encoder(&w3[i as usize % WORLDS], l, n), cx)
        }))
}
