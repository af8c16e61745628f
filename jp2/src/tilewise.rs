//! C27: encoding tile by tile.

use crate::conf;
use crate::driver::*;
use mck::*;
use std::rc::Rc;

/// The tiles' areas.
pub fn tiles(img: &Img, e: &Enc) -> Vec<(u32, u32, u32, u32)> {
    let (ox, oy) = (e.tile_origin.0 as u32, e.tile_origin.1 as u32);
    let (w, h) = e.tile.map_or((img.x1 - ox, img.y1 - oy), |(w, h)| (w as u32, h as u32));
    let mut v = vec![];
    for q in 0..ceil_div(img.y1 - oy, h) {
        for p in 0..ceil_div(img.x1 - ox, w) {
            v.push(((ox + p * w).max(img.x0), (oy + q * h).max(img.y0), (ox + (p + 1) * w).min(img.x1), (oy + (q + 1) * h).min(img.y1)));
        }
    }
    v
}
/// A tile's samples as the tile interface takes them: component after component, in as many bytes as
/// the precision needs (four rather than three), of the machine's order.
pub fn samples(img: &Img, t: (u32, u32, u32, u32)) -> Vec<u8> {
    let mut b = vec![];
    for c in &img.comps {
        let d = c.data.as_ref().unwrap();
        for y in ceil_div(t.1, c.dy)..ceil_div(t.3, c.dy) {
            for x in ceil_div(t.0, c.dx)..ceil_div(t.2, c.dx) {
                let v = d[((y - c.y0) * c.w + x - c.x0) as usize];
                match c.prec.div_ceil(8) {
                    1 => b.push(v as u8),
                    2 => b.extend((v as u16).to_ne_bytes()),
                    _ => b.extend(v.to_ne_bytes()),
                }
            }
        }
    }
    b
}
struct Encoder {
    /// before the stream and the image: it goes first
    codec: Codec,
    image: Image,
    stream: Stream,
    _params: Params,
}
impl Encoder {
    fn new(img: &Img, e: &Enc, data: bool) -> Result<Encoder, Refused> {
        let codec = Codec::encoder(e.jp2);
        let mut params = Params::new(e).unwrap();
        let image = if data { Image::from(img) } else { Image::without_data(img) };
        let stream = Stream::output(Io::default(), e.bufsize);
        let no = |stage| Err(Refused { stage, why: codec.why() });
        unsafe {
            if opj_setup(&codec, &mut params, &image) == 0 {
                return no(Stage::Setup);
            }
            if !e.extra.is_empty() && !set_extra(&codec, &e.extra) {
                return no(Stage::Options);
            }
            if openjp2::openjpeg::opj_start_compress(codec.p, image.0, stream.p) == 0 {
                return no(Stage::Start);
            }
        }
        Ok(Encoder { codec, image, stream, _params: params })
    }
    fn tile(&mut self, t: u32, b: &[u8]) -> bool {
        let mut b = b.to_vec();
        b.reserve(1); // never a dangling pointer
        unsafe { openjp2::openjpeg::opj_write_tile(self.codec.p, t, b.as_mut_ptr(), b.len() as u32, self.stream.p) != 0 }
    }
    fn end(&mut self) -> bool {
        unsafe { openjp2::openjpeg::opj_end_compress(self.codec.p, self.stream.p) != 0 }
    }
    fn bytes(self) -> Result<Vec<u8>, String> {
        let Encoder { codec, image, mut stream, _params } = self;
        let mut io = stream.io.take().unwrap();
        drop((codec, image));
        drop(stream);
        match io.misuse.take() {
            Some(m) => Err(format!("stream misused: {m}")),
            None => Ok(std::mem::take(&mut io.data)),
        }
    }
}
unsafe fn opj_setup(c: &Codec, p: &mut Params, i: &Image) -> i32 {
    openjp2::openjpeg::opj_setup_encoder(c.p, &mut *p.p, i.0)
}

/// Both ways of encoding give the same bytes.
fn same(img: &Img, e: &Enc, cx: &mut Cx) -> Result<(), String> {
    let whole = encode(img, e);
    for data in [false, true] {
        cx.evaluations(1);
        let with = if data { "image with samples" } else { "image without samples" };
        let parts = (|| {
            let mut k = Encoder::new(img, e, data)?;
            for (i, &t) in tiles(img, e).iter().enumerate() {
                if !k.tile(i as u32, &samples(img, t)) {
                    return Err(Refused { stage: Stage::Encode, why: k.codec.why() });
                }
            }
            if !k.end() {
                return Err(Refused { stage: Stage::End, why: k.codec.why() });
            }
            k.bytes().map_err(|why| Refused { stage: Stage::Open, why })
        })();
        match (&whole, &parts) {
            (Ok(a), Ok(b)) if a == b => {
                cx.outcome(hash_bytes(a));
            }
            (Ok(a), Ok(b)) => {
                let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                return Err(format!("{with}: {} bytes whole, {} tile by tile, the first difference at {i}", a.len(), b.len()));
            }
            // the encoder's output estimate and its limits are the same for both
            (Err(a), Err(b)) if a.stage == b.stage => cx.add("refused both ways", 1),
            (a, b) => return Err(format!("{with}: whole {}, tile by tile {}", show(a), show(b))),
        }
    }
    if let Err(r) = &whole {
        if !(r.stage == Stage::Encode && conf::demanding(img, e) || r.stage == Stage::Start && conf::many_parts(img, e)) {
            return Err(format!("not encoded: {r}"));
        }
    }
    Ok(())
}
fn show(r: &Result<Vec<u8>, Refused>) -> String {
    match r {
        Ok(b) => format!("gives {} bytes", b.len()),
        Err(e) => e.to_string(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    /// the next tile
    Next,
    /// the one written last (or the last of all)
    Again,
    /// the one after the next
    Skip,
    /// no such tile
    Beyond,
    /// the next tile, a byte short
    Short,
    /// the next tile, a byte too many
    Long,
    /// the next tile, no samples at all
    Empty,
    /// no buffer
    Null,
    /// another tile's samples' worth
    OtherSize,
    End,
}
const DOS: [Do; 10] = [Do::Next, Do::Again, Do::Skip, Do::Beyond, Do::Short, Do::Long, Do::Empty, Do::Null, Do::OtherSize, Do::End];

fn run(img: &Img, e: &Enc, whole: &[u8], l: &[Do], cx: &mut Cx) -> Result<(), String> {
    let all = tiles(img, e);
    let n = all.len() as u32;
    let mut k = Encoder::new(img, e, false).map_err(|r| r.to_string())?;
    let mut next = 0;
    for (i, d) in l.iter().enumerate() {
        cx.transitions(1);
        let right = |t: u32| all.get(t as usize).map_or(vec![0; 4], |&a| samples(img, a));
        let (got, must) = match d {
            Do::Next => (k.tile(next, &right(next)), next < n),
            Do::Again => {
                let t = if next == 0 { n - 1 } else { next - 1 };
                (k.tile(t, &right(t)), n == 1 && next == 0)
            }
            Do::Skip => (k.tile(next + 1, &right(next + 1)), false),
            Do::Beyond => (k.tile([n, u32::MAX][i % 2], &right(0)), false),
            Do::Short | Do::Long | Do::Empty => {
                let mut b = right(next);
                match d {
                    Do::Short => b.truncate(b.len() - 1),
                    Do::Long => b.push(0),
                    _ => b.clear(),
                }
                (k.tile(next, &b), false)
            }
            Do::Null => (unsafe { openjp2::openjpeg::opj_write_tile(k.codec.p, next, std::ptr::null_mut(), right(next).len() as u32, k.stream.p) != 0 }, false),
            Do::OtherSize => {
                let a = right(next);
                let Some(b) = (0..n).map(right).find(|b| b.len() != a.len()) else { continue };
                (k.tile(next, &b), false)
            }
            Do::End => (k.end(), next == n),
        };
        if got != must {
            return Err(format!("call {i}, {d:?} after {next} of {n} tiles: {}", if got { "accepted" } else { "refused" }));
        }
        match d {
            Do::End if must => {
                let b = k.bytes()?;
                if b != whole {
                    let i = b.iter().zip(whole).position(|(x, y)| x != y).unwrap_or(b.len().min(whole.len()));
                    return Err(format!("{} bytes, {} with the whole image; the first difference at {i}", b.len(), whole.len()));
                }
                cx.outcome(hash_bytes(&b));
                return Ok(());
            }
            // what may follow is not said
            Do::End => return Ok(()),
            _ if must => next += 1,
            _ => {}
        }
        cx.state(hash_bytes(format!("{n} {next} {}", k.stream.io.as_ref().unwrap().data.len()).as_bytes()));
    }
    Ok(())
}

pub fn c27(tier: Tier) -> Check {
    let deep = tier == Tier::Thorough;
    let mut c = Check::new("C27", "exploration").counter("refused both ways");
    for (b, t) in (if deep { [3, 3, 3, 3] } else { [2, 2, 2, 2] }).into_iter().enumerate() {
        for irreversible in [false, true] {
            let t = if irreversible { t - 1 } else { t };
            let l: Vec<_> = conf::around(b, t).into_iter().filter(|v| conf::build(v, irreversible).is_some()).collect();
            let (l, what) = (Rc::new(l), if irreversible { "irreversible" } else { "reversible" });
            let l2 = l.clone();
            c = c.with(space(
                &format!("{what}{b}"),
                &format!("all legal {what} configurations that differ from base {b} ({}) in at most {t} of {} parameters, the image given with samples and without", conf::show(&conf::BASES[b]), conf::RADICES.len()),
                l.len() as u64,
                move |i| conf::show(&l2[i as usize]),
                move |i, cx| {
                    let (img, e) = conf::build(&l[i as usize], irreversible).unwrap();
                    same(&img, &e, cx)
                },
            ));
        }
    }
    // every precision, every extreme
    let rad = [24, 2, conf::NPATTERNS, 2, 2];
    c = c.with(space("precisions", "every precision of 1..24 bits, signed and unsigned, every content, one and three components, one and four tiles", product(&rad), move |i| format!("{:?}", mixed(i, &rad)), move |i, cx| {
        let d = mixed(i, &rad);
        let p = d[0] as u32 + 1;
        let img = Img::new((3, 2, 15, 13), &vec![(1, 1, p, d[1] == 1); [1, 3][d[3]]]).fill(|c, x, y, lo, hi| conf::pattern(d[2], c, x, y, lo, hi));
        let e = Enc { res: 3, tile: [None, Some((8, 9))][d[4]], jp2: d[3] == 1, ..Enc::default() };
        same(&img, &e, cx)
    }));
    // every grid
    let n = if deep { 12 } else { 8 };
    let rad = [n, n, 3, 3, 3];
    c = c.with(space("grids", &format!("every tile size of 1..{n} a side and grid origin below 3 on a sub-sampled image of 9x10 at (2, 3), 1..3 resolutions"), product(&rad), move |i| format!("{:?}", mixed(i, &rad)), move |i, cx| {
        let d = mixed(i, &rad);
        let (w, h) = (d[0] as i32 + 1, d[1] as i32 + 1);
        let (ox, oy) = (d[2] as i32, d[3] as i32);
        if ox + w <= 2 || oy + h <= 3 || w.min(h) < 1 << d[4] {
            return Ok(());
        }
        let img = Img::new((2, 3, 11, 13), &[(1, 1, 8, false), (2, 1, 12, true)]).fill(|c, x, y, lo, hi| conf::pattern(0, c, x, y, lo, hi));
        same(&img, &Enc { tile: Some((w, h)), tile_origin: (ox, oy), res: d[4] as i32 + 1, cb: (4, 8), ..Enc::default() }, cx)
    }));
    // every order of calls
    let depth = if deep { 6 } else { 5 };
    // (tiles of different sizes, and alike)
    for (name, area, tile, jp2, extra) in [
        ("one tile", (2, 1, 20, 17), (20, 17), false, vec![]),
        ("two tiles", (2, 1, 20, 17), (12, 17), true, vec!["TLM=YES".to_string()]),
        ("four tiles", (2, 1, 20, 17), (12, 9), false, vec!["PLT=YES".to_string()]),
        ("two tiles alike", (0, 0, 24, 9), (12, 9), false, vec![]),
        ("three tiles alike", (0, 0, 8, 24), (8, 8), true, vec!["PLT=YES".to_string(), "TLM=YES".to_string()]),
    ] {
        let img = Img::new(area, &[(1, 1, 8, false), (2, 1, 12, true)]).fill(|c, x, y, lo, hi| conf::pattern(0, c, x, y, lo, hi));
        let e = Enc { tile: Some(tile), res: 3, jp2, extra, layers: 2, rates: vec![6., 0.], tp: jp2.then_some(b'R'), ..Enc::default() };
        let whole = encode(&img, &e).map_err(|r| r.to_string());
        // one group of sequences per first three calls, each with every continuation
        let n = DOS.len() as u64;
        let rest = depth - 2;
        c = c.with(space(&format!("calls, {name}"), &format!("every sequence of {depth} calls (and every shorter one) out of {DOS:?}"), n * n, move |i| format!("{:?} {:?}", DOS[(i % n) as usize], DOS[(i / n) as usize]), move |i, cx| {
            let whole = whole.as_ref().map_err(|e| e.clone())?;
            // after each of them the encoding is completed, if it can be
            for k in 0..n.pow(rest as u32) {
                let mut l = vec![DOS[(i % n) as usize], DOS[(i / n) as usize]];
                let mut x = k;
                for _ in 0..rest {
                    l.push(DOS[(x % n) as usize]);
                    x /= n;
                }
                // nothing follows an End
                if let Some(p) = l.iter().position(|d| *d == Do::End) {
                    if l[p + 1..].iter().any(|d| *d != Do::End) {
                        continue;
                    }
                    l.truncate(p + 1);
                } else {
                    let done = l.iter().filter(|d| **d == Do::Next).count();
                    let all = tiles(&img, &e).len();
                    let mut done = done.min(all);
                    if all == 1 && l[0] == Do::Again {
                        done = 1;
                    }
                    l.extend(std::iter::repeat(Do::Next).take(all - done));
                    l.push(Do::End);
                }
                cx.tick();
                run(&img, &e, whole, &l, cx).map_err(|m| format!("{l:?}: {m}"))?;
            }
            Ok(())
        }));
    }
    c.assume("Configurations the encoder may refuse (see C10) must be refused at the same stage both ways.")
}
