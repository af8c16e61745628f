//! C18 to C20: how bytes come and go.

use crate::conf;
use crate::driver::*;
use crate::jp2box;
use crate::views::*;
use mck::*;
use openjp2::openjpeg::*;

/// What is asked of a decoder.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Whole,
    Window,
    /// tiles one by one, the last one first
    Tiles,
    /// tiles as they come
    Streamed,
}
pub const OPS: [Op; 4] = [Op::Whole, Op::Window, Op::Tiles, Op::Streamed];
/// Everything a decode yields, as numbers.
pub type Out = Vec<i32>;
fn flat(i: &Img, o: &mut Out) {
    o.extend([i.x0, i.y0, i.x1, i.y1, i.comps.len() as u32].map(|x| x as i32));
    for c in &i.comps {
        o.extend([c.dx, c.dy, c.prec, c.sgnd as u32, c.w, c.h, c.x0, c.y0, c.factor].map(|x| x as i32));
        o.extend(c.data.iter().flatten());
    }
}
/// `w` is the window of Op::Window, `n` the number of tiles.
pub fn run(s: &Stream, d: &Dec, op: Op, w: (i32, i32, i32, i32), n: u32) -> Result<Out, Refused> {
    let mut o = vec![];
    match op {
        Op::Whole => flat(&decode_from(s, d)?, &mut o),
        Op::Window => flat(&decode_from(s, &Dec { area: Some(w), ..d.clone() })?, &mut o),
        Op::Tiles => {
            let p = open(s, d)?;
            for t in (0..n).rev() {
                if unsafe { opj_get_decoded_tile(p.codec.p, s.p, p.image.0, t) } == 0 {
                    return Err(Refused { stage: Stage::Decode, why: p.codec.why() });
                }
                flat(&p.image.get(), &mut o);
            }
        }
        Op::Streamed => {
            let p = open(s, d)?;
            loop {
                let (mut t, mut size, mut nb, mut go) = (0u32, 0u32, 0u32, 0);
                let mut r = [0i32; 4];
                let [a, b, c, e] = &mut r;
                let no = || Err(Refused { stage: Stage::Decode, why: p.codec.why() });
                unsafe {
                    if opj_read_tile_header(p.codec.p, s.p, &mut t, &mut size, a, b, c, e, &mut nb, &mut go) == 0 {
                        return no();
                    }
                    if go == 0 {
                        break;
                    }
                    o.push(t as i32);
                    o.extend(r);
                    let mut buf = vec![0u8; size as usize];
                    if opj_decode_tile_data(p.codec.p, t, buf.as_mut_ptr(), size, s.p) == 0 {
                        return no();
                    }
                    o.extend(buf.iter().map(|b| *b as i32));
                }
            }
            if unsafe { opj_end_decompress(p.codec.p, s.p) } == 0 {
                return Err(Refused { stage: Stage::DecodeEnd, why: p.codec.why() });
            }
        }
    }
    Ok(o)
}
/// A file, an operation on it, and what comes of it when all bytes are there at once.
struct Job {
    bytes: Vec<u8>,
    dec: Dec,
    op: Op,
    w: (i32, i32, i32, i32),
    n: u32,
    out: Out,
    calls: usize,
}
/// What the stream did besides what it was asked for.
struct Seen {
    ncalls: usize,
    failed: usize,
    failed_at: Option<i64>,
}
impl Job {
    fn new(k: &Code, jp2: bool, op: Op, strict: bool) -> Result<Option<Job>, String> {
        let bytes = if jp2 { jp2box::wrap(&k.bytes, &k.siz) } else { k.bytes.clone() };
        let a = k.siz.area();
        let w = ((a.x0 + (a.x1 - a.x0) / 3) as i32, (a.y0 + (a.y1 - a.y0) / 3) as i32, a.x1 as i32, (a.y1 - (a.y1 - a.y0) / 4) as i32);
        let mut j = Job { bytes, dec: Dec { jp2, strict, ..Dec::default() }, op, w, n: k.siz.ntiles(), out: vec![], calls: 0 };
        match j.go(Io::default(), 1 << 16)? {
            (Ok(o), s) => {
                j.out = o;
                j.calls = s.ncalls;
                Ok(Some(j))
            }
            // windows and tiles without samples of a component may be refused
            (Err(_), _) if op == Op::Tiles || op == Op::Window => Ok(None),
            (Err(e), _) => Err(format!("{op:?} of everything at once: {e}")),
        }
    }
    fn go(&self, io: Io, bufsize: usize) -> Result<(Result<Out, Refused>, Seen), String> {
        let mut s = Stream::input(Io { data: self.bytes.clone(), ..io }, bufsize);
        let r = run(&s, &self.dec, self.op, self.w, self.n);
        let io = s.io.take().unwrap();
        drop(s);
        if let Some(m) = &io.misuse {
            return Err(format!("stream misused: {m}"));
        }
        if io.freed != 1 {
            return Err(format!("user data released {} times", io.freed));
        }
        Ok((r, Seen { ncalls: io.ncalls, failed: io.failed, failed_at: io.failed_at }))
    }
    fn same(&self, io: Io, bufsize: usize) -> Result<usize, String> {
        match self.go(io, bufsize)? {
            (Err(e), _) => Err(format!("{e}")),
            (Ok(o), _) if o != self.out => Err(differ(&o, &self.out)),
            (Ok(_), s) => Ok(s.ncalls),
        }
    }
}
fn differ(a: &Out, b: &Out) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("number {i} of what comes out is {} instead of {}", a[i], b[i]),
        None => format!("{} numbers come out instead of {}", a.len(), b.len()),
    }
}
fn jobs(v: &[usize; 26], cx: &mut Cx, mut f: impl FnMut(&Job, &mut Cx) -> Result<(), String>) -> Result<(), String> {
    let Some(k) = code(v, 0, cx)? else { return Ok(()) };
    for jp2 in [false, true] {
        for op in OPS {
            let what = |e| format!("{op:?} of {}: {e}", if jp2 { "a JP2 file" } else { "a codestream" });
            let Some(j) = Job::new(&k, jp2, op, true)? else {
                cx.add("nothing to decode", 1);
                continue;
            };
            cx.outcome(hash_i32(&j.out));
            f(&j, cx).map_err(what)?;
        }
    }
    Ok(())
}
/// Every buffer size and every constant size of deliveries.
fn buffers(v: &[usize; 26], deep: bool, cx: &mut Cx) -> Result<(), String> {
    jobs(v, cx, |j, cx| {
        let max = if deep { 80 } else { 10 };
        for b in (0..max).chain([16, 31, 64, 127, 200, 256, 1000, 4096]) {
            for chunk in [None, Some(1), Some(2), Some(3), Some(7), Some(64)] {
                if !deep && (b > 7 && chunk.is_some_and(|c| c != 1 && c != 7)) {
                    continue;
                }
                cx.evaluations(1);
                j.same(Io { chunk, ..Io::default() }, b).map_err(|e| format!("buffer of {b} bytes, deliveries of at most {chunk:?}: {e}"))?;
            }
        }
        Ok(())
    })
}
/// A short delivery at every callback, and at all pairs of callbacks.
fn short(v: &[usize; 26], deep: bool, cx: &mut Cx) -> Result<(), String> {
    jobs(v, cx, |j, cx| {
        for b in if deep { &[0usize, 16, 64, 65536][..] } else { &[64usize, 65536][..] } {
            let n = j.same(Io::default(), *b)?;
            for at in 0..n {
                for k in if deep { &[1usize, 2, 5, 11, 40][..] } else { &[1usize, 11][..] } {
                    cx.evaluations(1);
                    let what = |q: &[(usize, Quirk)], e| format!("buffer of {b} bytes, {q:?}: {e}");
                    let q = vec![(at, Quirk::Short(*k))];
                    let m = j.same(Io { quirks: q.clone(), ..Io::default() }, *b).map_err(|e| what(&q, e))?;
                    if deep || *b > 64 && *k == 1 {
                        // the second one from the calls there are after the first
                        for at2 in at + 1..m.min(at + if deep { 40 } else { 3 }) {
                            cx.evaluations(1);
                            let q = vec![(at, Quirk::Short(*k)), (at2, Quirk::Short(1))];
                            j.same(Io { quirks: q.clone(), ..Io::default() }, *b).map_err(|e| what(&q, e))?;
                        }
                    }
                }
            }
        }
        Ok(())
    })
}
/// A failure of every callback.
fn failures(v: &[usize; 26], deep: bool, cx: &mut Cx) -> Result<(), String> {
    let Some(k) = code(v, 0, cx)? else { return Ok(()) };
    for jp2 in [false, true] {
        for op in OPS {
            for strict in [true, false] {
                let Some(j) = Job::new(&k, jp2, op, strict)? else {
                    cx.add("nothing to decode", 1);
                    continue;
                };
                for b in if deep { &[0usize, 1, 16, 64, 65536][..] } else { &[16usize, 65536][..] } {
                    let n = j.same(Io::default(), *b)?;
                    for at in 0..n {
                        cx.evaluations(1);
                        let what = |e: String| format!("{op:?} of {}, strict {strict}, buffer of {b} bytes, callback {at} of {n} fails: {e}", if jp2 { "a JP2 file" } else { "a codestream" });
                        let (r, s) = j.go(Io { quirks: vec![(at, Quirk::Fail)], ..Io::default() }, *b).map_err(what)?;
                        match r {
                            Err(_) => cx.add("failed calls", 1),
                            // what failed was not needed
                            Ok(o) if o == j.out => cx.add("unneeded calls", 1),
                            Ok(o) => {
                                if strict {
                                    return Err(what(differ(&o, &j.out)));
                                }
                                let Some(p) = s.failed_at else { return Err(what(format!("{} failures that are not of reading, and {}", s.failed, differ(&o, &j.out)))) };
                                let (e, _) = j.go(Io { cut: Some(p as usize), ..Io::default() }, *b).map_err(what)?;
                                match e {
                                    Ok(e) if e == o => cx.add("cut short", 1),
                                    Ok(e) => return Err(what(format!("against what comes of the first {p} bytes: {}", differ(&o, &e)))),
                                    Err(e) => return Err(what(format!("{} although the first {p} bytes are {e}", differ(&o, &j.out)))),
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
/// The end of the file a little before or behind the end of the data.
fn tails(v: &[usize; 26], cx: &mut Cx) -> Result<(), String> {
    // a tile-part of unknown length ends where the file does
    if v[16] != 0 {
        cx.add("not legal", 1);
        return Ok(());
    }
    let Some(k) = code(v, 0, cx)? else { return Ok(()) };
    for jp2 in [false, true] {
        for op in OPS {
            for strict in [true, false] {
                let Some(j) = Job::new(&k, jp2, op, strict)? else {
                    cx.add("nothing to decode", 1);
                    continue;
                };
                let n = k.bytes.len();
                for (name, tail) in [("without an end marker", k.bytes[..n - 2].to_vec()), ("with half an end marker", k.bytes[..n - 1].to_vec()), ("with a byte too many", [&k.bytes[..], &[0]].concat()), ("with 300 bytes too many", [&k.bytes[..], &[0xFF, 0x90].repeat(150)].concat())] {
                    let bytes = if jp2 { jp2box::wrap(&tail, &k.siz) } else { tail };
                    let o = Job { bytes, dec: j.dec.clone(), op, w: j.w, n: j.n, out: j.out.clone(), calls: 0 };
                    for (b, chunk) in [(0usize, None), (7, None), (64, Some(3)), (65536, None)] {
                        cx.evaluations(1);
                        let what = |e| format!("{op:?} of {} {name}, strict {strict}, buffer of {b} bytes: {e}", if jp2 { "a JP2 file" } else { "a codestream" });
                        match o.go(Io { chunk, ..Io::default() }, b).map_err(what)? {
                            (Ok(r), _) if r != o.out => return Err(what(differ(&r, &o.out))),
                            (Ok(_), _) => {}
                            // the end marker is missing
                            (Err(_), _) if (strict || op == Op::Streamed) && name.starts_with("with") && !name.ends_with("many") => cx.add("failed calls", 1),
                            (Err(e), _) => return Err(what(format!("{e}"))),
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
/// Other sources, and streams that lack something.
fn sources(v: &[usize; 26], cx: &mut Cx) -> Result<(), String> {
    let dir = std::env::temp_dir().join(format!("jp2mc.{}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| format!("{e}"))?;
    let r = jobs(v, cx, |j, cx| {
        let path = dir.join("file");
        let p = path.to_str().unwrap();
        std::fs::write(&path, &j.bytes).map_err(|e| format!("{e}"))?;
        for b in [0, 1, 5, 64, 1000, 1 << 20] {
            cx.evaluations(1);
            let s = Stream::file(p, b, true);
            if s.p.is_null() {
                return Err(format!("a file with a buffer of {b} bytes is not opened"));
            }
            match run(&s, &j.dec, j.op, j.w, j.n) {
                Ok(o) if o == j.out => {}
                Ok(o) => return Err(format!("from a file with a buffer of {b} bytes: {}", differ(&o, &j.out))),
                Err(e) => return Err(format!("from a file with a buffer of {b} bytes: {e}")),
            }
        }
        let len = j.bytes.len() as u64;
        let seekless = [false, false, true];
        // what lacks, and whether a decode has to work; what comes of a wrong length is not prescribed
        let lacking: &[(Io, bool, &str)] = &[
            (Io { without: seekless, ..Io::default() }, j.op != Op::Tiles, "no seeking"),
            (Io { without: [false, true, false], ..Io::default() }, false, "no skipping"),
            (Io { without: [true, false, false], ..Io::default() }, false, "no reading"),
            (Io { length: Some(0), ..Io::default() }, false, "no length"),
            (Io { length: Some(len - 1), ..Io::default() }, false, "one byte more than the length"),
            (Io { length: Some(len / 2), ..Io::default() }, false, "twice the length"),
            (Io { length: Some(len + 1), ..Io::default() }, false, "one byte less than the length"),
            (Io { length: Some(len * 2), ..Io::default() }, false, "half of the length"),
        ];
        for (io, must, name) in lacking {
            for b in [7, 65536] {
                cx.evaluations(1);
                let (r, _) = j.go(Io { without: io.without, length: io.length, ..Io::default() }, b).map_err(|e| format!("{name}: {e}"))?;
                match r {
                    Ok(o) if o != j.out && io.length.is_none() => return Err(format!("{name}: {}", differ(&o, &j.out))),
                    Ok(_) if name == &"no reading" => return Err(format!("{name}: something comes out")),
                    Ok(_) => {}
                    Err(e) if *must => return Err(format!("{name}: {e}")),
                    Err(_) => cx.add("failed calls", 1),
                }
            }
        }
        // what is not there or no file
        for (p, exists) in [("absent", false), ("absent/file", false), ("", true)] {
            cx.evaluations(1);
            let q = dir.join(p);
            let s = Stream::file(q.to_str().unwrap(), 64, true);
            if s.p.is_null() {
                continue;
            }
            if !exists {
                return Err(format!("a stream comes of the file {p:?} that is not there"));
            }
            if run(&s, &j.dec, j.op, j.w, j.n).is_ok() {
                return Err("a directory is decoded".into());
            }
        }
        let o = Stream::file(p, 64, false);
        if o.p.is_null() || run(&o, &j.dec, j.op, j.w, j.n).is_ok() {
            return Err("a stream for writing is decoded".into());
        }
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
    r
}
pub fn c18(tier: Tier) -> Check {
    let deep = tier == Tier::Thorough;
    let l = neighbours(1);
    Check::new("C18", "fault_enumeration")
        .counter("not legal")
        .counter("not expressible")
        .counter("nothing to decode")
        .counter("failed calls")
        .counter("unneeded calls")
        .counter("cut short")
        .with(code_space("buffers", "every buffer size up to a bound with every size of deliveries", l.clone(), move |v, cx| buffers(v, deep, cx)))
        .with(code_space("short", "a short delivery at every callback and at pairs of callbacks", l.clone(), move |v, cx| short(v, deep, cx)))
        .with(code_space("failures", "a failure of every single callback", l.clone(), move |v, cx| failures(v, deep, cx)))
        .with(code_space("tails", "files that end a little before or behind the end of the data", l.clone(), tails))
        .with(code_space("sources", "files of all kinds, streams that lack a callback or whose length is wrong", l, sources))
}

// ---------------------------------------------------------------- C19

fn config(v: &[usize; 18], irreversible: bool, cx: &mut Cx) -> Option<(Img, Enc)> {
    let r = conf::build(v, irreversible);
    if r.is_none() {
        cx.add("not legal", 1);
    }
    r
}
/// What a sink holds when encoding has been reported as done, and what is said.
fn sink(img: &Img, e: &Enc, io: Io, bufsize: usize) -> Result<(Result<Vec<u8>, Refused>, Seen), String> {
    let mut s = Stream::output(io, bufsize);
    let r = encode_to(img, e, &s).map(|_| s.io.as_ref().unwrap().data.clone());
    let io = s.io.take().unwrap();
    drop(s);
    if let Some(m) = &io.misuse {
        return Err(format!("stream misused: {m}"));
    }
    if io.freed != 1 {
        return Err(format!("user data released {} times", io.freed));
    }
    if r.as_ref().is_ok_and(|b| *b != io.data) {
        return Err("the output was not complete when its end was reported".into());
    }
    Ok((r, Seen { ncalls: io.ncalls, failed: io.failed, failed_at: io.failed_at }))
}
fn same_bytes(img: &Img, e: &Enc, io: Io, bufsize: usize, want: &[u8]) -> Result<usize, String> {
    match sink(img, e, io, bufsize)? {
        (Err(e), _) => Err(format!("{e}")),
        (Ok(b), _) if b != want => Err(match b.iter().zip(want).position(|(x, y)| x != y) {
            Some(i) => format!("byte {i} is {:02X} instead of {:02X}", b[i], want[i]),
            None => format!("{} bytes instead of {}", b.len(), want.len()),
        }),
        (Ok(_), s) => Ok(s.ncalls),
    }
}
fn written(v: &[usize; 18], irreversible: bool, deep: bool, cx: &mut Cx) -> Result<(), String> {
    let Some((img, e)) = config(v, irreversible, cx) else { return Ok(()) };
    let want = match sink(&img, &e, Io::default(), 1 << 16)? {
        (Ok(b), _) => b,
        (Err(_), _) => {
            cx.add("refused", 1);
            return Ok(());
        }
    };
    cx.outcome(hash_bytes(&want));
    // buffers and sizes of what is taken
    let max = if deep { 80 } else { 8 };
    for b in (0..max).chain([13, 64, 100, 200, 1000, 4096]) {
        for chunk in [None, Some(1), Some(2), Some(5), Some(64)] {
            if !deep && b > 2 && chunk.is_some_and(|c| c != 1 && c != 64) {
                continue;
            }
            cx.evaluations(1);
            same_bytes(&img, &e, Io { chunk, ..Io::default() }, b, &want).map_err(|x| format!("buffer of {b} bytes, at most {chunk:?} taken: {x}"))?;
        }
    }
    for b in if deep { &[0usize, 1, 16, 64, 65536][..] } else { &[16usize, 65536][..] } {
        let n = same_bytes(&img, &e, Io::default(), *b, &want).map_err(|x| format!("buffer of {b} bytes: {x}"))?;
        for at in 0..n {
            // a short write
            for k in if deep { &[1usize, 2, 5, 11, 40][..] } else { &[1usize, 11][..] } {
                cx.evaluations(1);
                let q = vec![(at, Quirk::Short(*k))];
                let m = same_bytes(&img, &e, Io { quirks: q.clone(), ..Io::default() }, *b, &want).map_err(|x| format!("buffer of {b} bytes, {q:?}: {x}"))?;
                if deep || *b > 64 && *k == 1 {
                    for at2 in at + 1..m.min(at + if deep { 40 } else { 3 }) {
                        cx.evaluations(1);
                        let q = vec![(at, Quirk::Short(*k)), (at2, Quirk::Short(1))];
                        same_bytes(&img, &e, Io { quirks: q.clone(), ..Io::default() }, *b, &want).map_err(|x| format!("buffer of {b} bytes, {q:?}: {x}"))?;
                    }
                }
            }
            // a failure
            cx.evaluations(1);
            let what = |x: String| format!("buffer of {b} bytes, callback {at} of {n} fails: {x}");
            let (r, s) = sink(&img, &e, Io { quirks: vec![(at, Quirk::Fail)], ..Io::default() }, *b).map_err(what)?;
            match r {
                Err(_) => cx.add("failed calls", 1),
                Ok(d) if d == want => cx.add("unneeded calls", 1),
                Ok(d) => return Err(what(format!("{} bytes are reported as a success instead of {}", d.len(), want.len()))),
            }
            if s.failed != 1 {
                return Err(what(format!("{} failures", s.failed)));
            }
        }
    }
    // sinks that lack something
    for (without, name) in [([true, false, false], "no writing"), ([false, true, false], "no skipping"), ([false, false, true], "no seeking")] {
        cx.evaluations(1);
        match sink(&img, &e, Io { without, ..Io::default() }, 64).map_err(|x| format!("{name}: {x}"))? {
            (Ok(d), _) if d != want => return Err(format!("{name}: success with other bytes")),
            (Ok(_), _) => cx.add("unneeded calls", 1),
            (Err(_), _) => cx.add("failed calls", 1),
        }
    }
    // files
    let dir = std::env::temp_dir().join(format!("jp2mc.{}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| format!("{e}"))?;
    let r = files(&img, &e, &dir, &want, cx);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn files(img: &Img, e: &Enc, dir: &std::path::Path, want: &[u8], cx: &mut Cx) -> Result<(), String> {
    let path = dir.join("out");
    let p = path.to_str().unwrap();
    for b in [0, 3, 64, 1 << 20] {
        cx.evaluations(1);
        // what was there before is gone
        std::fs::write(&path, vec![7u8; want.len() + 50]).map_err(|e| format!("{e}"))?;
        let s = Stream::file(p, b, false);
        if s.p.is_null() {
            return Err(format!("a file with a buffer of {b} bytes is not opened"));
        }
        encode_to(img, e, &s).map_err(|x| format!("to a file with a buffer of {b} bytes: {x}"))?;
        if std::fs::read(&path).map_err(|e| format!("{e}"))? != want {
            return Err(format!("a file written with a buffer of {b} bytes has other bytes or is incomplete"));
        }
    }
    for b in [0, 64, 1 << 20] {
        cx.evaluations(1);
        let s = Stream::file("/dev/full", b, false);
        if !s.p.is_null() && encode_to(img, e, &s).is_ok() {
            return Err(format!("success although no byte could be written (buffer of {b} bytes)"));
        }
    }
    if !Stream::file(dir.join("absent/file").to_str().unwrap(), 64, false).p.is_null() {
        return Err("a stream comes of a file that cannot be made".into());
    }
    let s = Stream::file(p, 64, true);
    if s.p.is_null() || encode_to(img, e, &s).is_ok() {
        return Err("a stream for reading is written to".into());
    }
    Ok(())
}
pub fn c19(tier: Tier) -> Check {
    let deep = tier == Tier::Thorough;
    let mut c = Check::new("C19", "fault_enumeration").counter("not legal").counter("refused").counter("failed calls").counter("unneeded calls");
    for irreversible in [false, true] {
        let mut l: Vec<[usize; 18]> = (0..conf::BASES.len()).flat_map(|b| conf::around(b, 1)).collect();
        if !irreversible {
            l.extend((0..conf::BASES.len()).flat_map(|b| conf::around(b, 2)).step_by(if deep { 1 } else { 5 }));
        }
        l.sort();
        l.dedup();
        let l = std::rc::Rc::new(l);
        let l2 = l.clone();
        c = c.with(space(
            if irreversible { "irreversible" } else { "reversible" },
            &format!("every buffer size below {} and others, every size of what is taken, every short write, every failure, and files, for all encoder configurations near a base", if deep { 80 } else { 8 }),
            l.len() as u64,
            move |i| conf::show(&l2[i as usize]),
            move |i, cx| written(&l[i as usize], irreversible, deep, cx),
        ));
    }
    c
}
