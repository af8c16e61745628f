//! C04: decoding of whole request paths, in the deployed build and in the developers' build.

use crate::parse::{self, Want, Why};
use laya::verif::{decode_image_request, ImageRequest, ImageRequestError};
use mck::{hash_bytes, space, Check, Cx, Space, Tier};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// `%` and two hex digits is that byte, everything else is itself.
pub fn percent(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let hex = |c: u8| (c as char).to_digit(16).map(|d| d as u8);
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(h), Some(l)) = (hex(b[i + 1]), hex(b[i + 2])) {
                out.push(h * 16 + l);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    Missing(&'static str),
    NotUtf8,
    Param(Vec<Why>),
}
pub fn expected(path: &str) -> Result<ImageRequest, Bad> {
    let seg: Vec<&str> = path.strip_prefix('/').unwrap().split('/').collect();
    let get = |k: usize, n: &'static str| seg.get(k).copied().ok_or(Bad::Missing(n));
    let id = String::from_utf8(percent(get(0, "identifier")?)).map_err(|_| Bad::NotUtf8)?;
    fn val<T>(w: Want<T>) -> Result<T, Bad> {
        match w {
            Want::Is(x) => Ok(x),
            Want::Refused(y) => Err(Bad::Param(y)),
        }
    }
    let r = val(parse::region(get(1, "region")?))?;
    let s = val(parse::size(get(2, "size")?))?;
    let o = val(parse::rotation(get(3, "rotation")?))?;
    let q = get(4, "quality")?;
    let (q, f) = q.split_at(q.find('.').ok_or(Bad::Missing("format"))?);
    let q = val(parse::quality(q))?;
    let f = val(parse::format(&f[1..]))?;
    Ok(ImageRequest::new(id, r, s, o, q, f))
}

/// Compares a decoded path with what the property says; returns a description of what was decoded.
fn judge(path: &str) -> Result<String, String> {
    let got = mck::guarded(|| decode_image_request(path)).map_err(|p| format!("{path:?}: {p}"))?;
    let want = expected(path);
    let ok = match (&want, &got) {
        (Ok(a), Ok(b)) => a == b,
        (Err(Bad::Missing(a)), Err(ImageRequestError::UriMissingElement(b))) => a == b && got.as_ref().unwrap_err().to_string().contains(a),
        (Err(Bad::NotUtf8), Err(ImageRequestError::UriNotUtf8(b))) => *b == "identifier",
        (Err(Bad::Param(ws)), Err(ImageRequestError::ParseError(e))) => ws.contains(&parse::why(e)) && got.as_ref().unwrap_err().to_string() == e.to_string(),
        _ => false,
    };
    if let (Ok(a), Ok(b)) = (&want, &got) {
        if ok && (a.identifier() != b.identifier() || a.region() != b.region() || a.size() != b.size() || a.rotation() != b.rotation() || a.quality() != b.quality() || a.format() != b.format()) {
            return Err(format!("{path:?}: the accessors disagree with the decoded request {b:?}"));
        }
        // the accessors give back what the path says
        let seg: Vec<&str> = path.split('/').collect();
        if b.identifier().as_bytes() != percent(seg[1]) {
            return Err(format!("{path:?}: identifier() is {:?}", b.identifier()));
        }
    }
    if !ok {
        return Err(format!("{path:?}: expected {want:?}, decoded {got:?}"));
    }
    Ok(format!("{got:?}"))
}

pub fn decode_server() {
    mck::quiet_panics();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for l in std::io::stdin().lock().split(0) {
        let l = String::from_utf8(l.unwrap()).unwrap();
        if l == "\u{1}flush" {
            out.flush().unwrap();
            continue;
        }
        let r = match mck::guarded(|| decode_image_request(&l)) {
            Ok(g) => format!("{g:?}"),
            Err(p) => p,
        };
        out.write_all(r.as_bytes()).unwrap();
        out.write_all(&[0]).unwrap();
    }
}

struct Helper {
    _c: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}
thread_local! {
    static H: std::cell::RefCell<Option<Helper>> = const { std::cell::RefCell::new(None) };
}
/// Decodes the paths in the build with debug assertions.
fn other_build(paths: &[String]) -> Result<Vec<String>, String> {
    H.with(|h| {
        let mut h = h.borrow_mut();
        if h.is_none() {
            let bin = std::env::var("IIIF_CHECKED").expect("IIIF_CHECKED");
            let mut c = Command::new(bin).arg("decode-server").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("decode-server");
            let (i, o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
            *h = Some(Helper { _c: c, i, o });
        }
        let h = h.as_mut().unwrap();
        let mut out = vec![];
        for ch in paths.chunks(64) {
            let mut m = vec![];
            for p in ch {
                m.extend_from_slice(p.as_bytes());
                m.push(0);
            }
            m.extend_from_slice(b"\x01flush\0");
            let r = (|| -> std::io::Result<()> {
                h.i.write_all(&m)?;
                h.i.flush()?;
                for _ in ch {
                    let mut l = vec![];
                    h.o.read_until(0, &mut l)?;
                    if l.pop() != Some(0) {
                        return Err(std::io::ErrorKind::UnexpectedEof.into());
                    }
                    out.push(String::from_utf8_lossy(&l).into_owned());
                }
                Ok(())
            })();
            if let Err(e) = r {
                return Err(format!("the build with debug assertions died while decoding: {e}"));
            }
        }
        Ok(out)
    })
}

fn paths_space(name: &str, rule: &str, paths: Vec<String>) -> Box<dyn Space> {
    let chunk = 256usize;
    let n = paths.len().div_ceil(chunk) as u64;
    let paths = std::rc::Rc::new(paths);
    let p2 = paths.clone();
    space(name, &format!("{rule} ({} paths)", paths.len()), n, move |i| format!("paths from {:?}", p2[i as usize * chunk]), move |i, cx: &mut Cx| {
        let ps = &paths[i as usize * chunk..((i as usize + 1) * chunk).min(paths.len())];
        let mut here = vec![];
        for p in ps {
            let d = judge(p)?;
            cx.outcome(hash_bytes(d.as_bytes()));
            here.push(d);
        }
        cx.evaluations(ps.len() as u64);
        let there = other_build(ps)?;
        cx.evaluations(ps.len() as u64);
        for ((p, a), b) in ps.iter().zip(&here).zip(&there) {
            if a != b {
                return Err(format!("{p:?}: the deployed build decodes {a}, the build with debug assertions {b}"));
            }
        }
        cx.traces(ps.len() as u64);
        Ok(())
    })
}

pub fn strings_over(syms: &[&str], n: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..n {
        let mut next = Vec::with_capacity(last.len() * syms.len());
        for p in &last {
            for s in syms {
                next.push(format!("{p}{s}"));
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

pub fn c04(tier: Tier) -> Check {
    let n = if tier == Tier::Quick { 4 } else { 5 };
    let syms = ["a", "%", "2", "F", "f", "C", "3", "%C3", "%a9", "%25", "%2F", "+", "é", "%00", ".", "%E2%82", "%ff"];
    let ids: Vec<String> = strings_over(&syms, n).into_iter().map(|s| format!("/{s}/full/max/0/default.jpg")).collect();
    // every byte, raw where a path may hold it and percent-encoded in both cases
    let mut bytes = vec![];
    for a in 0u32..256 {
        for f in ["%{:02X}", "%{:02x}"] {
            let e = if f.contains('X') { format!("%{a:02X}") } else { format!("%{a:02x}") };
            bytes.push(format!("/{e}/full/max/0/default.jpg"));
            bytes.push(format!("/x{e}y%C3{e}/square/1,/!0/gray.png"));
            for b in 0..256u32 {
                bytes.push(format!("/{e}%{b:02X}/full/max/0/default.jpg"));
            }
        }
        if let Some(c) = char::from_u32(a).filter(|c| *c != '/') {
            if a != 0 && a != 1 {
                bytes.push(format!("/%{c}{c}/full/max/0/default.jpg"));
                bytes.push(format!("/{c}%2{c}%{c}2/full/max/0/default.jpg"));
            }
        }
    }
    let idl = ["id", "", "a%2Fb", "%FF", "%C3%A9", "info.json"];
    let rl = ["full", "square", "0,0,1,1", "pct:5,5,90,90", "0,0,0,1", "bad", "", "max"];
    let sl = ["max", "^max", "1,", ",2", "^3,4", "!5,6", "pct:50", "^pct:150", "0,", "pct:150", "", "full"];
    let ol = ["0", "!90", "360", "361", "x", ""];
    let ql = ["default.jpg", "color.png", "gray.webp", "bitonal.tif", "default.gif", "default.jp2", "color.pdf", "default", "default.", ".jpg", ".", "", "bad.jpg", "default.bad", "bad.bad", "default.jpg.png", "default.info.json", "defaultjpg"];
    let mut combos = vec!["/".to_string()];
    for a in idl {
        combos.push(format!("/{a}"));
        for r in rl {
            combos.push(format!("/{a}/{r}"));
            for s in sl {
                combos.push(format!("/{a}/{r}/{s}"));
                for o in ol {
                    combos.push(format!("/{a}/{r}/{s}/{o}"));
                    for q in ql {
                        combos.push(format!("/{a}/{r}/{s}/{o}/{q}"));
                    }
                }
            }
        }
    }
    // the five parameters in every order
    let parts = ["id", "full", "max", "0", "default.jpg"];
    let mut orders = vec![];
    for i in 0..5usize.pow(5) {
        let d = mck::mixed(i as u64, &[5; 5]);
        orders.push(d.iter().map(|k| format!("/{}", parts[*k])).collect::<String>());
    }
    let segs = strings_over(&["/", "id", "full", ".", "%2F", "max", "0", "default.jpg"], if tier == Tier::Quick { 6 } else { 7 }).into_iter().map(|s| format!("/{s}")).filter(|s| s.split('/').count() <= 6).collect();
    Check::new("C04", "exploration")
        .assume("Paths with more than the five segments carry no claim; identifiers longer than the enumerated ones decode bytewise the same way.")
        .with(paths_space("identifier-strings", &format!("every identifier of at most {n} symbols over {syms:?}"), ids))
        .with(paths_space("identifier-bytes", "every byte percent-encoded, alone, and before every second byte, with malformed escapes around every character below 256", bytes))
        .with(paths_space("segment-products", "every combination of 6 identifiers, 8 regions, 12 sizes, 6 rotations and 18 quality/format endings, and every path cut after each segment", combos))
        .with(paths_space("segment-orders", "the five right segments in every arrangement with repetition", orders))
        .with(paths_space("segment-strings", "every path of at most 6 (7) tokens over slashes, dots and segment texts", segs))
}
