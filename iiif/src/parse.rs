//! C01-C03: the request parameters, against grammars written from the property.

use laya::verif::{Format, ParseError, Quality, Region, Rotation, Scale, Size};
use mck::{hash_bytes, space, Check, Cx, Space, Tier};
use std::num::NonZero;

/// `digits` with an optional `+`, at most 2^32-1.
pub fn int(s: &str) -> Option<u32> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let t = d.trim_start_matches('0');
    if t.len() > 10 {
        return None;
    }
    let mut v: u64 = 0;
    for b in t.bytes() {
        v = v * 10 + (b - b'0') as u64;
    }
    if v > u32::MAX as u64 {
        None
    } else {
        Some(v as u32)
    }
}

/// What a numeral can be.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dec {
    Not,
    /// `inf`, `nan`: not decimal numbers; the implementation may call them unparsable or out of bounds.
    Word,
    Num(f32),
}

/// Optional sign, digits with optional fraction, optional exponent; the nearest f32.
pub fn dec(s: &str) -> Dec {
    let b = s.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    let rest = s.get(i..).unwrap_or("").to_ascii_lowercase();
    if rest == "inf" || rest == "infinity" || rest == "nan" {
        return Dec::Word;
    }
    let d0 = i;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    let mut digits = i - d0;
    if i < b.len() && b[i] == b'.' {
        i += 1;
        let f0 = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        digits += i - f0;
    }
    if digits == 0 {
        return Dec::Not;
    }
    if i < b.len() && (b[i] | 0x20) == b'e' {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        let e0 = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i == e0 {
            return Dec::Not;
        }
    }
    if i != b.len() {
        return Dec::Not;
    }
    let c = std::ffi::CString::new(s).unwrap();
    Dec::Num(unsafe { strtof(c.as_ptr(), std::ptr::null_mut()) })
}
extern "C" {
    fn strtof(s: *const libc::c_char, end: *mut *mut libc::c_char) -> f32;
}

#[derive(Debug, PartialEq, Clone)]
pub enum Want<T> {
    Is(T),
    /// Refused for the reason(s) named.
    Refused(Vec<Why>),
}
#[derive(Debug, PartialEq, Clone)]
pub enum Why {
    RegionUnparsable(String, usize),
    RegionOut(usize),
    RegionPctOut(usize),
    RegionCount,
    SizeNoComma,
    SizeNoDims,
    SizeDimUnparsable,
    SizeDimOut,
    SizePctUnparsable,
    SizePctOut,
    RotUnparsable,
    RotOut,
    Quality,
    Format,
}
pub fn why(e: &ParseError) -> Why {
    use ParseError::*;
    match e {
        RegionSelectorUnparsable { input, index } => Why::RegionUnparsable(input.clone(), *index),
        RegionSelectorOutOfBounds { index, .. } => Why::RegionOut(*index),
        RegionPercentageOutOfBounds { index, .. } => Why::RegionPctOut(*index),
        RegionSelectorCount(_) => Why::RegionCount,
        SizeMissingComma(_) => Why::SizeNoComma,
        SizeMissingDimensions(_) => Why::SizeNoDims,
        SizeDimensionUnparsable(_) => Why::SizeDimUnparsable,
        SizePercentageOutOfBounds(_) => Why::SizePctOut,
        SizeDimensionOutOfBounds(_) => Why::SizeDimOut,
        SizePercentageUnparsable(_) => Why::SizePctUnparsable,
        RotationAngleUnparsable(_) => Why::RotUnparsable,
        RotationOutOfBounds(_) => Why::RotOut,
        UnrecognisedQuality(_) => Why::Quality,
        UnrecognisedFormat(_) => Why::Format,
    }
}

pub fn region(s: &str) -> Want<Region> {
    if s == "full" {
        return Want::Is(Region::Full);
    }
    if s == "square" {
        return Want::Is(Region::Square);
    }
    let (pct, body) = match s.strip_prefix("pct:") {
        Some(b) => (true, b),
        None => (false, s),
    };
    let parts: Vec<&str> = body.split(',').collect();
    let mut iv = [0u32; 4];
    let mut fv = [0f32; 4];
    for k in 0..4 {
        let Some(p) = parts.get(k) else { return Want::Refused(vec![Why::RegionCount]) };
        if pct {
            match dec(p) {
                Dec::Not => return Want::Refused(vec![Why::RegionUnparsable(p.to_string(), k)]),
                Dec::Word => return Want::Refused(vec![Why::RegionUnparsable(p.to_string(), k), Why::RegionPctOut(k)]),
                Dec::Num(v) if v.is_finite() && v > 0.0 => fv[k] = v,
                Dec::Num(_) => return Want::Refused(vec![Why::RegionPctOut(k)]),
            }
        } else {
            match int(p) {
                None => return Want::Refused(vec![Why::RegionUnparsable(p.to_string(), k)]),
                Some(0) if k >= 2 => return Want::Refused(vec![Why::RegionOut(k)]),
                Some(v) => iv[k] = v,
            }
        }
    }
    if parts.len() != 4 {
        return Want::Refused(vec![Why::RegionCount]);
    }
    Want::Is(if pct {
        Region::Percentage { x: fv[0], y: fv[1], width: fv[2], height: fv[3] }
    } else {
        Region::Absolute { x: iv[0], y: iv[1], width: iv[2], height: iv[3] }
    })
}

pub fn size(s: &str) -> Want<Size> {
    let (up, b) = match s.strip_prefix('^') {
        Some(b) => (true, b),
        None => (false, s),
    };
    let mk = |sc| Want::Is(if up { Size::upscaled(sc) } else { Size::new(sc) });
    let no = |w| Want::Refused(vec![w]);
    if b == "max" {
        return mk(Scale::Max);
    }
    if let Some(p) = b.strip_prefix("pct:") {
        return match dec(p) {
            Dec::Not => no(Why::SizePctUnparsable),
            Dec::Word => Want::Refused(vec![Why::SizePctUnparsable, Why::SizePctOut]),
            Dec::Num(v) if v.is_finite() && v > 0.0 && (up || v <= 100.0) => mk(Scale::Percentage(v)),
            Dec::Num(_) => no(Why::SizePctOut),
        };
    }
    let (keep, b) = match b.strip_prefix('!') {
        Some(b) => (true, b),
        None => (false, b),
    };
    let Some(k) = b.find(',') else { return no(Why::SizeNoComma) };
    let (ws, hs) = (&b[..k], &b[k + 1..]);
    if ws.is_empty() && hs.is_empty() {
        return no(Why::SizeNoDims);
    }
    let px = |t: &str| -> Result<Option<NonZero<u32>>, Why> {
        if t.is_empty() && !keep {
            return Ok(None);
        }
        match int(t) {
            None => Err(Why::SizeDimUnparsable),
            Some(v) => NonZero::new(v).map(Some).ok_or(Why::SizeDimOut),
        }
    };
    match (px(ws), px(hs)) {
        (Err(e), _) | (_, Err(e)) => no(e),
        (Ok(w), Ok(h)) => mk(if keep {
            Scale::AspectPreserving { width: w.unwrap(), height: h.unwrap() }
        } else {
            Scale::Fixed { width: w, height: h }
        }),
    }
}

pub fn rotation(s: &str) -> Want<Rotation> {
    let (m, b) = match s.strip_prefix('!') {
        Some(b) => (true, b),
        None => (false, s),
    };
    match dec(b) {
        Dec::Not => Want::Refused(vec![Why::RotUnparsable]),
        Dec::Word => Want::Refused(vec![Why::RotUnparsable, Why::RotOut]),
        Dec::Num(v) if (0.0..=360.0).contains(&v) => Want::Is(if m { Rotation::mirrored(v) } else { Rotation::new(v) }),
        Dec::Num(_) => Want::Refused(vec![Why::RotOut]),
    }
}
pub const QUALITIES: [(&str, Quality); 4] = [("color", Quality::Color), ("gray", Quality::Gray), ("bitonal", Quality::Bitonal), ("default", Quality::Default)];
pub const FORMATS: [(&str, Format, &str); 7] = [
    ("jpg", Format::Jpg, "image/jpeg"),
    ("tif", Format::Tif, "image/tiff"),
    ("png", Format::Png, "image/png"),
    ("gif", Format::Gif, "image/gif"),
    ("jp2", Format::Jp2, "image/jp2"),
    ("pdf", Format::Pdf, "application/pdf"),
    ("webp", Format::Webp, "image/webp"),
];
pub fn quality(s: &str) -> Want<Quality> {
    QUALITIES.iter().find(|q| q.0 == s).map_or(Want::Refused(vec![Why::Quality]), |q| Want::Is(q.1))
}
pub fn format(s: &str) -> Want<Format> {
    FORMATS.iter().find(|q| q.0 == s).map_or(Want::Refused(vec![Why::Format]), |q| Want::Is(q.1))
}

pub fn agree<T: PartialEq + std::fmt::Debug>(what: &str, s: &str, want: &Want<T>, got: &Result<T, ParseError>) -> Result<(), String> {
    match (want, got) {
        (Want::Is(a), Ok(b)) if a == b => Ok(()),
        (Want::Refused(ws), Err(e)) if ws.contains(&why(e)) => {
            // the message names the parameter and shows why
            let m = e.to_string().to_lowercase();
            if m.contains(what) {
                Ok(())
            } else {
                Err(format!("{what} {s:?}: the message {m:?} does not name the {what}"))
            }
        }
        _ => Err(format!("{what} {s:?}: expected {want:?}, got {got:?}")),
    }
}

fn check_region(s: &str, cx: &Cx) -> Result<(), String> {
    let want = region(s);
    let got = s.parse::<Region>();
    record(cx, &got, s);
    if let (Err(ParseError::RegionSelectorUnparsable { index, .. }), Want::Refused(_)) = (&got, &want) {
        let m = got.as_ref().unwrap_err().to_string();
        if !m.contains(["x", "y", "width", "height"][*index % 4]) {
            return Err(format!("region {s:?}: the message {m:?} does not name the selector"));
        }
    }
    agree("region", s, &want, &got)
}
fn check_size(s: &str, cx: &Cx) -> Result<(), String> {
    let got = s.parse::<Size>();
    record(cx, &got, s);
    if let Ok(z) = &got {
        if (if z.upscale() { Size::upscaled(z.scale()) } else { Size::new(z.scale()) }) != *z {
            return Err(format!("size {s:?}: accessors disagree with the value"));
        }
    }
    agree("size", s, &size(s), &got)
}
fn check_rotation(s: &str, cx: &Cx) -> Result<(), String> {
    let got = s.parse::<Rotation>();
    record(cx, &got, s);
    if let Ok(r) = &got {
        if (if r.mirror() { Rotation::mirrored(r.degrees()) } else { Rotation::new(r.degrees()) }) != *r {
            return Err(format!("rotation {s:?}: accessors disagree with the value"));
        }
    }
    agree("rotation", s, &rotation(s), &got)
}
fn check_qf(s: &str, cx: &Cx) -> Result<(), String> {
    let q = s.parse::<Quality>();
    record(cx, &q, s);
    agree("quality", s, &quality(s), &q)?;
    let f = s.parse::<Format>();
    record(cx, &f, s);
    agree("format", s, &format(s), &f)?;
    if let Ok(f) = f {
        let m = FORMATS.iter().find(|x| x.0 == s).unwrap().2;
        if f.mime() != m {
            return Err(format!("format {s}: media type {:?}, expected {m:?}", f.mime()));
        }
    }
    Ok(())
}
fn record<T: std::fmt::Debug>(cx: &Cx, got: &Result<T, ParseError>, s: &str) {
    // counting distinct outcomes is costly; accepted values and short refusals are representative
    if got.is_ok() || s.len() <= 4 {
        cx.outcome(hash_bytes(format!("{got:?}").as_bytes()));
    }
}

type F = fn(&str, &Cx) -> Result<(), String>;

/// Every string of at most `n` symbols.
fn strings(name: &str, syms: Vec<&'static str>, n: usize, f: F) -> Box<dyn Space> {
    let k = syms.len() as u64;
    let plen = 3.min(n);
    let s2 = syms.clone();
    let name2 = name.to_string();
    let prefix = move |mut i: u64, syms: &[&'static str]| {
        let mut v = vec![];
        for _ in 0..plen {
            v.push(syms[(i % k) as usize]);
            i /= k;
        }
        v
    };
    let p2 = prefix.clone();
    let total = k.pow(plen as u32) + 1;
    let rule = format!("all strings of at most {n} symbols over {syms:?}");
    space(
        name,
        &rule,
        total,
        move |i| if i == 0 { format!("{name2}: shorter than {plen} symbols") } else { format!("{name2}: prefix {:?}", prefix(i - 1, &s2).concat()) },
        move |i, cx| {
            let mut count = 0u64;
            let mut err = None;
            let mut go = |s: &str| {
                count += 1;
                if err.is_none() {
                    if let Err(e) = f(s, cx) {
                        err = Some(e);
                    }
                }
            };
            fn rec(buf: &mut String, syms: &[&str], left: usize, go: &mut dyn FnMut(&str)) {
                go(buf);
                if left == 0 {
                    return;
                }
                for s in syms {
                    let l = buf.len();
                    buf.push_str(s);
                    rec(buf, syms, left - 1, go);
                    buf.truncate(l);
                }
            }
            if i == 0 {
                rec(&mut String::new(), &syms, plen - 1, &mut go);
            } else {
                let mut b = p2(i - 1, &syms).concat();
                rec(&mut b, &syms, n - plen, &mut go);
            }
            cx.evaluations(count);
            err.map_or(Ok(()), Err)
        },
    )
}

/// Every concatenation taking one string of each list.
fn product_of(name: &str, lists: Vec<Vec<String>>, f: F) -> Box<dyn Space> {
    let (a, b) = lists.split_at(lists.len() / 2);
    let (a, b) = (a.to_vec(), b.to_vec());
    let na: u64 = a.iter().map(|l| l.len() as u64).product();
    let rule = format!("every concatenation of one string of each of {lists:?}");
    let head = move |mut i: u64| {
        let mut s = String::new();
        for l in &a {
            s.push_str(&l[(i % l.len() as u64) as usize]);
            i /= l.len() as u64;
        }
        s
    };
    let h2 = head.clone();
    let n2 = name.to_string();
    space(name, &rule, na, move |i| format!("{n2}: {:?}...", head(i)), move |i, cx| {
        let mut count = 0;
        let mut err = None;
        fn rec(buf: &mut String, ls: &[Vec<String>], go: &mut dyn FnMut(&str)) {
            match ls.split_first() {
                None => go(buf),
                Some((l, r)) => {
                    for s in l {
                        let k = buf.len();
                        buf.push_str(s);
                        rec(buf, r, go);
                        buf.truncate(k);
                    }
                }
            }
        }
        rec(&mut h2(i), &b, &mut |s| {
            count += 1;
            if err.is_none() {
                err = f(s, cx).err();
            }
        });
        cx.evaluations(count);
        err.map_or(Ok(()), Err)
    })
}

/// Spellings of numbers, good and bad.
fn numerals() -> Vec<&'static str> {
    vec![
        "1", "0", "", "5", "50", "100", "007", "00", "+1", "+0", "-1", "-0", "+", "-", "4294967295", "4294967296", "04294967295", "42949672950", "18446744073709551617", "1.0", "0.1", "0.0", "1.", ".5",
        ".", "-.5", "1e2", "1E-2", "1e", "e1", "1e39", "3.4028235e38", "340282360000000000000000000000000000000", "1e-45", "1e-46", "1e-400", "100.00000001", "100.000001", "100.00001", "99.999999", "359.99999999", "360", "360.0000001", "360.00004", "16777217", "0.30000001192092896",
        "inf", "-inf", "NaN", "Infinity", " 1", "1 ", "0x1", "1_0", "1f", "\u{661}", "\u{ff11}", "1\u{0}", "é",
    ]
}
fn st(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

pub fn c01(tier: Tier) -> Check {
    let n = if tier == Tier::Quick { 6 } else { 7 };
    let num = st(&numerals());
    let comma = st(&[","]);
    let pre = st(&["", "pct:"]);
    let small: Vec<String> = st(&["1", "0", "", "-1", "x", "1.5", "4294967296", "inf"]);
    let sep = st(&["", ",", ",,", ";"]);
    let small4 = st(&["1", "0", "2.5", ""]);
    Check::new("C01", "exploration")
        .assume("Inputs longer than the stated symbol bounds and symbols outside the stated alphabets behave like the enumerated ones.")
        .with(strings("region-strings", vec!["0", "1", "9", ",", ".", "+", "-", "e", "pct:", "p", ":", "full", "f", "square", " ", "^", "!", "é", "inf", "x"], n, check_region))
        .with(product_of("region-four-numerals", vec![pre.clone(), num.clone(), comma.clone(), num.clone(), comma.clone(), num.clone(), comma.clone(), num.clone()], check_region))
        .with(product_of("region-separators", vec![st(&["", "pct:", "pct", "PCT:", "pct:pct:", " pct:", "pct: "]), small4.clone(), sep.clone(), small4.clone(), sep.clone(), small4.clone(), sep.clone(), small4.clone(), sep.clone(), small4.clone(), st(&["", ","])], check_region))
        .with(product_of("region-values", vec![pre, small.clone(), comma.clone(), small.clone(), comma.clone(), small.clone(), comma.clone(), small, st(&["", " ", "px", "%", "\n"])], check_region))
        .with(product_of("region-words", vec![st(&["", " ", "!", "pct:"]), st(&["full", "Full", "FULL", "square", "Square", "squar", "ful", "fullsquare", "smart"]), st(&["", " ", "s", ",", "\u{301}"])], check_region))
        .with(digits("region-integer-boundaries", |v| [format!("{v},{v},{v},{v}"), format!("0,0,{v},1"), format!("pct:{v},1,1,1"), format!("pct:1,1,1,{v}")].into_iter().collect(), check_region, tier))
}

/// Every integer around each power of two and ten, and every small one, as decimals with 0-2 leading zeros.
fn digits(name: &str, make: fn(&str) -> Vec<String>, f: F, tier: Tier) -> Box<dyn Space> {
    let mut vals: Vec<u128> = (0..if tier == Tier::Quick { 2000 } else { 100000 }).collect();
    for k in 0..70u32 {
        for d in 0..5u128 {
            vals.push((1u128 << k) + d);
            vals.push((1u128 << k).saturating_sub(d));
        }
    }
    for k in 0..25u32 {
        for d in 0..3u128 {
            vals.push(10u128.pow(k) + d);
            vals.push(10u128.pow(k).saturating_sub(d));
        }
    }
    vals.sort();
    vals.dedup();
    let chunk = 64;
    let n = vals.len().div_ceil(chunk) as u64;
    space(
        name,
        &format!("{} integers (all small ones, and those around every power of 2 up to 2^69 and of 10), with 0, 1 and 2 leading zeros", vals.len()),
        n,
        |i| format!("block {i}"),
        move |i, cx| {
            let mut c = 0;
            let r = (|| {
                for v in &vals[i as usize * chunk..((i as usize + 1) * chunk).min(vals.len())] {
                    for z in ["", "0", "00"] {
                        for s in make(&format!("{z}{v}")) {
                            c += 1;
                            f(&s, cx)?;
                        }
                    }
                }
                Ok(())
            })();
            cx.evaluations(c);
            r
        },
    )
}

/// Every decimal with at most `a` integer and `b` fraction digits.
fn decimals(name: &str, make: fn(&str) -> Vec<String>, f: F, tier: Tier) -> Box<dyn Space> {
    let frac = if tier == Tier::Quick { 100 } else { 1000 };
    space(
        name,
        &format!("every decimal a.b with a in 0..=400 and b in 0..{frac} written with two/three digits, plus 7-digit fractions next to 100 and 360"),
        401,
        |i| format!("integer part {i}"),
        move |i, cx| {
            let mut c = 0;
            let wd = if frac == 100 { 2 } else { 3 };
            let r = (|| {
                for b in 0..frac {
                    for s in make(&format!("{i}.{b:0wd$}")) {
                        c += 1;
                        f(&s, cx)?;
                    }
                }
                if matches!(i, 0 | 99 | 100 | 359 | 360) {
                    for b in (0..2000).chain(9_998_000..10_000_000) {
                        for s in make(&format!("{i}.{b:07}")) {
                            c += 1;
                            f(&s, cx)?;
                        }
                    }
                }
                Ok(())
            })();
            cx.evaluations(c);
            r
        },
    )
}

pub fn c02(tier: Tier) -> Check {
    let n = if tier == Tier::Quick { 6 } else { 7 };
    let num = st(&numerals());
    let pre = st(&["", "^", "!", "^!", "!^", "^^", "!!", "^!!", " ", "^ ", "\u{20ac}"]);
    Check::new("C02", "exploration")
        .assume("Inputs longer than the stated symbol bounds and symbols outside the stated alphabets behave like the enumerated ones.")
        .with(strings("size-strings", vec!["0", "1", "9", ",", ".", "+", "-", "e", "pct:", "p", ":", "max", "m", "^", "!", " ", "é", "inf", "x", "full"], n, check_size))
        .with(product_of("size-two-numerals", vec![pre.clone(), num.clone(), st(&["", ",", ",,", ", ", "x"]), num.clone(), st(&["", ",", ",1"])], check_size))
        .with(product_of("size-percent", vec![pre.clone(), st(&["pct:", "pct", "Pct:", "pct:pct:", "!pct:"]), num.clone(), st(&["", ",", "%", " ", ",1"])], check_size))
        .with(product_of("size-words", vec![pre, st(&["max", "Max", "MAX", "ma", "maxx", "full", "^max", "max,", ",max", ""])], check_size))
        .with(digits(
            "size-integer-boundaries",
            |v| vec![format!("{v},"), format!(",{v}"), format!("^{v},1"), format!("!1,{v}"), format!("pct:{v}"), format!("^pct:{v}")],
            check_size,
            tier,
        ))
        .with(decimals("size-decimals", |v| vec![format!("pct:{v}"), format!("^pct:{v}"), format!("{v},")], check_size, tier))
}

pub fn c03(tier: Tier) -> Check {
    let n = if tier == Tier::Quick { 6 } else { 7 };
    let num = st(&numerals());
    let mut words: Vec<&'static str> = QUALITIES.iter().map(|q| q.0).collect();
    words.extend(FORMATS.iter().map(|f| f.0));
    words.extend(["jpeg", "tiff", "Default", "JPG", "native", "grey", "colour", "jpx", "j2k"]);
    let mut one_off: Vec<String> = vec![];
    for wd in &words {
        one_off.push(wd.to_string());
        let b: Vec<char> = wd.chars().collect();
        for i in 0..b.len() {
            let mut v = b.clone();
            v.remove(i);
            one_off.push(v.iter().collect());
            for c in (0x20u8..0x7f).map(|c| c as char).chain(['é', '\u{0}', '\u{212a}']) {
                let mut v = b.clone();
                v[i] = c;
                one_off.push(v.iter().collect());
                let mut v = b.clone();
                v.insert(i, c);
                one_off.push(v.iter().collect());
            }
        }
    }
    let syms: Vec<&'static str> = vec!["jp", "g", "2", "ti", "f", "p", "n", "d", "we", "b", "it", "on", "al", "gr", "ay", "co", "lor", "de", "fault", "J", ".", ""];
    Check::new("C03", "exploration")
        .assume("Inputs longer than the stated symbol bounds and symbols outside the stated alphabets behave like the enumerated ones.")
        .with(strings("rotation-strings", vec!["0", "1", "3", "6", "9", ".", "+", "-", "e", "!", " ", "inf", "nan", ",", "é", "x"], n, check_rotation))
        .with(product_of("rotation-numerals", vec![st(&["", "!", "!!", " ", "! ", "^", "é"]), num, st(&["", "!", " ", "deg", "\u{b0}"])], check_rotation))
        .with(digits("rotation-integers", |v| vec![v.to_string(), format!("!{v}"), format!("-{v}"), format!("{v}.")], check_rotation, tier))
        .with(decimals("rotation-decimals", |v| vec![v.to_string(), format!("!{v}"), format!("-{v}")], check_rotation, tier))
        .with(strings("quality-format-strings", syms, if tier == Tier::Quick { 4 } else { 5 }, check_qf))
        .with(product_of("quality-format-near-misses", vec![st(&["", " "]), one_off, st(&["", " ", "."])], check_qf))
}
