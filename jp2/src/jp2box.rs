//! An independent reader and writer of the JP2 box structure (ISO/IEC 15444-1 Annex I).

use std::ops::Range;

#[derive(Clone, Debug)]
pub struct Bx {
    pub kind: [u8; 4],
    pub body: Range<usize>,
    pub at: usize,
}
pub fn be32(b: &[u8]) -> u32 {
    u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}
pub fn be16(b: &[u8]) -> u16 {
    u16::from_be_bytes([b[0], b[1]])
}
/// Boxes that tile `range` exactly. Positions are relative to the start of the file.
pub fn parse_in(b: &[u8], range: Range<usize>) -> Result<Vec<Bx>, String> {
    let mut v = vec![];
    let mut p = range.start;
    while p < range.end {
        if range.end - p < 8 {
            return Err(format!("{} stray bytes after the last box", range.end - p));
        }
        let (l, kind) = (be32(&b[p..]) as u64, [b[p + 4], b[p + 5], b[p + 6], b[p + 7]]);
        let (head, len) = match l {
            0 => (8, (range.end - p) as u64),
            1 => {
                if range.end - p < 16 {
                    return Err("extended length cut off".into());
                }
                (16, (be32(&b[p + 8..]) as u64) << 32 | be32(&b[p + 12..]) as u64)
            }
            n => (8, n),
        };
        if len < head || len > (range.end - p) as u64 {
            return Err(format!("box {:?} of length {len} at {p}", String::from_utf8_lossy(&kind)));
        }
        v.push(Bx { kind, body: p + head as usize..p + len as usize, at: p });
        p += len as usize;
    }
    Ok(v)
}
pub fn parse(b: &[u8]) -> Result<Vec<Bx>, String> {
    parse_in(b, 0..b.len())
}
pub fn make(kind: &[u8; 4], body: &[u8]) -> Vec<u8> {
    let mut v = ((body.len() + 8) as u32).to_be_bytes().to_vec();
    v.extend_from_slice(kind);
    v.extend_from_slice(body);
    v
}
/// A minimal JP2 file around a codestream.
pub fn wrap(codestream: &[u8], siz: &crate::refj2k::Siz) -> Vec<u8> {
    let mut v = make(b"jP  ", &[0x0D, 0x0A, 0x87, 0x0A]);
    v.extend(make(b"ftyp", b"jp2 \0\0\0\0jp2 "));
    let depth = |c: &crate::refj2k::SizComp| (c.prec - 1) as u8 | if c.sgnd { 0x80 } else { 0 };
    let alike = siz.comps.iter().all(|c| depth(c) == depth(&siz.comps[0]));
    let mut h = ((siz.y1 - siz.y0) as u32).to_be_bytes().to_vec();
    h.extend(((siz.x1 - siz.x0) as u32).to_be_bytes());
    h.extend((siz.comps.len() as u16).to_be_bytes());
    h.extend([if alike { depth(&siz.comps[0]) } else { 255 }, 7, 0, 0]);
    let mut b = make(b"ihdr", &h);
    if !alike {
        b.extend(make(b"bpcc", &siz.comps.iter().map(depth).collect::<Vec<_>>()));
    }
    b.extend(make(b"colr", &[1, 0, 0, 0, 0, 0, if siz.comps.len() >= 3 { 16 } else { 17 }]));
    v.extend(make(b"jp2h", &b));
    v.extend(make(b"jp2c", codestream));
    v
}
