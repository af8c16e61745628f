//! Safe wrappers around the public interface of openjp2.

use openjp2::image::*;
use openjp2::openjpeg::*;
use std::ffi::{c_char, c_void, CStr, CString};

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Comp {
    pub dx: u32,
    pub dy: u32,
    pub prec: u32,
    pub sgnd: bool,
    pub w: u32,
    pub h: u32,
    pub x0: u32,
    pub y0: u32,
    pub factor: u32,
    pub alpha: u16,
    pub data: Option<Vec<i32>>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Img {
    pub x0: u32,
    pub y0: u32,
    pub x1: u32,
    pub y1: u32,
    pub cs: i32,
    pub icc: Option<Vec<u8>>,
    pub comps: Vec<Comp>,
}
pub fn ceil_div(a: u32, b: u32) -> u32 {
    ((a as u64 + b as u64 - 1) / b as u64) as u32
}
impl Img {
    /// An image on the given area whose component sizes follow from sub-sampling.
    pub fn new(area: (u32, u32, u32, u32), comps: &[(u32, u32, u32, bool)]) -> Img {
        let (x0, y0, x1, y1) = area;
        Img {
            x0,
            y0,
            x1,
            y1,
            cs: if comps.len() >= 3 { 1 } else { 2 },
            icc: None,
            comps: comps
                .iter()
                .map(|&(dx, dy, prec, sgnd)| {
                    let (cx, cy) = (ceil_div(x0, dx), ceil_div(y0, dy));
                    let (w, h) = (ceil_div(x1, dx) - cx, ceil_div(y1, dy) - cy);
                    Comp { dx, dy, prec, sgnd, w, h, x0: cx, y0: cy, factor: 0, alpha: 0, data: Some(vec![0; (w * h) as usize]) }
                })
                .collect(),
        }
    }
    pub fn fill(mut self, mut f: impl FnMut(usize, u32, u32, i64, i64) -> i64) -> Img {
        for (c, k) in self.comps.iter_mut().enumerate() {
            let (lo, hi) = range(k.prec, k.sgnd);
            let w = k.w;
            for (i, v) in k.data.as_mut().unwrap().iter_mut().enumerate() {
                *v = f(c, i as u32 % w, i as u32 / w, lo, hi).clamp(lo, hi) as i32;
            }
        }
        self
    }
}
pub fn range(prec: u32, sgnd: bool) -> (i64, i64) {
    if sgnd {
        (-(1i64 << (prec - 1)), (1i64 << (prec - 1)) - 1)
    } else {
        (0, (1i64 << prec) - 1)
    }
}
pub fn clrspc(k: i32) -> OPJ_COLOR_SPACE {
    match k {
        1 => OPJ_CLRSPC_SRGB,
        2 => OPJ_CLRSPC_GRAY,
        3 => OPJ_CLRSPC_SYCC,
        4 => OPJ_CLRSPC_EYCC,
        5 => OPJ_CLRSPC_CMYK,
        -1 => OPJ_CLRSPC_UNKNOWN,
        _ => OPJ_CLRSPC_UNSPECIFIED,
    }
}
pub fn codec_format(jp2: bool) -> CODEC_FORMAT {
    if jp2 {
        OPJ_CODEC_JP2
    } else {
        OPJ_CODEC_J2K
    }
}

/// A library image. Freed on drop.
pub struct Image(pub *mut opj_image_t);
impl Drop for Image {
    fn drop(&mut self) {
        if !self.0.is_null() {
            unsafe { opj_image_destroy(self.0) }
        }
    }
}
impl Image {
    pub fn from(img: &Img) -> Image {
        Image::build(img, true)
    }
    /// Without sample buffers, as the tile-wise encoder expects it.
    pub fn without_data(img: &Img) -> Image {
        Image::build(img, false)
    }
    fn build(img: &Img, data: bool) -> Image {
        unsafe {
            let mut pars: Vec<opj_image_comptparm> = img
                .comps
                .iter()
                .map(|c| opj_image_comptparm { dx: c.dx, dy: c.dy, w: c.w, h: c.h, x0: img.x0, y0: img.y0, prec: c.prec, bpp: 0, sgnd: c.sgnd as u32 })
                .collect();
            let p = if data { opj_image_create(pars.len() as u32, pars.as_mut_ptr(), clrspc(img.cs)) } else { opj_image_tile_create(pars.len() as u32, pars.as_mut_ptr(), clrspc(img.cs)) };
            assert!(!p.is_null());
            let q = &mut *p;
            (q.x0, q.y0, q.x1, q.y1) = (img.x0, img.y0, img.x1, img.y1);
            q.color_space = clrspc(img.cs);
            for (i, c) in img.comps.iter().enumerate() {
                let k = &mut *q.comps.add(i);
                k.alpha = c.alpha;
                if data {
                    let v = c.data.as_ref().unwrap();
                    assert_eq!(v.len(), (c.w * c.h) as usize);
                    std::ptr::copy_nonoverlapping(v.as_ptr(), k.data, v.len());
                }
            }
            if let Some(icc) = &img.icc {
                let b = libc::malloc(icc.len().max(1)) as *mut u8;
                std::ptr::copy_nonoverlapping(icc.as_ptr(), b, icc.len());
                q.icc_profile_buf = b;
                q.icc_profile_len = icc.len() as u32;
            }
            Image(p)
        }
    }
    pub fn get(&self) -> Img {
        unsafe {
            let q = &*self.0;
            let icc = (!q.icc_profile_buf.is_null()).then(|| std::slice::from_raw_parts(q.icc_profile_buf, q.icc_profile_len as usize).to_vec());
            let mut comps = vec![];
            for i in 0..q.numcomps as usize {
                let k = &*q.comps.add(i);
                let n = k.w as usize * k.h as usize;
                let data = (!k.data.is_null()).then(|| std::slice::from_raw_parts(k.data, n).to_vec());
                comps.push(Comp { dx: k.dx, dy: k.dy, prec: k.prec, sgnd: k.sgnd != 0, w: k.w, h: k.h, x0: k.x0, y0: k.y0, factor: k.factor, alpha: k.alpha, data });
            }
            Img { x0: q.x0, y0: q.y0, x1: q.x1, y1: q.y1, cs: q.color_space as i32, icc, comps }
        }
    }
}

// ------------------------------------------------------------------ streams

/// What a callback of a custom stream was asked for.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Call {
    Read(usize),
    Write(usize),
    Skip(i64),
    Seek(i64),
}
/// How a stream behaves at its n-th callback; everything else is a full transfer.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Quirk {
    /// transfers at most so many bytes (at least one)
    Short(usize),
    Fail,
}
#[derive(Default)]
pub struct Io {
    pub data: Vec<u8>,
    pub pos: i64,
    /// Deviations: (number of the callback, what happens)
    pub quirks: Vec<(usize, Quirk)>,
    /// Every transfer is at most so many bytes.
    pub chunk: Option<usize>,
    /// Nothing from here on can be read.
    pub cut: Option<usize>,
    /// What is said to be the length, if not the data's.
    pub length: Option<u64>,
    /// Callbacks that are not set: read or write, skip, seek.
    pub without: [bool; 3],
    pub calls: Vec<Call>,
    pub log: bool,
    pub ncalls: usize,
    /// A callback was called in a way its contract excludes.
    pub misuse: Option<String>,
    pub failed: usize,
    /// where a failed read would have read
    pub failed_at: Option<i64>,
    pub freed: u32,
}
impl Io {
    fn quirk(&mut self, c: Call) -> Option<Quirk> {
        let n = self.ncalls;
        self.ncalls += 1;
        if self.log {
            self.calls.push(c);
        }
        let q = self.quirks.iter().find(|q| q.0 == n).map(|q| q.1);
        if q == Some(Quirk::Fail) {
            self.failed += 1;
        }
        q
    }
}
unsafe extern "C" fn io_read(buf: *mut c_void, n: usize, d: *mut c_void) -> usize {
    let io = &mut *(d as *mut Io);
    let q = io.quirk(Call::Read(n));
    if q == Some(Quirk::Fail) {
        io.failed_at.get_or_insert(io.pos);
        return usize::MAX;
    }
    let left = io.cut.unwrap_or(usize::MAX).min(io.data.len()) as i64 - io.pos;
    if io.pos < 0 {
        io.misuse = Some(format!("read at position {}", io.pos));
        return usize::MAX;
    }
    if left <= 0 || n == 0 {
        return usize::MAX; // end of file
    }
    let mut m = n.min(left as usize);
    if let Some(c) = io.chunk {
        m = m.min(c)
    }
    if let Some(Quirk::Short(k)) = q {
        m = m.min(k.max(1))
    }
    std::ptr::copy_nonoverlapping(io.data.as_ptr().add(io.pos as usize), buf as *mut u8, m);
    io.pos += m as i64;
    m
}
unsafe extern "C" fn io_write(buf: *mut c_void, n: usize, d: *mut c_void) -> usize {
    let io = &mut *(d as *mut Io);
    let q = io.quirk(Call::Write(n));
    if q == Some(Quirk::Fail) {
        return usize::MAX;
    }
    if io.pos < 0 {
        io.misuse = Some(format!("write at position {}", io.pos));
        return usize::MAX;
    }
    let mut m = n;
    if let Some(c) = io.chunk {
        m = m.min(c)
    }
    if let Some(Quirk::Short(k)) = q {
        m = m.min(k.max(1))
    }
    let p = io.pos as usize;
    if io.data.len() < p + m {
        io.data.resize(p + m, 0);
    }
    std::ptr::copy_nonoverlapping(buf as *const u8, io.data.as_mut_ptr().add(p), m);
    io.pos += m as i64;
    m
}
/// Moves forward by `n`; the interface knows no skipping backwards.
unsafe extern "C" fn io_skip(n: i64, d: *mut c_void) -> i64 {
    let io = &mut *(d as *mut Io);
    let q = io.quirk(Call::Skip(n));
    if q == Some(Quirk::Fail) {
        return -1;
    }
    if n < 0 {
        io.misuse = Some(format!("skip by {n}"));
        return -1;
    }
    io.pos += n;
    n
}
unsafe extern "C" fn io_seek(p: i64, d: *mut c_void) -> i32 {
    let io = &mut *(d as *mut Io);
    let q = io.quirk(Call::Seek(p));
    if q == Some(Quirk::Fail) {
        return 0;
    }
    if p < 0 {
        io.misuse = Some(format!("seek to {p}"));
        return 0;
    }
    io.pos = p;
    1
}
unsafe extern "C" fn io_free(d: *mut c_void) {
    (*(d as *mut Io)).freed += 1;
}

pub struct Stream {
    pub p: *mut opj_stream_t,
    pub io: Option<Box<Io>>,
}
impl Drop for Stream {
    fn drop(&mut self) {
        if !self.p.is_null() {
            unsafe { opj_stream_destroy(self.p) }
        }
    }
}
impl Stream {
    pub fn input(io: Io, bufsize: usize) -> Stream {
        Stream::custom(io, bufsize, true)
    }
    pub fn output(io: Io, bufsize: usize) -> Stream {
        Stream::custom(io, bufsize, false)
    }
    fn custom(io: Io, bufsize: usize, input: bool) -> Stream {
        unsafe {
            let mut io = Box::new(io);
            let p = opj_stream_create(bufsize, input as i32);
            if input {
                if !io.without[0] {
                    opj_stream_set_read_function(p, Some(io_read));
                }
                opj_stream_set_user_data_length(p, io.length.unwrap_or(io.data.len() as u64));
            } else if !io.without[0] {
                opj_stream_set_write_function(p, Some(io_write));
            }
            if !io.without[1] {
                opj_stream_set_skip_function(p, Some(io_skip));
            }
            if !io.without[2] {
                opj_stream_set_seek_function(p, Some(io_seek));
            }
            opj_stream_set_user_data(p, &mut *io as *mut Io as *mut c_void, Some(io_free));
            Stream { p, io: Some(io) }
        }
    }
    /// A null pointer means that the library refused.
    pub fn file(path: &str, bufsize: usize, input: bool) -> Stream {
        let c = CString::new(path).unwrap();
        Stream { p: unsafe { opj_stream_create_file_stream(c.as_ptr(), bufsize, input as i32) }, io: None }
    }
}

// ------------------------------------------------------------------ codecs

pub struct Codec {
    pub p: *mut opj_codec_t,
    pub log: Box<Log>,
}
#[derive(Default)]
pub struct Log {
    pub errors: Vec<String>,
    pub warnings: Vec<String>,
}
unsafe extern "C" fn on_error(m: *const c_char, d: *mut c_void) {
    let l = &mut *(d as *mut Log);
    if l.errors.len() < 20 {
        l.errors.push(CStr::from_ptr(m).to_string_lossy().trim().to_string());
    }
}
unsafe extern "C" fn on_warning(m: *const c_char, d: *mut c_void) {
    let l = &mut *(d as *mut Log);
    if l.warnings.len() < 20 {
        l.warnings.push(CStr::from_ptr(m).to_string_lossy().trim().to_string());
    }
}
impl Drop for Codec {
    fn drop(&mut self) {
        if !self.p.is_null() {
            unsafe { opj_destroy_codec(self.p) }
        }
    }
}
impl Codec {
    fn with(p: *mut opj_codec_t) -> Codec {
        assert!(!p.is_null());
        let mut log = Box::<Log>::default();
        unsafe {
            opj_set_error_handler(p, Some(on_error), &mut *log as *mut Log as *mut c_void);
            opj_set_warning_handler(p, Some(on_warning), &mut *log as *mut Log as *mut c_void);
        }
        Codec { p, log }
    }
    pub fn decoder(jp2: bool) -> Codec {
        Codec::with(opj_create_decompress(codec_format(jp2)))
    }
    pub fn encoder(jp2: bool) -> Codec {
        Codec::with(unsafe { opj_create_compress(codec_format(jp2)) })
    }
    pub fn why(&self) -> String {
        if self.log.errors.is_empty() { self.log.warnings.join("; ") } else { self.log.errors.join("; ") }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct PocSpec {
    pub tile: u32,
    pub res0: u32,
    pub comp0: u32,
    pub lay1: u32,
    pub res1: u32,
    pub comp1: u32,
    pub prog: i32,
}
/// Encoder parameters. `Default` is the library's default.
#[derive(Clone, Debug, PartialEq)]
pub struct Enc {
    pub jp2: bool,
    /// tile width, height, origin
    pub tile: Option<(i32, i32)>,
    pub tile_origin: (i32, i32),
    pub res: i32,
    pub cb: (i32, i32),
    pub mode: i32,
    pub prog: i32,
    pub csty: i32,
    /// precinct sizes, highest resolution first
    pub prec: Vec<(i32, i32)>,
    pub irreversible: bool,
    pub mct: i8,
    pub layers: i32,
    pub rates: Vec<f32>,
    pub distos: Vec<f32>,
    /// 0: allocate by rates; 1: by quality
    pub fixed_quality: bool,
    pub roi: Option<(i32, i32)>,
    pub tp: Option<u8>,
    pub pocs: Vec<PocSpec>,
    pub comment: Option<String>,
    pub extra: Vec<String>,
    pub custom_mct: Option<(Vec<f32>, Vec<i32>)>,
    pub max_comp_size: i32,
    pub max_cs_size: i32,
    pub rsiz: u16,
    pub bufsize: usize,
}
impl Default for Enc {
    fn default() -> Self {
        Enc {
            jp2: false,
            tile: None,
            tile_origin: (0, 0),
            res: 6,
            cb: (64, 64),
            mode: 0,
            prog: 0,
            csty: 0,
            prec: vec![],
            irreversible: false,
            mct: 0,
            layers: 0,
            rates: vec![],
            distos: vec![],
            fixed_quality: false,
            roi: None,
            tp: None,
            pocs: vec![],
            comment: None,
            extra: vec![],
            custom_mct: None,
            max_comp_size: 0,
            max_cs_size: 0,
            rsiz: 0,
            bufsize: 1 << 16,
        }
    }
}
impl Enc {
    pub fn apply(&self, p: &mut opj_cparameters_t) {
        unsafe { opj_set_default_encoder_parameters(p) };
        if let Some((w, h)) = self.tile {
            p.tile_size_on = 1;
            (p.cp_tdx, p.cp_tdy) = (w, h);
        }
        (p.cp_tx0, p.cp_ty0) = self.tile_origin;
        p.numresolution = self.res;
        (p.cblockw_init, p.cblockh_init) = self.cb;
        p.mode = self.mode;
        p.prog_order = self.prog;
        p.csty = self.csty;
        if !self.prec.is_empty() {
            p.csty |= 1;
            p.res_spec = self.prec.len() as i32;
            for (i, q) in self.prec.iter().enumerate() {
                (p.prcw_init[i], p.prch_init[i]) = *q;
            }
        }
        p.irreversible = self.irreversible as i32;
        p.tcp_mct = self.mct as c_char;
        p.tcp_numlayers = self.layers;
        if self.layers > 0 {
            if self.fixed_quality {
                p.cp_fixed_quality = 1;
            } else {
                p.cp_disto_alloc = 1;
            }
        }
        for (i, r) in self.rates.iter().enumerate() {
            p.tcp_rates[i] = *r;
        }
        for (i, r) in self.distos.iter().enumerate() {
            p.tcp_distoratio[i] = *r;
        }
        if let Some((c, s)) = self.roi {
            (p.roi_compno, p.roi_shift) = (c, s);
        }
        if let Some(f) = self.tp {
            p.tp_on = 1;
            p.tp_flag = f as c_char;
        }
        p.numpocs = self.pocs.len() as u32;
        for (i, q) in self.pocs.iter().enumerate() {
            let o = &mut p.POC[i];
            o.tile = q.tile;
            (o.resno0, o.compno0, o.layno1, o.resno1, o.compno1, o.prg1) = (q.res0, q.comp0, q.lay1, q.res1, q.comp1, q.prog);
            let name = [b"LRCP", b"RLCP", b"RPCL", b"PCRL", b"CPRL"][q.prog as usize];
            for (k, b) in name.iter().enumerate() {
                o.progorder[k] = *b as c_char;
            }
        }
        p.max_comp_size = self.max_comp_size;
        p.max_cs_size = self.max_cs_size;
        p.rsiz = self.rsiz;
    }
}

/// How far an encode got before it was refused.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Stage {
    Mct,
    Setup,
    Options,
    Header,
    Select,
    Start,
    Encode,
    End,
    Decode,
    DecodeEnd,
    Open,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Refused {
    pub stage: Stage,
    pub why: String,
}
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "refused at {:?}: {}", self.stage, self.why)
    }
}
/// A parameter block with what it points to.
pub struct Params {
    pub p: Box<opj_cparameters_t>,
    _comment: Option<CString>,
}
impl Drop for Params {
    fn drop(&mut self) {
        if !self.p.mct_data.is_null() {
            unsafe { libc::free(self.p.mct_data) }
        }
    }
}
impl Params {
    pub fn new(e: &Enc) -> Option<Params> {
        let mut p = Box::new(opj_cparameters_t::default());
        e.apply(&mut p);
        let comment = e.comment.as_ref().map(|s| CString::new(s.as_str()).unwrap());
        if let Some(c) = &comment {
            p.cp_comment = c.as_ptr() as *mut c_char;
        }
        let mut ok = true;
        if let Some((m, s)) = &e.custom_mct {
            let (mut m, mut s) = (m.clone(), s.clone());
            ok = unsafe { opj_set_MCT(&mut *p, m.as_mut_ptr(), s.as_mut_ptr(), s.len() as u32) } != 0;
        }
        let r = Params { p, _comment: comment };
        ok.then_some(r)
    }
}
pub fn set_extra(c: &Codec, extra: &[String]) -> bool {
    let cs: Vec<CString> = extra.iter().map(|s| CString::new(s.as_str()).unwrap()).collect();
    let mut v: Vec<*const c_char> = cs.iter().map(|s| s.as_ptr()).collect();
    v.push(std::ptr::null());
    unsafe { opj_encoder_set_extra_options(c.p, v.as_ptr()) != 0 }
}

/// Encodes; the output stream's final state comes back in either case.
pub fn encode_to(img: &Img, e: &Enc, s: &Stream) -> Result<(), Refused> {
    unsafe {
        let c = Codec::encoder(e.jp2);
        let no = |stage, c: &Codec| Err(Refused { stage, why: c.why() });
        let Some(mut p) = Params::new(e) else { return no(Stage::Mct, &c) };
        let im = Image::from(img);
        if opj_setup_encoder(c.p, &mut *p.p, im.0) == 0 {
            return no(Stage::Setup, &c);
        }
        if !e.extra.is_empty() && !set_extra(&c, &e.extra) {
            return no(Stage::Options, &c);
        }
        if opj_start_compress(c.p, im.0, s.p) == 0 {
            return no(Stage::Start, &c);
        }
        if opj_encode(c.p, s.p) == 0 {
            return no(Stage::Encode, &c);
        }
        if opj_end_compress(c.p, s.p) == 0 {
            return no(Stage::End, &c);
        }
        Ok(())
    }
}
pub fn encode(img: &Img, e: &Enc) -> Result<Vec<u8>, Refused> {
    let mut s = Stream::output(Io::default(), e.bufsize);
    encode_to(img, e, &s)?;
    let mut io = s.io.take().unwrap();
    drop(s); // a buffered writer hands on what is left when it goes
    if let Some(m) = &io.misuse {
        return Err(Refused { stage: Stage::Open, why: format!("stream misused: {m}") });
    }
    Ok(std::mem::take(&mut io.data))
}

/// Decoder options.
#[derive(Clone, Debug, PartialEq)]
pub struct Dec {
    pub jp2: bool,
    pub reduce: u32,
    pub layers: u32,
    pub area: Option<(i32, i32, i32, i32)>,
    pub comps: Option<Vec<u32>>,
    pub strict: bool,
    pub bufsize: usize,
    /// ignore palette, component mapping and channel definitions
    pub raw_channels: bool,
    pub no_end: bool,
}
impl Default for Dec {
    fn default() -> Self {
        Dec { jp2: false, reduce: 0, layers: 0, area: None, comps: None, strict: true, bufsize: 1 << 16, raw_channels: false, no_end: false }
    }
}
pub struct Opened {
    pub image: Image,
    pub codec: Codec,
}
pub fn open(s: &Stream, d: &Dec) -> Result<Opened, Refused> {
    unsafe {
        let c = Codec::decoder(d.jp2);
        let mut p = Box::new(opj_dparameters_t::default());
        opj_set_default_decoder_parameters(&mut *p);
        p.cp_reduce = d.reduce;
        p.cp_layer = d.layers;
        if d.raw_channels {
            p.flags |= 1;
        }
        if opj_setup_decoder(c.p, &mut *p) == 0 {
            return Err(Refused { stage: Stage::Setup, why: c.why() });
        }
        if !d.strict && opj_decoder_set_strict_mode(c.p, 0) == 0 {
            return Err(Refused { stage: Stage::Setup, why: "strict".into() });
        }
        let mut im: *mut opj_image_t = std::ptr::null_mut();
        let ok = opj_read_header(s.p, c.p, &mut im);
        let image = Image(im);
        if ok == 0 || im.is_null() {
            return Err(Refused { stage: Stage::Header, why: c.why() });
        }
        Ok(Opened { codec: c, image })
    }
}
pub fn decode_from(s: &Stream, d: &Dec) -> Result<Img, Refused> {
    unsafe {
        let Opened { codec: c, image } = open(s, d)?;
        let no = |stage| Err(Refused { stage, why: c.why() });
        if let Some(v) = &d.comps {
            if opj_set_decoded_components(c.p, v.len() as u32, v.as_ptr(), 0) == 0 {
                return no(Stage::Select);
            }
        }
        if let Some((a, b, x, y)) = d.area {
            if opj_set_decode_area(c.p, image.0, a, b, x, y) == 0 {
                return no(Stage::Select);
            }
        }
        if opj_decode(c.p, s.p, image.0) == 0 {
            return no(Stage::Decode);
        }
        if !d.no_end && opj_end_decompress(c.p, s.p) == 0 {
            return no(Stage::DecodeEnd);
        }
        Ok(image.get())
    }
}
pub fn decode(bytes: &[u8], d: &Dec) -> Result<Img, Refused> {
    let s = Stream::input(Io { data: bytes.to_vec(), ..Io::default() }, d.bufsize);
    let r = decode_from(&s, d);
    if let Some(m) = &s.io.as_ref().unwrap().misuse {
        return Err(Refused { stage: Stage::Open, why: format!("stream misused: {m}") });
    }
    r
}

/// The first difference between two images, if any.
pub fn diff(a: &Img, b: &Img) -> Option<String> {
    if (a.x0, a.y0, a.x1, a.y1) != (b.x0, b.y0, b.x1, b.y1) {
        return Some(format!("area {:?} / {:?}", (a.x0, a.y0, a.x1, a.y1), (b.x0, b.y0, b.x1, b.y1)));
    }
    if a.comps.len() != b.comps.len() {
        return Some(format!("{} / {} components", a.comps.len(), b.comps.len()));
    }
    for (i, (p, q)) in a.comps.iter().zip(&b.comps).enumerate() {
        let g = |c: &Comp| (c.dx, c.dy, c.w, c.h, c.x0, c.y0, c.prec, c.sgnd);
        if g(p) != g(q) {
            return Some(format!("component {i}: (dx, dy, w, h, x0, y0, prec, sgnd) {:?} / {:?}", g(p), g(q)));
        }
        match (&p.data, &q.data) {
            (Some(x), Some(y)) => {
                if let Some(k) = x.iter().zip(y).position(|(x, y)| x != y) {
                    let n = x.iter().zip(y).filter(|(x, y)| x != y).count();
                    return Some(format!("component {i}: sample ({}, {}) is {} / {} ({n} of {} differ)", k as u32 % p.w, k as u32 / p.w, x[k], y[k], x.len()));
                }
            }
            (None, None) => {}
            _ => return Some(format!("component {i}: data present {} / {}", p.data.is_some(), q.data.is_some())),
        }
    }
    None
}
