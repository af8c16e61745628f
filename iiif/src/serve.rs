//! C05-C07: the real serving loop, request handler and hyper, over simulated sockets, files and scheduling.

use crate::path::{expected, strings_over};
use glommio::sim;
use mck::{hash_bytes, last_panic, mix64, space, Check, Cx, Space, Tier};
use std::path::{Component, Path, PathBuf};

const ROOT: &str = "/srv/images";

/// The simulated file system: some files inside the image directory, some outside.
fn files() -> Vec<(&'static str, bool)> {
    vec![
        ("/srv", true),
        ("/srv/images", true),
        ("/srv/images/a", false),
        ("/srv/images/id", false),
        ("/srv/images/b.jp2", false),
        ("/srv/images/info.json", false),
        ("/srv/images/info.json.jp2", false),
        ("/srv/images/xinfo.json", false),
        ("/srv/images/full", false),
        ("/srv/images/sub", true),
        ("/srv/images/sub/a", false),
        ("/srv/images/..a", false),
        ("/srv/images/a..", false),
        ("/srv/images/a%2Fb", false),
        ("/srv/images/...", false),
        ("/srv/images/\u{e9}", false),
        ("/srv/images/%2e%2e", false),
        ("/srv/a", false),
        ("/srv/id", false),
        ("/srv/imagesa", false),
        ("/srv/images.bak", true),
        ("/srv/images.bak/a", false),
        ("/a", false),
        ("/id", false),
        ("/etc", true),
        ("/etc/passwd", false),
        ("/etc/a", false),
    ]
}
fn world() {
    sim::reset();
    for (p, d) in files() {
        sim::add_file(p, d);
    }
}
/// The deployed entry point.
fn start(root: &str) {
    world();
    laya::start(PathBuf::from(root).into_boxed_path());
}
/// The serving loop with a chosen limit.
fn start_limited(max: usize) {
    world();
    sim::spawn(async move {
        let _ = laya::verif::serve(([127, 0, 0, 1], 8080).into(), PathBuf::from(ROOT).into_boxed_path(), max).await;
    });
}

/// Runs everything runnable, in order, completing file opens and timers as they come up.
/// `Err` when a task panics or the server's own task ends.
fn settle(cx: &Cx) -> Result<(), String> {
    let mut steps = 0;
    loop {
        steps += 1;
        if steps > 20000 {
            return Err("the server keeps running without making progress".into());
        }
        if let Some(t) = sim::ready().first() {
            step_task(*t)?;
            cx.transitions(1);
        } else if let Some(o) = sim::pending_opens().first() {
            sim::complete_open(*o);
        } else if sim::pending_timers() > 0 && steps < 200 {
            sim::fire_timer();
        } else {
            return Ok(());
        }
    }
}
fn step_task(t: usize) -> Result<(), String> {
    match sim::poll(t) {
        sim::Polled::Panicked => Err(format!("a task panicked, which ends its shard: {}", last_panic())),
        sim::Polled::Done if t == 0 => Err("the serving loop ended".into()),
        _ => Ok(()),
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Resp {
    pub status: u16,
    pub body: Vec<u8>,
    pub close: bool,
}
/// Splits `out` into complete HTTP/1 responses; `heads[k]` tells that request k was a HEAD.
/// `closed`: the server has closed the connection, which may be what ends the last body.
fn responses(out: &[u8], heads: &[bool], closed: bool) -> Result<(Vec<Resp>, usize), String> {
    let mut v: Vec<Resp> = vec![];
    let mut at = 0;
    while at < out.len() {
        let Some(h) = out[at..].windows(4).position(|x| x == b"\r\n\r\n") else { break };
        let head = std::str::from_utf8(&out[at..at + h]).map_err(|_| "response header is not text")?;
        let mut lines = head.split("\r\n");
        let sl = lines.next().unwrap();
        if !(sl.starts_with("HTTP/1.1 ") || sl.starts_with("HTTP/1.0 ")) || sl.len() < 12 {
            return Err(format!("bad status line {sl:?}"));
        }
        let status: u16 = sl[9..12].parse().map_err(|_| format!("bad status line {sl:?}"))?;
        let (mut len, mut chunked, mut close) = (None, false, sl.starts_with("HTTP/1.0"));
        for l in lines {
            let (n, val) = l.split_once(':').ok_or_else(|| format!("bad header line {l:?}"))?;
            let val = val.trim();
            match n.to_ascii_lowercase().as_str() {
                "content-length" => {
                    if len.is_some() {
                        return Err("two content-length headers".into());
                    }
                    len = Some(val.parse::<usize>().map_err(|_| "bad content-length")?)
                }
                "transfer-encoding" => chunked = val.eq_ignore_ascii_case("chunked"),
                "connection" => {
                    if val.eq_ignore_ascii_case("close") {
                        close = true
                    } else if val.eq_ignore_ascii_case("keep-alive") {
                        close = false
                    }
                }
                _ => {}
            }
        }
        let bodyless = heads.get(v.len()).copied().unwrap_or(false) || status / 100 == 1 || status == 204 || status == 304;
        let b0 = at + h + 4;
        let (body, end) = if bodyless {
            (vec![], b0)
        } else if chunked {
            let mut p = b0;
            let mut body = vec![];
            loop {
                let Some(e) = out[p..].windows(2).position(|x| x == b"\r\n") else { return Ok((v, at)) };
                let n = usize::from_str_radix(std::str::from_utf8(&out[p..p + e]).unwrap_or("?"), 16).map_err(|_| "bad chunk size")?;
                if out.len() < p + e + 2 + n + 2 {
                    return Ok((v, at));
                }
                body.extend_from_slice(&out[p + e + 2..p + e + 2 + n]);
                p += e + 2 + n + 2;
                if n == 0 {
                    break;
                }
            }
            (body, p)
        } else {
            let n = match len {
                Some(n) => n,
                None if close => {
                    if !closed {
                        return Ok((v, at));
                    }
                    out.len() - b0
                }
                None => return Err("response with neither content-length nor chunked encoding on a connection that stays open".into()),
            };
            if out.len() < b0 + n {
                break;
            }
            (out[b0..b0 + n].to_vec(), b0 + n)
        };
        v.push(Resp { status, body, close });
        at = end;
    }
    Ok((v, at))
}

// ------------------------------------------------------------------------------------------ C05

/// The file an identifier names, or None when it must be refused.
fn contained(id: &[u8]) -> Option<PathBuf> {
    use std::os::unix::ffi::OsStrExt;
    if id.contains(&0) || id.is_empty() || id[0] == b'/' {
        return None;
    }
    let p = Path::new(std::ffi::OsStr::from_bytes(id));
    let mut any = false;
    for c in p.components() {
        match c {
            Component::Normal(_) => any = true,
            Component::CurDir => {}
            _ => return None,
        }
    }
    any.then(|| p.to_path_buf())
}
fn is_file(p: &Path) -> bool {
    // lexical: the simulated tree has no links
    let mut q = PathBuf::from("/");
    for c in p.components() {
        if let Component::Normal(n) = c {
            q.push(n)
        }
    }
    files().iter().any(|(f, d)| !d && Path::new(f) == q)
}

fn one_request(cx: &Cx, root: &str, target: &str) -> Result<(), String> {
    start(root);
    settle(cx)?;
    let c = sim::connect(usize::MAX);
    sim::send(c, format!("GET {target} HTTP/1.1\r\nHost: h\r\n\r\n").as_bytes());
    settle(cx).map_err(|e| format!("{target:?}: {e}"))?;
    let (rs, used) = responses(&sim::output(c), &[], sim::closed(c)).map_err(|e| format!("{target:?}: {e}"))?;
    if rs.len() != 1 || used != sim::output_len(c) {
        return Err(format!("{target:?}: {} responses", rs.len()));
    }
    cx.evaluations(1);
    let st = rs[0].status;
    let opens = sim::opens();
    cx.outcome(hash_bytes(format!("{st} {opens:?}").as_bytes()));
    if !sim::other_file_access().is_empty() {
        return Err(format!("{target:?}: file system changes {:?}", sim::other_file_access()));
    }
    // 1. nothing outside is ever opened
    for o in &opens {
        let inside = o.strip_prefix(root).ok().map(|r| r.components().all(|c| matches!(c, Component::Normal(_) | Component::CurDir))).unwrap_or(false);
        use std::os::unix::ffi::OsStrExt;
        if !inside || o.as_os_str().as_bytes().contains(&0) || o.components().any(|c| c == Component::ParentDir) {
            return Err(format!("{target:?}: with image directory {root:?} the server opened {o:?} and answered {st}"));
        }
    }
    if !target.is_ascii() {
        return Ok(()); // not a legal request target: it may be refused as such
    }
    let path = target.split(['?', '#']).next().unwrap();
    if path.ends_with("info.json") {
        if st == 200 {
            // an image information document: it may look at the image it describes, inside the directory
            return Ok(());
        }
    }
    match expected(path) {
        Ok(req) => match contained(req.identifier().as_bytes()) {
            None => {
                if !(400..500).contains(&st) || !opens.is_empty() {
                    return Err(format!("{target:?}: identifier {:?} escapes, yet answered {st} with opens {opens:?}", req.identifier()));
                }
            }
            Some(p) => {
                let full = Path::new(root).join(&p);
                let id_is_plain = !req.identifier().ends_with('/') && !req.identifier().ends_with("/.");
                let exists = is_file(&full);
                if opens.iter().any(|o| *o != full) {
                    return Err(format!("{target:?}: opened {opens:?} instead of {full:?}"));
                }
                if exists && id_is_plain && (st != 200 || opens.is_empty()) {
                    return Err(format!("{target:?}: the image exists, yet answered {st} (opens {opens:?})"));
                }
                if st == 200 && opens.is_empty() {
                    return Err(format!("{target:?}: answered 200 without opening the image"));
                }
            }
        },
        Err(_) => {
            if st == 200 || !opens.is_empty() {
                return Err(format!("{target:?}: not an image request, yet answered {st} with opens {opens:?}"));
            }
        }
    }
    Ok(())
}

fn targets_space(name: &str, rule: &str, root: &'static str, ids: Vec<String>) -> Box<dyn Space> {
    let chunk = 32;
    let n = ids.len().div_ceil(chunk) as u64;
    let ids = std::rc::Rc::new(ids);
    let i2 = ids.clone();
    space(name, &format!("{rule} ({} identifiers, image directory {root:?})", ids.len()), n, move |i| format!("identifiers from {:?}", i2[i as usize * chunk]), move |i, cx: &mut Cx| {
        for id in &ids[i as usize * chunk..((i as usize + 1) * chunk).min(ids.len())] {
            one_request(cx, root, &format!("/{id}/full/max/0/default.jpg"))?;
        }
        Ok(())
    })
}

pub fn c05(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let toks = ["a", "..", ".", "/", "%2F", "%2f", "%2e%2e", "%2E", "%00", "%5C", "%252F", "%25", "srv%2Fimages", "etc%2Fpasswd"];
    let small = ["a", "..", "%2F", "%2e", ".", "sub"];
    let odd: Vec<String> = ["~", "~root", "id", "b.jp2", "sub%2Fa", "sub%2F..%2Fa", "%2Fsrv%2Fimages%2Fa", "..%2Fimages%2Fa", "..%2Fimages.bak%2Fa", "..a", "a..", "...", "%C3%A9", "é", "%FF", "%2Fetc%2Fpasswd", "file:%2F%2F%2Fetc%2Fpasswd", "a%2Fb", "a%252Fb", "%252e%252e", "a%00", "%00", "", "%20", "a%0A", "%E2%80%A5", "%C0%AE%C0%AE%2Fa", "C:%5Cx", "%5C..%5Ca", "./../a", "sub%2F%2Fa", "%2F%2Fetc%2Fpasswd", "a%2F", "a%2F.", "sub%2F.%2Fa", "info.json", "a%2Finfo.json"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let mut c = Check::new("C05", "exploration")
        .assume("The image directory contains no symbolic links leading out of it.")
        .assume("File access happens through glommio, whose open calls are recorded.");
    c.spaces.push(targets_space("identifier-tokens", &format!("every identifier of at most {} tokens over {toks:?}", if q { 4 } else { 5 }), ROOT, strings_over(&toks, if q { 4 } else { 5 })));
    c.spaces.push(targets_space("identifier-small-tokens", &format!("every identifier of at most {} tokens over {small:?}", if q { 6 } else { 7 }), ROOT, strings_over(&small, if q { 6 } else { 7 })));
    c.spaces.push(targets_space("identifier-menu", "identifiers chosen for their encodings", ROOT, odd.clone()));
    c.spaces.push(targets_space("identifier-menu-slash-root", "the same with a trailing slash on the directory", "/srv/images/", odd.clone()));
    c.spaces.push(targets_space("identifier-tokens-deep-root", "every identifier of at most 3 tokens, directory below the root", "/srv/images/sub", strings_over(&toks, 3)));
    // all single bytes and pairs of percent-encoded special bytes, in every position around a name
    let mut enc = vec![];
    for b in 0..256u32 {
        for t in ["%{}", "a%{}", "%{}a", "%{}..", "..%{}a", "..%2F%{}a", "%{}%2Fa"] {
            enc.push(t.replace("{}", &format!("{b:02X}")));
        }
    }
    c.spaces.push(targets_space("identifier-bytes", "every percent-encoded byte in seven positions around names and dot-dot", ROOT, enc));
    // whole targets: what is opened must be contained whatever the routing does
    let tt = strings_over(&["/", "..", "a", "%2F", "full", "max", "0", "default.jpg", "info.json"], if q { 4 } else { 5 });
    let tt: Vec<String> = tt.into_iter().map(|s| format!("/{s}")).collect();
    let n = tt.len().div_ceil(64) as u64;
    c.spaces.push(space("raw-targets", "every request target of at most 4 (5) tokens of separators, dot-dot and segment names", n, |i| format!("block {i}"), move |i, cx: &mut Cx| {
        for t in &tt[i as usize * 64..((i as usize + 1) * 64).min(tt.len())] {
            one_request(cx, ROOT, t)?;
        }
        Ok(())
    }));
    c
}

// ------------------------------------------------------------------------------------------ C06

#[derive(Clone, Debug, PartialEq)]
enum Expect {
    /// 200
    Ok,
    /// An error status (4xx or 5xx) with an explanation, the connection stays usable.
    Refused,
    /// 400 naming this word.
    Bad(&'static str),
    /// 404
    NotFound,
    /// Not HTTP: an error status or nothing, then close.
    Garbage,
    /// An information document or a refusal: any final status but a client-error for the id's existence
    Info,
}
#[derive(Clone, Debug)]
struct Req {
    name: &'static str,
    bytes: Vec<u8>,
    expect: Expect,
    head: bool,
    close: bool,
    body: bool,
}

fn menu() -> Vec<Req> {
    let r = |name: &'static str, s: &str, expect: Expect, head: bool, close: bool| Req { name, bytes: s.as_bytes().to_vec(), expect, head, close, body: s.contains("Content-Length") || s.contains("chunked") };
    let g = |name: &'static str, t: &str, e: Expect| Req { name, bytes: format!("GET {t} HTTP/1.1\r\nHost: h\r\n\r\n").into_bytes(), expect: e, head: false, close: false, body: false };
    vec![
        g("image", "/a/full/max/0/default.jpg", Expect::Ok),
        g("missing-image", "/zzz/full/max/0/default.jpg", Expect::Refused),
        g("bad-region", "/a/0,0,0,0/max/0/default.jpg", Expect::Bad("Region")),
        g("info", "/a/info.json", Expect::Info),
        r("post", "POST /a/full/max/0/default.jpg HTTP/1.1\r\nHost: h\r\nContent-Length: 5\r\n\r\nhello", Expect::NotFound, false, false),
        g("bad-size", "/a/full/0,/0/default.jpg", Expect::Bad("Size")),
        g("bad-rotation", "/a/full/max/400/default.jpg", Expect::Bad("Rotation")),
        g("bad-quality", "/a/full/max/0/x.jpg", Expect::Bad("quality")),
        g("bad-format", "/a/full/max/0/default.x", Expect::Bad("format")),
        g("no-format", "/a/full/max/0/default", Expect::Bad("format")),
        g("no-region", "/a", Expect::Bad("region")),
        g("no-size", "/a/full", Expect::Bad("size")),
        g("no-rotation", "/a/full/max", Expect::Bad("rotation")),
        g("no-quality", "/a/full/max/0", Expect::Bad("quality")),
        g("root", "/", Expect::Bad("egion")),
        g("not-utf8", "/%FF/full/max/0/default.jpg", Expect::Bad("UTF-8")),
        g("escaping", "/..%2Fa/full/max/0/default.jpg", Expect::Refused),
        g("nul", "/a%00/full/max/0/default.jpg", Expect::Refused),
        g("query", "/a/full/max/0/default.jpg?x=/info.json", Expect::Ok),
        g("absolute-form", "http://h/a/full/max/0/default.jpg", Expect::Ok),
        g("bare-info", "/info.json", Expect::Info),
        g("info-in-middle", "/a/full/max/0/info.json", Expect::Info),
        g("info-suffix", "/ainfo.json", Expect::Info),
        g("info-query", "/a/full/max/0/default.info?info.json", Expect::Bad("format")),
        r("head", "HEAD /a/full/max/0/default.jpg HTTP/1.1\r\nHost: h\r\n\r\n", Expect::NotFound, true, false),
        r("put-chunked", "PUT /x HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n", Expect::NotFound, false, false),
        r("get-with-body", "GET /a/full/max/0/default.jpg HTTP/1.1\r\nHost: h\r\nContent-Length: 4\r\n\r\nbody", Expect::Ok, false, false),
        r("delete", "DELETE /a/info.json HTTP/1.1\r\nHost: h\r\n\r\n", Expect::NotFound, false, false),
        r("options-star", "OPTIONS * HTTP/1.1\r\nHost: h\r\n\r\n", Expect::NotFound, false, false),
        r("odd-method", "BREW /a/full/max/0/default.jpg HTTP/1.1\r\nHost: h\r\n\r\n", Expect::NotFound, false, false),
        r("closing", "GET /a/full/max/0/default.jpg HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n", Expect::Ok, false, true),
        r("http10", "GET /a/full/max/0/default.jpg HTTP/1.0\r\n\r\n", Expect::Ok, false, true),
        r("garbage", "\x16\x03\x01 not http at all\r\n\r\n", Expect::Garbage, false, true),
        r("bad-version", "GET / HTTP/9.9\r\n\r\n", Expect::Garbage, false, true),
    ]
}

fn check_response(r: &Req, got: &Resp) -> Result<(), String> {
    let body = String::from_utf8_lossy(&got.body);
    let err = got.status / 100 == 4 || got.status / 100 == 5;
    let explained = r.head || !got.body.is_empty();
    let ok = match &r.expect {
        Expect::Ok => got.status == 200,
        Expect::Refused => err && explained,
        Expect::Bad(w) => got.status == 400 && body.contains(w),
        Expect::NotFound => got.status == 404 && explained,
        Expect::Garbage => err,
        Expect::Info => got.status == 200 || err && explained,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("request {} answered {} {:?}, expected {:?}", r.name, got.status, body, r.expect))
    }
}

/// All responses a pipeline must get when the client waits for them.
fn check_pipeline(reqs: &[Req], c: usize) -> Result<(), String> {
    let heads: Vec<bool> = reqs.iter().map(|r| r.head).collect();
    let out = sim::output(c);
    let (rs, used) = responses(&out, &heads, sim::closed(c))?;
    // what is not HTTP behind an unread body may take the connection down with it
    if reqs.iter().position(|r| r.body).is_some_and(|b| reqs[b..].iter().any(|r| r.expect == Expect::Garbage)) {
        return reqs.iter().zip(&rs).try_for_each(|(r, g)| check_response(r, g));
    }
    // (hyper gives up its own answer to what is not HTTP when it cannot write it at once)
    if used != out.len() && reqs.get(rs.len()).map(|r| &r.expect) != Some(&Expect::Garbage) {
        return Err(format!("{} bytes after {} complete responses", out.len() - used, rs.len()));
    }
    let mut want = reqs.len();
    if let Some(k) = reqs.iter().position(|r| r.close) {
        want = k + 1;
    }
    // a request whose body has not been read may end the connection after its response
    if rs.len() < want && !rs.is_empty() && reqs[rs.len() - 1].body && sim::closed(c) {
        want = rs.len();
    }
    if rs.len() != want && !(reqs[want - 1].expect == Expect::Garbage && rs.len() + 1 == want) {
        return Err(format!("{} responses to {want} requests", rs.len()));
    }
    for (r, g) in reqs.iter().zip(&rs) {
        check_response(r, g)?;
    }
    let last_closes = reqs[want - 1].close || reqs[want - 1].body && sim::closed(c);
    if last_closes && !sim::closed(c) {
        return Err("the connection stays open although it was to be closed".into());
    }
    if !last_closes && sim::closed(c) {
        return Err("the connection was closed although the client did not ask for it".into());
    }
    if let Some(l) = rs.last() {
        if !last_closes && l.close {
            return Err("the response announces a close the client did not ask for".into());
        }
    }
    Ok(())
}

fn names(reqs: &[Req]) -> String {
    reqs.iter().map(|r| r.name).collect::<Vec<_>>().join("+")
}

/// One pipeline under one delivery: input cut at `cuts`, each piece followed by a settle; output room
/// given as `first` bytes and then `refill` at a time.
fn deliver(cx: &Cx, reqs: &[Req], cuts: &[usize], first: usize, refill: usize) -> Result<(), String> {
    start_limited(4);
    settle(cx)?;
    let c = sim::connect(first);
    let all: Vec<u8> = reqs.iter().flat_map(|r| r.bytes.clone()).collect();
    let mut at = 0;
    for k in cuts.iter().copied().chain([all.len()]) {
        sim::send(c, &all[at..k]);
        at = k;
        settle(cx)?;
    }
    let mut n = 0;
    while sim::write_blocked(c) {
        n += 1;
        if n > 100000 {
            return Err("writes never finish".into());
        }
        sim::allow_write(c, refill);
        settle(cx)?;
    }
    cx.evaluations(1);
    check_pipeline(reqs, c).map_err(|e| format!("[{}] cut at {cuts:?}, write room {first} then {refill}: {e}", names(reqs)))?;
    cx.outcome(hash_bytes(&scrub(&sim::output(c))));
    cx.state(mix64(hash_bytes(names(reqs).as_bytes()) ^ mix64(cuts.iter().fold(first as u64 * 31 + refill as u64, |h, c| mix64(h ^ *c as u64)))));
    cx.traces(1);
    // the same connection ends cleanly
    sim::allow_write(c, usize::MAX);
    sim::eof(c);
    settle(cx)?;
    if !sim::dropped(c) {
        return Err(format!("[{}]: the connection is kept after both sides are done", names(reqs)));
    }
    // and the server goes on
    probe(cx)
}
/// Output without the date header's value.
fn scrub(o: &[u8]) -> Vec<u8> {
    let s = String::from_utf8_lossy(o);
    s.split("\r\n").filter(|l| !l.to_ascii_lowercase().starts_with("date:")).collect::<Vec<_>>().join("\n").into_bytes()
}
fn probe(cx: &Cx) -> Result<(), String> {
    let p = sim::connect(usize::MAX);
    sim::send(p, b"GET /a/full/max/0/default.jpg HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n");
    settle(cx)?;
    let (rs, _) = responses(&sim::output(p), &[], sim::closed(p))?;
    if rs.len() != 1 || rs[0].status != 200 {
        return Err(format!("a later client is not served: {rs:?}"));
    }
    Ok(())
}

/// One pipeline cut short by a disconnect after `k` input bytes.
fn disconnect(cx: &Cx, reqs: &[Req], k: usize, reset: bool, room: usize) -> Result<(), String> {
    start_limited(2);
    settle(cx)?;
    let c = sim::connect(room);
    let all: Vec<u8> = reqs.iter().flat_map(|r| r.bytes.clone()).collect();
    sim::send(c, &all[..k]);
    settle(cx)?;
    let before = sim::output(c);
    let before_closed = sim::closed(c);
    if reset {
        sim::reset_conn(c);
    } else {
        sim::eof(c);
    }
    settle(cx)?;
    if !reset {
        sim::allow_write(c, usize::MAX);
        settle(cx)?;
    }
    if !sim::dropped(c) {
        return Err(format!("[{}] {} after {k} bytes: the connection is never given up", names(reqs), if reset { "reset" } else { "end of input" }));
    }
    // what was complete before the disconnect, with room to write, has been answered
    let heads: Vec<bool> = reqs.iter().map(|r| r.head).collect();
    let (rs, _) = responses(&before, &heads, before_closed).map_err(|e| format!("[{}] cut at {k}: {e}", names(reqs)))?;
    let mut sum = 0;
    let mut complete = 0;
    for r in reqs {
        sum += r.bytes.len();
        if sum <= k {
            complete += 1;
            if r.close || r.body {
                break;
            }
        }
    }
    if room == usize::MAX && rs.len() < complete && !reqs[..complete].iter().any(|r| r.expect == Expect::Garbage) {
        return Err(format!("[{}] cut at {k}: {} of {complete} complete requests answered", names(reqs), rs.len()));
    }
    let after = responses(&sim::output(c), &heads, sim::closed(c)).map_err(|e| format!("[{}] cut at {k}: {e}", names(reqs)))?.0;
    for (r, g) in reqs.iter().zip(&after) {
        if let Err(e) = check_response(r, g) {
            // an incomplete request may be refused as such
            if g.status / 100 != 4 {
                return Err(format!("[{}] cut at {k}: {e}", names(reqs)));
            }
        }
    }
    if after.iter().filter(|g| g.status == 200).count() > reqs.iter().filter(|r| matches!(r.expect, Expect::Ok | Expect::Info)).count() {
        return Err(format!("[{}] cut at {k}: more successes than requests that may succeed", names(reqs)));
    }
    cx.evaluations(1);
    cx.traces(1);
    cx.outcome(hash_bytes(&scrub(&sim::output(c))));
    cx.state(mix64(hash_bytes(names(reqs).as_bytes()) ^ (k as u64 * 4 + reset as u64 * 2 + (room == 0) as u64) << 20));
    probe(cx).map_err(|e| format!("[{}] {} after {k} bytes: {e}", names(reqs), if reset { "reset" } else { "end of input" }))
}

fn pipelines(names_: &[&[&'static str]]) -> Vec<Vec<Req>> {
    let m = menu();
    names_.iter().map(|l| l.iter().map(|n| m.iter().find(|r| r.name == *n).unwrap().clone()).collect()).collect()
}

// HTTP/2 ---------------------------------------------------------------------------------------

fn frame(kind: u8, flags: u8, stream: u32, payload: &[u8]) -> Vec<u8> {
    let n = payload.len() as u32;
    let mut v = vec![(n >> 16) as u8, (n >> 8) as u8, n as u8, kind, flags];
    v.extend_from_slice(&stream.to_be_bytes());
    v.extend_from_slice(payload);
    v
}
fn h2_headers(method: &str, path: &str) -> Vec<u8> {
    let mut v = vec![];
    for (n, x) in [(":method", method), (":scheme", "http"), (":path", path), (":authority", "h")] {
        v.push(0x00); // literal, not indexed, new name, no Huffman
        v.push(n.len() as u8);
        v.extend_from_slice(n.as_bytes());
        v.push(x.len() as u8);
        v.extend_from_slice(x.as_bytes());
    }
    v
}
#[derive(Debug, Default, Clone, PartialEq)]
struct H2 {
    headers: u32,
    ok: bool,
    data: Vec<u8>,
    end: bool,
}
fn h2_parse(out: &[u8]) -> Result<std::collections::BTreeMap<u32, H2>, String> {
    let mut m: std::collections::BTreeMap<u32, H2> = Default::default();
    let mut i = 0;
    while i + 9 <= out.len() {
        let n = (out[i] as usize) << 16 | (out[i + 1] as usize) << 8 | out[i + 2] as usize;
        if i + 9 + n > out.len() {
            return Err("incomplete HTTP/2 frame".into());
        }
        let (k, f) = (out[i + 3], out[i + 4]);
        let s = u32::from_be_bytes(out[i + 5..i + 9].try_into().unwrap());
        let p = &out[i + 9..i + 9 + n];
        match k {
            0 | 1 => {
                let e = m.entry(s).or_default();
                if e.end {
                    return Err(format!("frame after the end of stream {s}"));
                }
                if k == 1 {
                    e.headers += 1;
                    e.ok = p.first() == Some(&0x88); // :status 200 from the static table
                } else {
                    if e.headers == 0 {
                        return Err("data before headers".into());
                    }
                    e.data.extend_from_slice(p);
                }
                e.end = f & 1 != 0;
            }
            3 => return Err(format!("stream {s} was reset: {p:?}")),
            7 if p.len() >= 8 && p[4..8] != [0, 0, 0, 0] => return Err(format!("GOAWAY {:?}", &p[4..8])),
            _ => {}
        }
        i += 9 + n;
    }
    if i != out.len() {
        return Err("incomplete HTTP/2 frame header".into());
    }
    Ok(m)
}
const H2_TARGETS: [(&str, &str, bool, &str); 6] = [
    ("GET", "/a/full/max/0/default.jpg", true, "OK"),
    ("GET", "/zzz/full/max/0/default.jpg", false, ""),
    ("GET", "/a/x/max/0/default.jpg", false, "Region"),
    ("GET", "/a/info.json", false, ""),
    ("POST", "/a/full/max/0/default.jpg", false, ""),
    ("GET", "/..%2Fa/full/max/0/default.jpg", false, ""),
];
fn h2_run(cx: &Cx, picks: &[usize], cut: Option<usize>, first: usize, refill: usize, lifo_opens: bool) -> Result<(), String> {
    start_limited(4);
    settle(cx)?;
    let c = sim::connect(first);
    let mut all = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n".to_vec();
    all.extend(frame(4, 0, 0, &[]));
    for (k, p) in picks.iter().enumerate() {
        let t = H2_TARGETS[*p];
        all.extend(frame(1, 0x5, 1 + 2 * k as u32, &h2_headers(t.0, t.1)));
    }
    let cut = cut.map(|c| c.min(all.len()));
    if let Some(k) = cut {
        sim::send(c, &all[..k]);
        settle(cx)?;
        sim::send(c, &all[k..]);
    } else {
        sim::send(c, &all);
    }
    if lifo_opens {
        // run the tasks, then let the opens complete in the opposite order
        let mut n = 0;
        loop {
            n += 1;
            if n > 5000 {
                return Err("no progress".into());
            }
            if let Some(t) = sim::ready().first() {
                step_task(*t)?;
            } else if let Some(o) = sim::pending_opens().last() {
                sim::complete_open(*o);
            } else {
                break;
            }
        }
    }
    settle(cx)?;
    let mut n = 0;
    while sim::write_blocked(c) {
        n += 1;
        if n > 100000 {
            return Err("writes never finish".into());
        }
        sim::allow_write(c, refill);
        settle(cx)?;
    }
    let desc = || format!("HTTP/2 {picks:?} cut {cut:?} room {first}/{refill}");
    let m = h2_parse(&sim::output(c)).map_err(|e| format!("{}: {e}", desc()))?;
    for (k, p) in picks.iter().enumerate() {
        let t = H2_TARGETS[*p];
        let s = m.get(&(1 + 2 * k as u32)).ok_or_else(|| format!("{}: no response on stream {}", desc(), 1 + 2 * k))?;
        let body = String::from_utf8_lossy(&s.data);
        let ok_allowed = t.2 || t.1.ends_with("info.json");
        if s.headers != 1 || !s.end || (s.ok != t.2 && !(s.ok && ok_allowed)) || !body.contains(t.3) || s.data.is_empty() {
            return Err(format!("{}: stream {}: {s:?} for {t:?}", desc(), 1 + 2 * k));
        }
    }
    if m.len() != picks.len() {
        return Err(format!("{}: responses on streams {:?}", desc(), m.keys()));
    }
    cx.evaluations(1);
    cx.traces(1);
    cx.outcome(hash_bytes(format!("{m:?}").as_bytes()));
    cx.state(mix64(picks.iter().fold(cut.unwrap_or(0) as u64 * 977 + first as u64 * 31 + refill as u64, |h, p| mix64(h ^ *p as u64 ^ 0x55))));
    sim::allow_write(c, usize::MAX);
    sim::eof(c);
    settle(cx)?;
    if !sim::dropped(c) {
        return Err(format!("{}: the connection is kept after the client is gone", desc()));
    }
    probe(cx)
}

/// Routing: `method target` answered alone on a connection, against the path grammar.
fn route(cx: &Cx, method: &str, target: &str) -> Result<(), String> {
    start_limited(4);
    settle(cx)?;
    let c = sim::connect(usize::MAX);
    sim::send(c, format!("{method} {target} HTTP/1.1\r\nHost: h\r\n\r\n").as_bytes());
    settle(cx).map_err(|e| format!("{method} {target}: {e}"))?;
    let out = sim::output(c);
    let (rs, used) = responses(&out, &[method == "HEAD"], sim::closed(c)).map_err(|e| format!("{method} {target}: {e}"))?;
    if rs.len() != 1 || used != out.len() {
        return Err(format!("{method} {target}: {} responses", rs.len()));
    }
    cx.evaluations(1);
    let r = &rs[0];
    cx.outcome(hash_bytes(format!("{} {:?}", r.status, r.body).as_bytes()));
    let fail = |w: &str| Err(format!("{method} {target}: answered {} {:?}, expected {w}", r.status, String::from_utf8_lossy(&r.body)));
    let err = r.status / 100 == 4 || r.status / 100 == 5;
    if err && r.body.is_empty() && method != "HEAD" {
        return fail("an explanation");
    }
    if method != "GET" {
        return if r.status == 404 { Ok(()) } else { fail("404") };
    }
    let path = target.split(['?', '#']).next().unwrap();
    if path.split('/').count() > 6 {
        return if r.status == 200 || err { Ok(()) } else { fail("some answer") };
    }
    match expected(path) {
        Ok(req) => match contained(req.identifier().as_bytes()) {
            Some(p) if is_file(&Path::new(ROOT).join(&p)) && !req.identifier().ends_with('/') => {
                if r.status != 200 {
                    return fail("200: the image exists");
                }
            }
            _ if !err => return fail("an error: there is no such image"),
            _ => {}
        },
        // an image information request may be answered with the document
        Err(_) if path.ends_with("info.json") => {
            if r.status != 200 && !err {
                return fail("a document or an error");
            }
        }
        Err(_) if !err => return fail("an error: this is no image request"),
        Err(_) => {}
    }
    Ok(())
}

pub fn c06(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let m = menu();
    let nm = m.len();
    let mut c = Check::new("C06", "model_checking")
        .assume("hyper, hyper-util and h2 are part of the system under test; glommio is replaced by a stand-in with the same interface whose sockets, opens and scheduling the checker drives.")
        .assume("A client that stops sending before its response is complete may get a shorter answer or none.");
    // routing
    let methods = ["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "get", "GETS"];
    let menus: [&[&str]; 6] = [
        &["a", "info.json", "info.json.jp2", "xinfo.json", "zzz", "", "full", "%69nfo.json", "a%2Fb", "..%2Fa"],
        &["full", "info.json", "pct:1,1,1,1", "1,1,0,1", ""],
        &["max", "info.json", "^pct:200", "0,", ""],
        &["0", "info.json", "!90.5", "361", ""],
        &["default.jpg", "info.json", "gray.webp", "default", "default.info.json", "x.jpg", ""],
        &["", "/", "/info.json", "?info.json", "?", "/x/y", "?a/info.json"],
    ];
    let mut targets: Vec<String> = vec![];
    for n in 0..=5 {
        let radices: Vec<usize> = menus[..n].iter().map(|m| m.len()).chain([menus[5].len()]).collect();
        for k in 0..mck::product(&radices) {
            let d = mck::mixed(k, &radices);
            let mut t = String::new();
            for (j, m) in menus[..n].iter().enumerate() {
                t.push('/');
                t.push_str(m[d[j]]);
            }
            t.push_str(menus[5][d[n]]);
            if t.starts_with('/') {
                targets.push(t);
            }
        }
    }
    let (nt, per) = (targets.len(), 16);
    c.spaces.push(space("routes", &format!("{} targets of up to five segments, each from a menu with information documents, images and errors in every position, with seven endings; GET and (one target in {}) nine other methods", nt, if q { 16 } else { 1 }), nt.div_ceil(per) as u64, |i| format!("block {i}"), move |i, cx: &mut Cx| {
        for (k, t) in targets.iter().enumerate().skip(i as usize * per).take(per) {
            cx.tick();
            for m in methods.iter().take(if q && k % 16 != 0 { 1 } else { methods.len() }) {
                route(cx, m, t)?;
            }
        }
        Ok(())
    }));
    // every single request: every cut into two
    let m1 = m.clone();
    c.spaces.push(space("single-all-cuts", "each of the 34 requests, its bytes cut into two reads at every position, unlimited room to write; and delivered byte by byte", nm as u64, {
        let m = m1.clone();
        move |i| m[i as usize].name.to_string()
    }, move |i, cx: &mut Cx| {
        let r = [m1[i as usize].clone()];
        let n = r[0].bytes.len();
        for k in 0..=n {
            cx.tick();
            deliver(cx, &r, &[k], usize::MAX, 1)?;
        }
        deliver(cx, &r, &(1..n).collect::<Vec<_>>(), usize::MAX, 1)
    }));
    // every single request: three pieces
    let m1 = m.clone();
    let step = if q { 3 } else { 1 };
    c.spaces.push(space(&format!("single-cut-in-three-every-{step}"), "each request cut into three reads (first cut at every position that is a multiple of the step, second at every later one)", nm as u64 * 8, {
        let m = m1.clone();
        move |i| format!("{} part {}", m[(i / 8) as usize].name, i % 8)
    }, move |i, cx: &mut Cx| {
        let r = [m1[(i / 8) as usize].clone()];
        let n = r[0].bytes.len();
        for a in (0..=n).filter(|a| a % step == 0 && (a / step) as u64 % 8 == i % 8) {
            cx.tick();
            for b in a..=n {
                deliver(cx, &r, &[a, b], usize::MAX, 1)?;
            }
        }
        Ok(())
    }));
    // write room
    let m1 = m.clone();
    c.spaces.push(space("single-partial-writes", "each request, room to write first k bytes for every k up to the response's length, then 1, 7 or all bytes at a time", nm as u64, {
        let m = m1.clone();
        move |i| m[i as usize].name.to_string()
    }, move |i, cx: &mut Cx| {
        let r = [m1[i as usize].clone()];
        for k in 0..260 {
            cx.tick();
            for refill in [1, 7, 1 << 20] {
                if refill == 1 && k % 16 != 0 {
                    continue;
                }
                deliver(cx, &r, &[], k, refill)?;
            }
        }
        Ok(())
    }));
    // pipelines of two and three
    let m1 = m.clone();
    c.spaces.push(space("pairs", "every ordered pair of requests, pipelined in one read, in two reads cut at every 5th byte and around the boundary, and with room to write in steps of 64", (nm * nm) as u64, {
        let m = m1.clone();
        move |i| format!("{}+{}", m[i as usize / nm].name, m[i as usize % nm].name)
    }, move |i, cx: &mut Cx| {
        let r = [m1[i as usize / nm].clone(), m1[i as usize % nm].clone()];
        let (b, n) = (r[0].bytes.len(), r[0].bytes.len() + r[1].bytes.len());
        deliver(cx, &r, &[], usize::MAX, 1)?;
        deliver(cx, &r, &[], 0, 64)?;
        let st = if tier == Tier::Quick { 5 } else { 1 };
        for k in (0..=n).filter(|k| k % st == 0 || k.abs_diff(b) <= 2) {
            deliver(cx, &r, &[k], usize::MAX, 1)?;
        }
        Ok(())
    }));
    let m1 = m.clone();
    let k3 = if q { 12 } else { nm };
    c.spaces.push(space("triples", &format!("every ordered triple of {k3} requests, pipelined, with unlimited room and in steps of 50"), (k3 * k3 * k3) as u64, {
        let m = m1.clone();
        move |i| {
            let d = mck::mixed(i, &[k3, k3, k3]);
            format!("{}+{}+{}", m[d[0]].name, m[d[1]].name, m[d[2]].name)
        }
    }, move |i, cx: &mut Cx| {
        let d = mck::mixed(i, &[k3, k3, k3]);
        let r = [m1[d[0]].clone(), m1[d[1]].clone(), m1[d[2]].clone()];
        deliver(cx, &r, &[], usize::MAX, 1)?;
        deliver(cx, &r, &[], 10, 50)
    }));
    // disconnects
    let m1 = m.clone();
    c.spaces.push(space("disconnect-single", "each request, the client's input ending or the connection being reset after every byte, with and without room to write", nm as u64, {
        let m = m1.clone();
        move |i| m[i as usize].name.to_string()
    }, move |i, cx: &mut Cx| {
        let r = [m1[i as usize].clone()];
        for k in 0..=r[0].bytes.len() {
            cx.tick();
            for reset in [false, true] {
                for room in [usize::MAX, 0, 20] {
                    disconnect(cx, &r, k, reset, room)?;
                }
            }
        }
        Ok(())
    }));
    let ps = pipelines(&[&["image", "image"], &["image", "bad-region"], &["post", "image"], &["put-chunked", "missing-image"], &["missing-image", "image", "image"], &["image", "garbage"]]);
    c.spaces.push(space("disconnect-pipelines", "six pipelines, input ending or reset after every byte", ps.len() as u64, {
        let ps = ps.clone();
        move |i| names(&ps[i as usize])
    }, move |i, cx: &mut Cx| {
        let r = &ps[i as usize];
        let n: usize = r.iter().map(|r| r.bytes.len()).sum();
        for k in 0..=n {
            cx.tick();
            for reset in [false, true] {
                for room in [usize::MAX, 0] {
                    disconnect(cx, r, k, reset, room)?;
                }
            }
        }
        Ok(())
    }));
    // schedules: two connections, each pipelining, opens and task steps in every order
    let pairs: Vec<[Vec<Req>; 2]> = {
        let mut v = vec![];
        for a in [["image", "image"], ["image", "bad-region"], ["missing-image", "image"], ["info", "image"]] {
            for b in [["image", "missing-image"], ["bad-size", "image"], ["image", "closing"]] {
                v.push([pipelines(&[&a])[0].clone(), pipelines(&[&b])[0].clone()]);
            }
        }
        v
    };
    let delay = if q { 1 } else { 2 };
    c.spaces.push(space("schedules", &format!("12 pairs of pipelines on two connections; all orders of arrivals, deliveries, open completions and write room, with at most {delay} departures from the executor's first-come order"), pairs.len() as u64, {
        let p = pairs.clone();
        move |i| format!("{} | {}", names(&p[i as usize][0]), names(&p[i as usize][1]))
    }, move |i, cx: &mut Cx| {
        let p = &pairs[i as usize];
        let clients: Vec<Client> = p
            .iter()
            .map(|r| {
                let all: Vec<u8> = r.iter().flat_map(|r| r.bytes.clone()).collect();
                let h = all.len() / 2;
                Client { reqs: r.clone(), events: vec![Ev::Connect(40), Ev::Send(all[..h].to_vec()), Ev::Send(all[h..].to_vec()), Ev::Room], ends: false }
            })
            .collect();
        explore(cx, &Scene { max: 2, clients, accept_errors: vec![], broken_addr: vec![], delay, cap: 2_000_000 })
    }));
    // HTTP/2
    c.spaces.push(space("http2-single", "each of 6 requests over HTTP/2: cut at every byte of the connection's input; room to write first k bytes for every k below 200", 6, |i| format!("{:?}", H2_TARGETS[i as usize]), |i, cx: &mut Cx| {
        for k in 0..140 {
            cx.tick();
            h2_run(cx, &[i as usize], Some(k), usize::MAX, 1, false)?;
        }
        for k in 0..200 {
            cx.tick();
            h2_run(cx, &[i as usize], None, k, 1 << 20, false)?;
            h2_run(cx, &[i as usize], None, k, 9, false)?;
        }
        Ok(())
    }));
    c.spaces.push(space("http2-multiplexed", "every triple of 6 requests as concurrent streams, opens completing first-to-last and last-to-first", 216, |i| format!("{:?}", mck::mixed(i, &[6, 6, 6])), |i, cx: &mut Cx| {
        let p = mck::mixed(i, &[6, 6, 6]);
        for lifo in [false, true] {
            h2_run(cx, &p, None, usize::MAX, 1, lifo)?;
            h2_run(cx, &p, None, 30, 33, lifo)?;
            h2_run(cx, &p, Some(90), usize::MAX, 1, lifo)?;
        }
        Ok(())
    }));
    c
}

// ------------------------------------------------------------------------- schedule exploration

#[derive(Clone, Debug)]
enum Ev {
    /// Arrives, with room for this many response bytes.
    Connect(usize),
    Send(Vec<u8>),
    /// The client reads everything from now on.
    Room,
    Eof,
    Close,
    Reset,
}
#[derive(Clone, Debug)]
struct Client {
    reqs: Vec<Req>,
    events: Vec<Ev>,
    /// The client ends the connection itself at some point of its script.
    ends: bool,
}
struct Scene {
    max: usize,
    clients: Vec<Client>,
    accept_errors: Vec<i32>,
    broken_addr: Vec<usize>,
    delay: u32,
    cap: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Task(usize),
    Client(usize),
    AcceptErr,
    Open(usize),
    Timer,
}

/// Executes every schedule of a scene (stateless depth-first search with replay).
fn explore(cx: &Cx, sc: &Scene) -> Result<(), String> {
    let mut prefix: Vec<usize> = vec![];
    let mut runs = 0u64;
    loop {
        cx.tick();
        let mut taken: Vec<(usize, usize, u32)> = vec![]; // (choice, alternatives allowed, cost before)
        run_once(cx, sc, &prefix, &mut taken).map_err(|e| format!("schedule {:?}: {e}", taken.iter().map(|t| t.0).collect::<Vec<_>>()))?;
        runs += 1;
        cx.evaluations(1);
        cx.traces(1);
        if runs >= sc.cap {
            return Err(format!("more than {} schedules: the scene is too large", sc.cap));
        }
        // next: the deepest choice point with an untried alternative
        loop {
            match taken.pop() {
                None => return Ok(()),
                Some((c, n, _)) => {
                    if c + 1 < n {
                        prefix = taken.iter().map(|t| t.0).collect();
                        prefix.push(c + 1);
                        break;
                    }
                }
            }
        }
    }
}

fn run_once(cx: &Cx, sc: &Scene, prefix: &[usize], taken: &mut Vec<(usize, usize, u32)>) -> Result<(), String> {
    start_limited(sc.max);
    settle(cx)?; // up to the first accept
    let n = sc.clients.len();
    let mut ids: Vec<Option<usize>> = vec![None; n];
    let mut pos = vec![0usize; n];
    let mut errs = 0;
    let mut cost = 0;
    let mut timers = 0;
    let mut trace: Vec<Act> = vec![];
    let fail = |e: String, trace: &[Act]| format!("{e} (after {trace:?})");
    loop {
        let ready = sim::ready();
        let mut acts: Vec<(Act, u32)> = vec![];
        for (k, t) in ready.iter().enumerate() {
            acts.push((Act::Task(*t), if k == 0 { 0 } else { 1 }));
        }
        let e = if ready.is_empty() { 0 } else { 1 };
        for o in sim::pending_opens() {
            acts.push((Act::Open(o), e));
        }
        for i in 0..n {
            if pos[i] < sc.clients[i].events.len() {
                acts.push((Act::Client(i), e));
            }
        }
        if errs < sc.accept_errors.len() {
            acts.push((Act::AcceptErr, e));
        }
        if sim::pending_timers() > 0 && timers < 50 {
            acts.push((Act::Timer, e));
        }
        acts.retain(|a| cost + a.1 <= sc.delay);
        if acts.is_empty() {
            break;
        }
        let k = taken.len();
        let c = prefix.get(k).copied().unwrap_or(0);
        taken.push((c, acts.len(), cost));
        let (a, dc) = acts[c];
        cost += dc;
        trace.push(a);
        cx.transitions(1);
        match a {
            Act::Task(t) => step_task(t).map_err(|e| fail(e, &trace))?,
            Act::Open(o) => sim::complete_open(o),
            Act::Timer => {
                timers += 1;
                sim::fire_timer()
            }
            Act::AcceptErr => {
                sim::accept_error(sc.accept_errors[errs]);
                errs += 1;
            }
            Act::Client(i) => {
                let ev = sc.clients[i].events[pos[i]].clone();
                pos[i] += 1;
                match ev {
                    Ev::Connect(room) => {
                        let id = sim::connect(room);
                        if sc.broken_addr.contains(&i) {
                            sim::break_addr(id);
                        }
                        ids[i] = Some(id);
                    }
                    Ev::Send(b) => sim::send(ids[i].unwrap(), &b),
                    Ev::Room => sim::allow_write(ids[i].unwrap(), usize::MAX / 2),
                    Ev::Eof => sim::eof(ids[i].unwrap()),
                    Ev::Close => sim::close(ids[i].unwrap()),
                    Ev::Reset => sim::reset_conn(ids[i].unwrap()),
                }
            }
        }
        let serving = sim::being_served();
        if serving > sc.max {
            return Err(fail(format!("{serving} connections are being served although the limit is {}", sc.max), &trace));
        }
        // the state as far as it can be told from outside
        let mut h = cost as u64;
        for i in 0..n {
            h = mix64(h ^ pos[i] as u64);
            if let Some(c) = ids[i] {
                h = mix64(h ^ sim::output_len(c) as u64 ^ (sim::unread(c) as u64) << 20 ^ (sim::closed(c) as u64) << 40 ^ (sim::dropped(c) as u64) << 41 ^ (sim::accepted(c) as u64) << 42);
            }
        }
        for t in sim::ready() {
            h = mix64(h ^ t as u64 ^ 77);
        }
        for o in sim::pending_opens() {
            h = mix64(h ^ o as u64 ^ 99);
        }
        cx.state(h ^ errs as u64);
    }
    // quiescent
    let mut sig = vec![];
    for i in 0..n {
        let cl = &sc.clients[i];
        let id = ids[i].unwrap();
        let broken = sc.broken_addr.contains(&i);
        if cl.ends {
            if !sim::dropped(id) {
                return Err(fail(format!("client {i} is gone, its connection is still held"), &trace));
            }
        } else if broken && sim::dropped(id) && sim::output_len(id) == 0 {
            // a connection whose peer is already gone may be given up
        } else {
            check_pipeline(&cl.reqs, id).map_err(|e| fail(format!("client {i}: {e}"), &trace))?;
        }
        sig.extend(scrub(&sim::output(id)));
        sig.push(0xff);
    }
    cx.outcome(hash_bytes(&sig));
    // slots have come back: end what is left open, then as many clients as the limit are served together
    for i in 0..n {
        sim::close(ids[i].unwrap());
    }
    settle(cx).map_err(|e| fail(e, &trace))?;
    let probes: Vec<usize> = (0..sc.max)
        .map(|_| {
            let p = sim::connect(usize::MAX);
            sim::send(p, b"GET /a/full/max/0/default.jpg HTTP/1.1\r\nHost: h\r\n\r\n");
            p
        })
        .collect();
    settle(cx).map_err(|e| fail(e, &trace))?;
    for p in probes {
        let (rs, _) = responses(&sim::output(p), &[], sim::closed(p))?;
        if rs.len() != 1 || rs[0].status != 200 {
            return Err(fail(format!("after all clients left, {} new clients are not all served at once: {rs:?}", sc.max), &trace));
        }
    }
    if sim::being_served() > sc.max {
        return Err(fail("limit exceeded by later clients".into(), &trace));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C07

const KINDS: [&str; 9] = ["closing", "keepalive-then-eof", "reset-mid-request", "garbage", "silent-eof", "silent-reset", "pair-then-close", "panic-prone-then-eof", "idle"];

fn client(kind: usize) -> Client {
    let p = |n: &[&'static str]| pipelines(&[n])[0].clone();
    let bytes = |r: &[Req]| r.iter().flat_map(|r| r.bytes.clone()).collect::<Vec<u8>>();
    match kind {
        0 => {
            let r = p(&["closing"]);
            Client { events: vec![Ev::Connect(usize::MAX), Ev::Send(bytes(&r))], reqs: r, ends: false }
        }
        1 => {
            let r = p(&["image"]);
            Client { events: vec![Ev::Connect(usize::MAX), Ev::Send(bytes(&r)), Ev::Eof], reqs: r, ends: true }
        }
        2 => {
            let r = p(&["image"]);
            Client { events: vec![Ev::Connect(0), Ev::Send(bytes(&r)[..20].to_vec()), Ev::Reset], reqs: r, ends: true }
        }
        3 => {
            let r = p(&["garbage"]);
            Client { events: vec![Ev::Connect(usize::MAX), Ev::Send(bytes(&r))], reqs: r, ends: false }
        }
        4 => Client { events: vec![Ev::Connect(usize::MAX), Ev::Eof], reqs: vec![], ends: true },
        5 => Client { events: vec![Ev::Connect(usize::MAX), Ev::Reset], reqs: vec![], ends: true },
        6 => {
            let r = p(&["missing-image", "image"]);
            Client { events: vec![Ev::Connect(30), Ev::Send(bytes(&r)), Ev::Close], reqs: r, ends: true }
        }
        7 => {
            let r = p(&["info", "escaping", "nul"]);
            Client { events: vec![Ev::Connect(usize::MAX), Ev::Send(bytes(&r)), Ev::Eof], reqs: r, ends: true }
        }
        _ => {
            let r = p(&["image"]);
            Client { events: vec![Ev::Connect(5), Ev::Send(bytes(&r)), Ev::Reset], reqs: r, ends: true }
        }
    }
}

pub fn c07(tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let nk = KINDS.len();
    let mut c = Check::new("C07", "model_checking")
        .assume("hyper, hyper-util and h2 are part of the system under test; glommio is replaced by a stand-in with the same interface whose sockets, opens and scheduling the checker drives.")
        .assume("A connection counts as being served from the first time the server asks for its bytes until it gives the socket up.");
    let d2 = if q { 1 } else { 2 };
    for max in [1usize, 2] {
        c.spaces.push(space(&format!("two-clients-limit-{max}"), &format!("every pair of the client behaviours {KINDS:?}, limit {max}: all orders of their events and of open completions, with at most {d2} departures from the executor's first-come order of tasks"), (nk * nk) as u64, move |i| format!("{} | {}", KINDS[i as usize / nk], KINDS[i as usize % nk]), move |i, cx: &mut Cx| {
            explore(cx, &Scene { max, clients: vec![client(i as usize / nk), client(i as usize % nk)], accept_errors: vec![], broken_addr: vec![], delay: d2, cap: 20_000_000 })
        }));
    }
    for max in [1usize, 2] {
        let d = if q { 0 } else { 1 };
        c.spaces.push(space(&format!("three-clients-limit-{max}"), &format!("every multiset of three client behaviours, limit {max}: all orders of their events and of open completions, at most {d} departures from first-come task order"), (nk * nk * nk) as u64, move |i| {
            let d = mck::mixed(i, &[nk, nk, nk]);
            format!("{} | {} | {}", KINDS[d[0]], KINDS[d[1]], KINDS[d[2]])
        }, move |i, cx: &mut Cx| {
            let k = mck::mixed(i, &[nk, nk, nk]);
            if !(k[0] <= k[1] && k[1] <= k[2]) {
                return Ok(()); // the order within a set is covered by the event orders
            }
            explore(cx, &Scene { max, clients: k.iter().map(|k| client(*k)).collect(), accept_errors: vec![], broken_addr: vec![], delay: d, cap: 20_000_000 })
        }));
    }
    c.spaces.push(space("accept-failures", "one or two clients of each behaviour, with accept failing (ECONNABORTED, EMFILE, ENFILE, ENOBUFS, EPROTO, EINTR) once or twice at every point, all orders", (nk * 6 * 2) as u64, move |i| format!("{i}"), move |i, cx: &mut Cx| {
        let d = mck::mixed(i, &[nk, 6, 2]);
        let e = [103, 24, 23, 105, 71, 4][d[1]];
        let errs = vec![e; d[2] + 1];
        explore(cx, &Scene { max: 1, clients: vec![client(d[0])], accept_errors: errs.clone(), broken_addr: vec![], delay: 1, cap: 20_000_000 })?;
        if d[2] == 0 {
            explore(cx, &Scene { max: 1, clients: vec![client(d[0]), client(0)], accept_errors: errs, broken_addr: vec![], delay: 0, cap: 20_000_000 })?;
        }
        Ok(())
    }));
    c.spaces.push(space("peer-gone-at-accept", "a client that is already gone when accepted (its socket's addresses cannot be asked for), next to one client of each behaviour, all orders", (nk * 2) as u64, move |i| format!("{} limit {}", KINDS[i as usize % nk], 1 + i as usize / nk), move |i, cx: &mut Cx| {
        for gone in [4, 5, 1] {
            explore(cx, &Scene { max: 1 + i as usize / nk, clients: vec![client(gone), client(i as usize % nk)], accept_errors: vec![], broken_addr: vec![0], delay: 1, cap: 20_000_000 })?;
        }
        Ok(())
    }));
    // the deployed limit, in one long history per ending
    c.spaces.push(space("deployed-limit", "the deployed entry point: connections arriving until none is admitted any more, then leaving one by one in three orders and three ways; every waiting client is served as slots come back", 9, |i| format!("{i}"), |i, cx: &mut Cx| {
        start(ROOT);
        settle(cx)?;
        let sem: u64 = sim::semaphores().iter().copied().max().unwrap_or(1024);
        let total = (sem as usize + 40).min(6000);
        let req = b"GET /a/full/max/0/default.jpg HTTP/1.1\r\nHost: h\r\n\r\n";
        let mut cs = vec![];
        for _ in 0..total {
            let c = sim::connect(usize::MAX);
            sim::send(c, req);
            cs.push(c);
            settle(cx)?;
            cx.tick();
        }
        let served = |cs: &[usize]| cs.iter().filter(|c| sim::output_len(**c) > 0).count();
        let limit = served(&cs);
        if limit != 1024 {
            return Err(format!("{limit} connections are served at once, the configured maximum is 1024"));
        }
        if sim::being_served() > limit {
            return Err("more connections are being read than served".into());
        }
        let mut order: Vec<usize> = (0..limit).collect();
        match i % 3 {
            0 => {}
            1 => order.reverse(),
            _ => order.sort_by_key(|x| (x * 7919) % 1021),
        }
        for (n, k) in order.iter().take(total - limit).enumerate() {
            match i / 3 {
                0 => sim::eof(cs[*k]),
                1 => sim::reset_conn(cs[*k]),
                _ => sim::send(cs[*k], b"GET /a/full/max/0/default.jpg HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n"),
            }
            settle(cx)?;
            cx.tick();
            if sim::being_served() > limit {
                return Err("limit exceeded".into());
            }
            if served(&cs) != limit + n + 1 {
                return Err(format!("after {} connections ended, {} instead of {} clients have been served", n + 1, served(&cs), limit + n + 1));
            }
        }
        cx.evaluations(1);
        cx.traces(1);
        cx.outcome(1000 + i);
        Ok(())
    }));
    c
}
