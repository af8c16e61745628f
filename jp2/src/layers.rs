//! C17: quality layers.

use crate::conf;
use crate::driver::*;
use crate::lay;
use crate::refj2k;
use crate::views::*;
use mck::*;

/// Every number of layers of one codestream, whole, reduced and in a window.
fn first_layers(v: &[usize; 26], cx: &mut Cx) -> Result<(), String> {
    let Some(k) = code(v, 0, cx)? else { return Ok(()) };
    let n = k.tiles.iter().map(|t| t.2.layers).max().unwrap();
    let a = k.siz.area();
    for l in (1..=n + 1).chain([65535]) {
        let part = Code::parse(k.bytes.clone(), l).map_err(|e| format!("generator: {e}"))?;
        for reduce in 0..=k.declared_levels().min(1) {
            let o = part.image(reduce, true)?;
            if nothing(&k, &o, a, reduce) {
                continue;
            }
            cx.evaluations(1);
            let what = format!("{l} of {n} layers at reduction {reduce}");
            let i = decode(&k.bytes, &Dec { layers: l, reduce, ..Dec::default() }).map_err(|e| format!("{what}: {e}"))?;
            // what is shifted for a region of interest loses the half bit of the middle of an interval
            let slack = if v[11] > 0 { 0.5 } else { 0. };
            for (c, (a, b)) in i.comps.iter().zip(&o).enumerate() {
                lay::agree_within(c, a, &k.siz.comps[c], b, reduce, slack).map_err(|e| format!("{what}: {e}"))?;
            }
            cx.outcome(i.comps.iter().filter_map(|c| c.data.as_ref()).fold(0, |h, d| mix64(h ^ hash_i32(d))));
            let w = refj2k::Rect { x0: a.x0 + 1, y0: a.y0, x1: a.x1 - 1, y1: (a.y0 + a.y1 + 1) / 2 };
            if w.x0 < w.x1 && w.y0 < w.y1 && !nothing(&k, &o, w, reduce) && slack == 0. {
                let area = Some((w.x0 as i32, w.y0 as i32, w.x1 as i32, w.y1 as i32));
                let i = decode(&k.bytes, &Dec { layers: l, reduce, area, ..Dec::default() }).map_err(|e| format!("{what}, window {w:?}: {e}"))?;
                whole(&i, &k.siz, &o, w, reduce).map_err(|e| format!("{what}, window {w:?}: {e}"))?;
            }
        }
    }
    Ok(())
}

const RATES: &[&[f32]] = &[&[4.], &[20.], &[1.5], &[10., 3.], &[16., 8., 4., 0.], &[8., 2., 1.], &[30., 25., 6., 2., 0.], &[2., 0.]];
const PSNRS: &[&[f32]] = &[&[30.], &[25., 35.], &[20., 30., 40., 0.], &[40., 0.]];
/// A smooth picture with some texture.
fn picture(c: usize, x: u32, y: u32, lo: i64, hi: i64) -> i64 {
    let (x, y) = (x as f64, y as f64);
    let s = (x / 9.).sin() * (y / 13. + c as f64).cos() * 0.35 + (x * y / 900.).sin() * 0.1 + if (x - 20.).hypot(y - 17.) < 11. { 0.2 } else { 0. };
    let h = (mix64(x as u64 * 77 + y as u64 * 7919 + c as u64) % 97) as f64 / 97. * 0.06;
    lo + ((s + h + 0.45) * (hi - lo) as f64) as i64
}
const RAD: [usize; 8] = [RATES.len() + PSNRS.len(), 4, 4, 5, 3, 4, 2, 3];
/// Encoder's choices: budgets, picture, tiles, progression, precincts, style, transform, extras.
fn allocate(i: u64, cx: &mut Cx) -> Result<(), String> {
    let d = mixed(i, &RAD);
    let by_rate = d[0] < RATES.len();
    let targets = if by_rate { RATES[d[0]] } else { PSNRS[d[0] - RATES.len()] };
    let nc = [1, 3, 1, 3][d[1]];
    let prec = [8, 8, 12, 8][d[1]];
    let area = if d[2] == 3 { (5, 3, 101, 75) } else { (0, 0, 96, 72) };
    let img = Img::new(area, &vec![(1, 1, prec, false); nc]).fill(|c, x, y, lo, hi| if d[1] == 3 { conf::pattern(0, c, x, y, lo, hi) } else { picture(c, x, y, lo, hi) });
    let e = Enc {
        tile: [None, Some((48, 72)), Some((64, 48)), Some((101, 75))][d[2]],
        res: 4,
        cb: (16, 16),
        prog: d[3] as i32,
        prec: [vec![], vec![(32, 32)], vec![(64, 32), (32, 32)]][d[4]].clone(),
        mode: [0, 1, 4, 2][d[5]],
        irreversible: d[6] == 1,
        mct: if nc == 3 { 1 } else { 0 },
        layers: targets.len() as i32,
        rates: if by_rate { targets.to_vec() } else { vec![] },
        distos: if by_rate { vec![] } else { targets.to_vec() },
        fixed_quality: !by_rate,
        csty: [0, 6, 0][d[7]],
        tp: [None, None, Some(b'R')][d[7]],
        extra: if d[7] == 2 { vec!["PLT=YES".into(), "TLM=YES".into()] } else { vec![] },
        ..Enc::default()
    };
    let b = match encode(&img, &e) {
        Ok(b) => b,
        // what it produces may outgrow the encoder's buffer
        Err(r) if r.stage == Stage::Encode && targets.last() < Some(&2.) && d[1] == 3 && (d[4] > 0 || d[5] == 2) => {
            cx.add("refused", 1);
            return Ok(());
        }
        Err(r) => return Err(format!("not encoded: {r}")),
    };
    let s = refj2k::Codestream::parse(&b, true)?;
    let n = targets.len() as u32;
    cx.outcome(hash_bytes(&b));
    // bytes
    for (t, p) in s.packets(&b, false, u32::MAX)?.iter().enumerate() {
        let r = s.siz.tile(t as u32);
        let a = s.siz.area();
        let (w, h) = (r.x1.min(a.x1) - r.x0.max(a.x0), r.y1.min(a.y1) - r.y0.max(a.y0));
        let raw = (w * h) as f64 * (nc as u32 * prec) as f64 / 8.;
        let total: usize = p.packets.iter().map(|x| x.size).sum();
        let headers = s.parts[0].start as f64 / s.siz.ntiles() as f64 + s.parts.iter().filter(|x| x.tile == t as u32).map(|x| (x.body - x.start) as f64).sum::<f64>();
        let (mut before, mut feasible) = (0f64, true);
        for l in 0..n {
            let first: Vec<_> = p.packets.iter().filter(|x| x.id.3 <= l).collect();
            let size = first.iter().map(|x| x.size).sum::<usize>() as f64;
            if by_rate && targets[l as usize] > 1. {
                let budget = raw / targets[l as usize] as f64;
                // every packet has a header and its SOP and EPH; the file has headers; with less than
                // that, what a layer and the ones after it get is not defined
                let least = before + first.iter().filter(|x| x.id.3 == l).count() as f64 * if e.csty & 6 != 0 { 10. } else { 2. } + 60.;
                feasible &= budget > least + headers;
                if feasible && size > budget {
                    return Err(format!("tile {t}: layers up to {l} take {size} bytes, more than the {budget:.0} asked for"));
                }
                if feasible && budget > 400. + least + headers && size < (budget - headers).min(total as f64) * 0.9 {
                    return Err(format!("tile {t}: layers up to {l} take only {size} of {budget:.0} bytes although there are {total}"));
                }
                cx.add("budgets", feasible as u64);
            }
            before = size;
        }
    }
    // quality
    let mut last = f64::INFINITY;
    for l in 1..=n {
        cx.evaluations(1);
        let o = decode(&b, &Dec { layers: l, ..Dec::default() }).map_err(|e| format!("{l} layers: {e}"))?;
        let (_, r) = refj2k::decode(&b, 0, l, true)?;
        lay::agree(&o, &s.siz, &r.comps, 0).map_err(|e| format!("{l} layers: {e}"))?;
        let mut se = 0f64;
        let mut count = 0;
        for (k, w) in img.comps.iter().zip(&o.comps) {
            for (a, b) in k.data.as_ref().unwrap().iter().zip(w.data.as_ref().unwrap()) {
                se += ((a - b) as f64).powi(2);
                count += 1;
            }
        }
        let mse = se / count as f64;
        let peak = ((1u64 << prec) - 1) as f64;
        let psnr = 10. * (peak * peak / mse).log10();
        let t = targets[l as usize - 1];
        // few coefficients decide at low qualities
        let (under, over) = if t < 30. { (6., 3.) } else { (3., 2.) };
        if !by_rate && t > 0. && !(t as f64 - under..t as f64 + over).contains(&psnr) {
            return Err(format!("{l} layers have {psnr:.2} dB, {t} asked for"));
        }
        if mse > last * 1.02 + 0.02 {
            return Err(format!("{l} layers have a mean squared error of {mse:.3}, fewer had {last:.3}"));
        }
        if !e.irreversible && t <= if by_rate { 1. } else { 0. } && mse > 0. {
            return Err(format!("all {n} layers are not lossless (mean squared error {mse})"));
        }
        last = mse;
    }
    Ok(())
}
fn show(i: u64) -> String {
    let d = mixed(i, &RAD);
    ["budgets", "picture", "tiles", "prog", "prec", "style", "irrev", "extra"].iter().zip(d).filter(|x| x.1 != 0).map(|(n, v)| format!("{n}{v}")).collect::<Vec<_>>().join(".")
}
pub fn c17(tier: Tier) -> Check {
    let deep = tier == Tier::Thorough;
    let layered: Vec<_> = neighbours(if deep { 3 } else { 2 }).into_iter().filter(|v| v[6] != 0).collect();
    let l: Vec<u64> = (0..product(&RAD)).filter(|&i| deep || mixed(i, &RAD)[1..].iter().filter(|x| **x != 0).count() <= 3).collect();
    let l2 = l.clone();
    Check::new("C17", "exploration")
        .counter("not legal")
        .counter("not expressible")
        .counter("refused")
        .counter("budgets")
        .with(code_space("layers", "every number of layers, whole, reduced and in a window, of all layered codestreams near a base", layered, first_layers))
        .with(space(
            "allocations",
            &format!("images of 96x72 encoded with {} vectors of rates and {} of qualities and {} of the combinations of picture, tiles, progression, precincts, block style, transform and extras; every number of layers", RATES.len(), PSNRS.len(), if deep { "all" } else { "at most three deviations" }),
            l.len() as u64,
            move |i| show(l2[i as usize]),
            move |i, cx| allocate(l[i as usize], cx),
        ))
}
