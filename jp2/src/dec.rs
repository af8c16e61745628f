//! C12 and the checks that compare decodes of one codestream with one another.

use crate::driver::*;
use crate::lay;
use crate::refj2k;
use mck::*;
use std::rc::Rc;

/// The reference decoder's and the library's view of one generated codestream.
fn layout(v: &[usize; 26], cx: &mut Cx) -> Result<(), String> {
    let Some(k) = lay::build(v) else {
        cx.add("not legal", 1);
        return Ok(());
    };
    against(&k, cx)
}
fn against(k: &lay::Case, cx: &mut Cx) -> Result<(), String> {
    let b = match k.bytes() {
        Ok(b) => b,
        Err(e) => {
            // this layout cannot express these parameters
            cx.add("not expressible", 1);
            if std::env::var("JP2_WHY").is_ok() {
                return Err(format!("why: {e}"));
            }
            return Ok(());
        }
    };
    let (s, r) = refj2k::decode(&b, 0, 0, true).map_err(|e| format!("generator: {e}"))?;
    if k.lossless() {
        for c in 0..k.img.len() {
            let o = refj2k::samples(&s.siz, c, &r.comps[c]);
            if o != k.img[c] {
                return Err(format!("generator: component {c} is not what was encoded"));
            }
        }
    }
    cx.evaluations(1);
    if let Ok(f) = std::env::var("JP2_SAVE") {
        std::fs::write(f, &b).unwrap();
    }
    let o = decode(&b, &Dec::default()).map_err(|e| format!("legal codestream: {e}"))?;
    lay::agree(&o, &s.siz, &r.comps, 0)?;
    cx.outcome(hash_bytes(&b));
    Ok(())
}
fn layout_space(b: usize, t: usize) -> Box<dyn Space> {
    let l = Rc::new(lay::around(b, t));
    let l2 = l.clone();
    space(
        &format!("layouts{b}"),
        &format!("all legal codestreams that differ from base {b} ({}) in at most {t} of {} choices", lay::show(&lay::BASES[b]), lay::RADICES.len()),
        l.len() as u64,
        move |i| lay::show(&l2[i as usize]),
        move |i, cx| layout(&l[i as usize], cx),
    )
}
pub fn c12(tier: Tier) -> Check {
    let t = if tier == Tier::Thorough { 3 } else { 2 };
    let mut c = Check::new("C12", "exploration").counter("not legal").counter("not expressible");
    for b in 0..lay::BASES.len() {
        c = c.with(layout_space(b, t));
    }
    for (name, rule, l) in lay::limits(tier == Tier::Thorough) {
        c = c.with(list_space(name, rule, l, |l, cx| {
            let Some(k) = l.case() else {
                cx.add("not legal", 1);
                return Ok(());
            };
            against(&k, cx)
        }));
    }
    c
}
