//! Shrinks a violating case while the same violation class persists.
use crate::case::*;
use crate::exec::Io;
use crate::props::*;
use crate::world::*;
use std::time::{Duration, Instant};

pub fn minimise(x: &mut Ctx, c0: &Case, v0: &Viol, budget: Duration) -> (Case, Viol, u32) {
    let t0 = Instant::now();
    let mut best = c0.clone();
    let mut viol = v0.clone();
    let mut tries = 0u32;
    x.quiet = true;
    macro_rules! attempt { ($cand:expr) => {{
        let cand: Case = $cand;
        let mut ok = false;
        if cand != best && t0.elapsed() < budget {
            tries += 1;
            if let Some(w) = check_case(x, &cand) { if w.class == viol.class { best = cand; viol = w; ok = true; } }
        }
        ok
    }}; }
    loop {
        let before = best.clone();
        /* 1. fewer executions */
        if best.vars.len() > viol.var + 1 { let mut c = best.clone(); c.vars.truncate(viol.var + 1); attempt!(c); }
        while best.vars.len() > 16 {
            let (n, q) = (best.vars.len(), best.vars.len() / 4);
            let mut any = false;
            for p in 0..4 { let mut c = best.clone(); c.vars.drain(p * q..if p == 3 { n } else { p * q + q }); if attempt!(c) { any = true; break; } }
            if !any { break; }
        }
        let mut k = 0;
        while k < best.vars.len() && best.vars.len() > 1 { let mut c = best.clone(); c.vars.remove(k); if !attempt!(c) { k += 1; } }
        /* 2. fewer pipeline stages: the first one replaced by its own output is not known here, so drop from both ends */
        while best.stages.len() > 1 {
            let mut c = best.clone(); c.stages.pop(); if attempt!(c) { continue; }
            let mut c = best.clone(); c.stages.remove(0); if attempt!(c) { continue; }
            break;
        }
        /* 3. calmer worlds */
        for k in 0..best.vars.len() {
            let mut j = 0;
            while j < best.vars[k].faults.len() { let mut c = best.clone(); c.vars[k].faults.remove(j); if !attempt!(c) { j += 1; } }
            macro_rules! set { ($f:ident, $val:expr) => {{ let mut c = best.clone(); c.vars[k].$f = $val; attempt!(c); }}; }
            set!(io, vec![]);
            for q in 0..best.vars[k].io.len() { let mut c = best.clone(); c.vars[k].io[q] = Io::default(); attempt!(c); let mut c = best.clone(); c.vars[k].io[q].rdm = 0; attempt!(c); let mut c = best.clone(); c.vars[k].io[q].wrm = 0; attempt!(c); }
            set!(sched, (0, 0, 0, 0)); set!(caps, vec![]);
            let mut lim = best.vars[k].sched.3;
            if lim > 1 << 16 && best.vars[k].sched.0 != 0 { let mut c = best.clone(); c.vars[k].sched.3 = 4096; if attempt!(c) { lim = 4096; } }
            while lim > 0 && lim <= 1 << 16 { let mut c = best.clone(); c.vars[k].sched.3 = lim / 2; if attempt!(c) { lim /= 2; } else { break; } }
            set!(inch, IN_PIPE); set!(inch, IN_FILE); set!(name, 0); set!(out, OUT_PIPE); set!(out, OUT_REG); set!(rand, (0, 0)); set!(pre, 0); set!(rt_off, 0); set!(tick, 0);
            set!(env, String::new()); set!(space, None); set!(heap, 0); set!(lay, 0); set!(cpus, 0); set!(open_errno, 0); set!(oopen_errno, 0); set!(closed, false); set!(stale, None);
            if let Some(s) = best.vars[k].stale.clone() { if s.len() > 1 { set!(stale, Some(s[..s.len() / 2].to_vec())); set!(stale, Some(vec![b'x'; s.len()])); } }
            for j in 0..best.vars[k].faults.len() {
                for n in [1, best.vars[k].faults[j].nth / 2, best.vars[k].faults[j].nth.saturating_sub(1)] { if n >= 1 && n < best.vars[k].faults[j].nth { let mut c = best.clone(); c.vars[k].faults[j].nth = n; attempt!(c); } }
                if best.vars[k].faults[j].sticky { let mut c = best.clone(); c.vars[k].faults[j].sticky = false; attempt!(c); }
                if best.vars[k].faults[j].kind == F_EINTR { let mut c = best.clone(); c.vars[k].faults[j].arg = 1; attempt!(c); }
                if best.vars[k].faults[j].kind == F_SHORT { let mut c = best.clone(); c.vars[k].faults[j].arg = 1; attempt!(c); }
            }
        }
        /* 4. smaller input */
        for which in 0..2 {
            let get = |c: &Case| if which == 0 { c.input.clone() } else { c.input2.clone() };
            let put = |c: &mut Case, d: Vec<u8>| if which == 0 { c.input = d } else { c.input2 = d };
            let mut sz = get(&best).len() / 2;
            while sz >= 1 && t0.elapsed() < budget {
                let mut at = 0;
                let mut removed = false;
                while at < get(&best).len() {
                    let d = get(&best);
                    let e = (at + sz).min(d.len());
                    let mut n = d[..at].to_vec(); n.extend_from_slice(&d[e..]);
                    let mut c = best.clone(); put(&mut c, n);
                    if attempt!(c) { removed = true; } else { at += sz; }
                    if t0.elapsed() >= budget { break; }
                }
                if !removed || sz == 1 { sz /= 2; }
            }
            let d = get(&best);
            if d.len() <= 64 { for p in 0..d.len() { for b in [b'a', b'b'] { let mut n = get(&best); if n[p] != b && n[p] != b'a' { n[p] = b; let mut c = best.clone(); put(&mut c, n); attempt!(c); } } } }
        }
        /* 5. plainer command lines */
        for s in 0..best.stages.len() {
            let mut a = 0;
            while a < best.stages[s].args.len() { let mut c = best.clone(); c.stages[s].args.remove(a); if !attempt!(c) { a += 1; } }
            for a in 0..best.stages[s].args.len() {
                let arg = best.stages[s].args[a].clone();
                let cut = arg.rfind(|ch: char| !ch.is_ascii_digit()).map_or(0, |p| p + 1);
                if let Ok(n) = arg[cut..].parse::<u64>() { for m in [1, 2, n / 2, n.saturating_sub(1)] { if m < n { let mut c = best.clone(); c.stages[s].args[a] = format!("{}{}", &arg[..cut], m); attempt!(c); } } }
            }
            if best.stages[s].rel { let mut c = best.clone(); c.stages[s].rel = false; attempt!(c); }
        }
        if best == before || t0.elapsed() >= budget { break; }
    }
    x.quiet = false;
    (best, viol, tries)
}
