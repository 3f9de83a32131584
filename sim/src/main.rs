mod case; mod exec; mod gen; mod minimise; mod models; mod probe;
mod props; mod rng; mod tools; mod world;
use case::*;
use exec::*;
use props::*;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn arg(k: &str) -> Option<String> { let a: Vec<String> = std::env::args().collect(); a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) }
fn need(k: &str) -> String { arg(k).unwrap_or_else(|| harness(&format!("missing {}", k))) }
fn jstr(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

fn runner() -> Runner { Runner::new([need("--dev"), need("--rel")], need("--shim")) }
fn ctx(th: bool) -> Ctx { Ctx { run: runner(), thorough: th, cov: Cov::default(), quiet: false } }

/// The events of every execution of a case.
fn trace(x: &mut Ctx, c: &Case) -> String {
    let mut s = String::new();
    let mut prev: Option<Vec<u8>> = None;
    for (k, v) in c.vars.iter().enumerate() {
        let (mut spec, name) = build(c, v, prev.as_deref());
        if c.prop == "C25" { spec.step_cap = if c.note == "unbounded" { 120_000 } else { 3_000_000 }; }
        let o = x.run.run_opt(&spec, true);
        s.push_str(&format!("# execution {}: {} -> {}{}{}; log hash {:016x}, {} I/O steps, {} switches, simulated {} us\n", k, spec.procs.iter().map(|p| format!("{} {}", p.tool, p.args.join(" "))).collect::<Vec<_>>().join(" | "), o.procs.iter().map(|p| p.describe()).collect::<Vec<_>>().join(", "), if o.livelock { " LIVELOCK" } else { "" }, if o.deadlock { " DEADLOCK" } else { "" }, o.hash, o.steps, o.switches, o.sim_ns / 1000));
        for (i, f) in v.faults.iter().enumerate() { s.push_str(&format!("#   fault {} fired {} times\n", i, o.fired[i])); let _ = f; }
        for l in o.extra.iter().take(400) { s.push_str("#   "); s.push_str(l); s.push('\n'); }
        if o.extra.len() > 400 { s.push_str(&format!("#   ... {} events in all\n", o.extra.len())); }
        let seen = Seen::new(o, &spec, name, c.stages.len());
        prev = seen.ofile().map(|d| d.to_vec());
    }
    s
}

/// the fast reference models against their definitions
fn modeltest() {
    use crate::models as m;
    let mut r = rng::Rng::new(7, 0, 0);
    let mut k = 0u64;
    while k < 20_000 {
        let n = if k % 10 == 0 { r.range(1, 900) } else { r.range(1, 200) };
        let t = gen::bytes(&mut r, n, gen::Dom::Any);
        let mut a: Vec<usize> = (0..n).collect();
        a.sort_by(|&x, &y| t[x..].cmp(&t[y..]));
        if m::suffix_array(&t) != a { harness(&format!("suffix array of {:?}", t)); }
        let mut b: Vec<usize> = (0..n).collect();
        b.sort_by(|&x, &y| { for i in 0..n { let c = t[(x + i) % n].cmp(&t[(y + i) % n]); if c != std::cmp::Ordering::Equal { return c; } } std::cmp::Ordering::Equal });
        if m::bwt_rot(&t) != b.iter().map(|&i| t[(i + n - 1) % n]).collect::<Vec<u8>>() { harness(&format!("rotations of {:?}", t)); }
        k += 1;
    }
    println!("{} texts agree", k);
    if let Some(f) = arg("--survey") { let t = std::fs::read(f).unwrap(); println!("{:?}", m::survey_begins(&t)); }
}

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "check" => check(),
        "replay" => replay(),
        "determinism" => determinism(),
        "one" => one(),
        "modeltest" => modeltest(),
        _ => harness("usage: simdriver check|replay|determinism|one"),
    }
}

fn replay() {
    let f = need("--file");
    let t = std::fs::read_to_string(&f).unwrap_or_else(|e| harness(&format!("{}: {}", f, e)));
    let c = Case::from_text(&t).unwrap_or_else(|| harness("unreadable replay file"));
    let mut x = ctx(false);
    match check_case(&mut x, &c) {
        Some(v) => { println!("execution {} breaks {}: [{}] {}", v.var, c.prop, v.class, v.msg); if !arg("--no-trace").is_some() { print!("{}", trace(&mut x, &c)); } println!("VIOLATION property={} replay={}", c.prop, f); std::process::exit(1) }
        None => { println!("{} holds on this case", c.prop); if arg("--trace").is_some() { print!("{}", trace(&mut x, &c)); } }
    }
}

/// print one generated case (debugging aid)
fn one() {
    let mut x = ctx(arg("--tier").as_deref() == Some("thorough"));
    let id = need("--prop");
    let i: u64 = need("--index").parse().unwrap();
    let c = make_case(&mut x, &id, arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1), i);
    print!("{}", c.to_text());
    println!("verdict: {:?}", check_case(&mut x, &c));
}

/// every case twice, in different workers' runners and different orders; all event-log hashes must agree
fn determinism() {
    let n: u64 = need("--cases").parse().unwrap();
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let jobs: usize = arg("--jobs").and_then(|s| s.parse().ok()).unwrap_or(4);
    let ids: Vec<String> = match arg("--prop") { Some(p) => vec![p], None => IDS.iter().map(|s| s.to_string()).collect() };
    let next = AtomicU64::new(0);
    let out: Mutex<Vec<(u64, u64)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| for _ in 0..jobs { sc.spawn(|| {
        let mut x = ctx(false);
        loop {
            let i = next.fetch_add(1, SeqCst);
            if i >= n * ids.len() as u64 { break; }
            let id = &ids[(i / n) as usize];
            let c = make_case(&mut x, id, seed, i % n);
            let mut d = 0u64;
            for v in &c.vars {
                let (mut spec, _) = build(&c, v, None);
                if id == "C25" { spec.step_cap = 120_000; }
                let o = x.run.run(&spec);
                if arg("--detail").is_some() { eprintln!("{} {} hash {:x} status {:?} nalloc {:?} peak {:?} files {:?}", id, i % n, o.hash, o.procs.iter().map(|p| p.status).collect::<Vec<_>>(), o.procs.iter().map(|p| p.nalloc).collect::<Vec<_>>(), o.procs.iter().map(|p| p.heap_peak).collect::<Vec<_>>(), o.files.iter().map(|f| f.data.len()).collect::<Vec<_>>()); }
                d = rng::mix(d ^ o.hash);
                for p in &o.procs { d = rng::mix(d ^ p.status as u64 ^ (p.nalloc << 20) ^ ((p.heap_peak as u64) << 40)); }
                for f in &o.files { d = rng::mix(d ^ f.data.iter().fold(f.data.len() as u64, |a, b| (a ^ *b as u64).wrapping_mul(0x100000001b3))); }
            }
            out.lock().unwrap().push((i, d));
        }
    }); });
    let mut o = out.into_inner().unwrap();
    o.sort();
    for (i, d) in o { println!("{} {} {:016x}", ids[(i / n) as usize], i % n, d); }
}

struct Known { class: String, tool: String, need: String, text: String }
fn known(path: &str, id: &str) -> Vec<Known> {
    /* known: property=<id> class=<class> tool=<tool> match=<text without blanks> | description */
    let t = std::fs::read_to_string(path).unwrap_or_default();
    t.lines().filter_map(|l| l.strip_prefix("known: ")).filter_map(|l| {
        let (head, text) = l.split_once(" | ")?;
        let g = |k: &str| head.split_whitespace().find_map(|w| w.strip_prefix(k)).map(|s| s.to_string());
        if g("property=")? != id { return None; }
        Some(Known { class: g("class=")?, tool: g("tool=")?, need: g("match=").unwrap_or_default(), text: text.into() })
    }).collect()
}

fn check() {
    let t0 = Instant::now();
    let id = need("--prop");
    let tier = arg("--tier").unwrap_or("quick".into());
    let th = tier == "thorough";
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = need("--root");
    let jobs: usize = arg("--jobs").and_then(|s| s.parse().ok()).unwrap_or(8);
    let cap = Duration::from_secs(arg("--secs").and_then(|s| s.parse().ok()).unwrap_or(if th { 780 } else { 70 }));
    let total = arg("--cases").and_then(|s| s.parse().ok()).unwrap_or(if th { quick_cases(&id) * 40 } else { quick_cases(&id) });
    println!("property {} tier {} seed {} cases {}", id, tier, seed, total);
    let kn = known(&format!("{}/known_findings.txt", root), &id);
    let known_hits: Vec<AtomicU64> = kn.iter().map(|_| AtomicU64::new(0)).collect();
    let survey = arg("--survey").is_some();
    let next = AtomicU64::new(0);
    let worst = AtomicU64::new(u64::MAX);
    let done = AtomicU64::new(0);
    let all: Mutex<(Cov, Stats)> = Mutex::new((Cov::default(), Stats::default()));
    let found: Mutex<Vec<(u64, Case, Viol)>> = Mutex::new(vec![]);
    let samples: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
    let rechecked = AtomicU64::new(0);
    let nondet = AtomicU64::new(0);
    std::thread::scope(|sc| for _ in 0..jobs { sc.spawn(|| {
        let mut x = ctx(th);
        loop {
            let i = next.fetch_add(1, SeqCst);
            if i >= total || i > worst.load(SeqCst) || t0.elapsed() > cap { break; }
            let c = make_case(&mut x, &id, seed, i);
            let r = check_case(&mut x, &c);
            done.fetch_add(1, SeqCst);
            if i % 64 == 13 && i < 400 && c.input.len() < 2000 { samples.lock().unwrap().push((i, c.to_text())); }
            if let Some(v) = r {
                let tools = c.stages.iter().map(|s| s.tool.as_str()).collect::<Vec<_>>();
                if let Some(k) = kn.iter().position(|k| k.class == v.class && tools.contains(&k.tool.as_str()) && v.msg.replace(' ', "").contains(&k.need)) { known_hits[k].fetch_add(1, SeqCst); continue; }
                if !survey { worst.fetch_min(i, SeqCst); }
                found.lock().unwrap().push((i, c, v));
            } else if i % 50 == 7 && c.vars.len() > 0 {
                /* determinism sample: the same world again gives the same event log */
                let (mut spec, _) = build(&c, &c.vars[0], None);
                if id == "C25" { spec.step_cap = 120_000; }
                let a = x.run.run(&spec); let b = x.run.run(&spec);
                rechecked.fetch_add(1, SeqCst);
                if a.hash != b.hash || a.procs.iter().map(|p| p.status).ne(b.procs.iter().map(|p| p.status)) { nondet.fetch_add(1, SeqCst); eprintln!("note: two runs of one world differ (case {})", i); }
            }
        }
        let mut g = all.lock().unwrap();
        g.0.merge(std::mem::take(&mut x.cov));
        let st = x.run.stats.clone();
        g.1.merge(&st);
    }); });
    let search_s = t0.elapsed().as_secs_f64();
    let (cov, stats) = all.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.0);
    if survey {
        let mut g: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
        for (i, c, v) in &found { let e = g.entry(format!("{} {} {}", c.stages.iter().map(|s| s.tool.as_str()).collect::<Vec<_>>().join("|"), if c.stages[0].rel { "rel" } else { "dev" }, v.class)).or_insert((0, *i, v.msg.clone())); e.0 += 1; }
        for (k, (n, i, m)) in g { println!("{:>5} x {} e.g. case {}: {}", n, k, i, m.chars().take(260).collect::<String>()); }
        println!("{} cases in {:.1} s", done.load(SeqCst), search_s);
        return;
    }
    let mut violations = 0;
    let mut report = String::new();
    for (k, h) in kn.iter().zip(&known_hits) { println!("KNOWN-FINDING: property={} {} (met {} times)", id, k.text, h.load(SeqCst)); }
    if let Some((i, c, v)) = found.first() {
        violations = 1;
        println!("case {} execution {}: [{}] {}", i, v.var, v.class, v.msg);
        let mut x = ctx(th);
        let (min, mv, tries) = minimise::minimise(&mut x, c, v, Duration::from_secs(if th { 120 } else { 15 }));
        let dir = format!("{}/replays", root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-seed{}-case{}.sim", dir, id, seed, i);
        let mut text = format!("# {} is broken: [{}] {}\n# VERIF_SEED={} case {} (tier {}), minimised in {} attempts; replay: ./replay.sh {}\n", id, mv.class, mv.msg.replace('\n', " "), seed, i, tier, tries, path);
        text.push_str(&min.to_text());
        text.push_str(&trace(&mut x, &min));
        if std::fs::write(&path, &text).is_err() { harness("cannot write the replay file"); }
        drop(x);
        /* the replay file must reproduce it in a fresh process */
        let me = std::env::current_exe().unwrap();
        let o = std::process::Command::new(me).args(["replay", "--no-trace", "1", "--file", &path, "--dev", &need("--dev"), "--rel", &need("--rel"), "--shim", &need("--shim")]).output();
        let again = o.map(|o| o.status.code() == Some(1)).unwrap_or(false);
        if !again {
            /* fall back to the unshrunk case */
            let full = format!("# {} is broken: [{}] {}\n# VERIF_SEED={} case {} (tier {})\n{}", id, v.class, v.msg.replace('\n', " "), seed, i, tier, c.to_text());
            let _ = std::fs::write(&path, full);
        }
        println!("minimised ({} attempts, replay {}): [{}] {}", tries, if again { "reproduces" } else { "does not reproduce; the original case is kept" }, mv.class, mv.msg);
        report = format!("VIOLATION property={} replay={}", id, path);
    }
    // evidence
    let wall = t0.elapsed().as_secs_f64();
    let mut samples = samples.into_inner().unwrap(); samples.sort(); samples.truncate(3);
    let mut fk: Vec<_> = stats.fired.iter().collect(); fk.sort();
    let faults = fk.iter().map(|((c, k), n)| format!("{}: {}", jstr(&format!("{}/{}", world::CLS[*c as usize], world::KIND[*k as usize])), n)).collect::<Vec<_>>().join(", ");
    let mut tl: Vec<_> = stats.tools.iter().collect(); tl.sort();
    let js = |m: &std::collections::BTreeMap<&'static str, u64>| m.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ");
    let probes = cov.probes.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ");
    let sj = samples.iter().map(|(i, s)| { let mut t = format!("case {}\n{}", i, s); if t.len() > 1500 { t.truncate(t.char_indices().take_while(|(p, _)| *p < 1500).last().map_or(0, |p| p.0)); t.push_str("..."); } jstr(&t) }).collect::<Vec<_>>().join(", ");
    let rph = |n: u64| (n as f64 / search_s * 3600.0) as u64;
    let ev = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"cases\": {}, \"case_budget\": {}, \"judged\": {}, \"baseline_runs\": {}, \"simulated_runs\": {}, \"simulated_runs_per_hour\": {}, \"seeds_per_hour\": {}, \"simulated_seconds\": {}, \"io_steps\": {}, \"context_switches\": {}, \"preemption_points_inside_thread_code\": {}, \"pipeline_runs\": {}, \"distinct_event_logs\": {}, \"distinct_interleavings\": {}, \"faults_fired\": {{{}}}, \"input_channels\": {{{}}}, \"output_channels\": {{{}}}, \"probes\": {{{}}}, \"tools\": {{{}}}, \"determinism_rechecks\": {}, \"determinism_mismatches\": {}, \"real_components\": {}, \"stub_components\": {}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        jstr(&id), jstr(&tier), seed, cov.evals, cov.distinct.len(),
        jstr("every case is generated from (VERIF_SEED, property, case number) alone: a tool invocation or pipeline, an input, and several executions of it in simulated worlds that differ in channels, read/write chunking, schedule, clock, entropy and injected faults. An execution is non-trivial if at least one fault fired, the scheduler switched processes, or the world differed from a calm run on standard input; executions are told apart by the hash of their complete I/O event log together with tool, arguments and input."),
        sj, done.load(SeqCst), total, cov.judged, cov.baselines, stats.runs, rph(stats.runs), rph(done.load(SeqCst)), stats.sim_ns / 1_000_000_000, stats.steps, stats.switches, stats.covpts, stats.multi, cov.logs.len(), cov.sched.len(), faults, js(&cov.inch), js(&cov.outm), probes,
        tl.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "), rechecked.load(SeqCst), nondet.load(SeqCst),
        jstr("the unmodified command-line tools (all of /repo/src, std, clap, env_logger and every dependency), built from /repo's working tree in dev and release profile; for C27 the library in a small multi-threaded client program (/verif/probe); for C28 src/unfinished/parallel.rs, unmodified"),
        jstr("the kernel boundary: files, pipes, descriptors, clocks, getrandom and /dev/urandom, heap limits, process scheduling, disk quota (sim/shim.c); for C28 the crate no_deadlocks (std's locks instead)"),
        [jstr("closing a descriptor and fsync do not fail"), jstr("the preloaded shim sees every I/O, clock, entropy and allocation call of the tools; memory allocated by other means is not budgeted")].join(", "),
        wall, violations);
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    if std::fs::write(format!("{}/evidence/{}.json", root, id), ev).is_err() { harness("cannot write the evidence file"); }
    println!("{} cases, {} simulated runs in {:.1} s, {} distinct non-trivial, {} judged, {} violations", done.load(SeqCst), stats.runs, wall, cov.distinct.len(), cov.judged, violations);
    if violations > 0 { println!("{}", report); std::process::exit(1) }
}
