//! gecs deterministic simulator. One seed is one exactly repeatable execution.
mod alloc;
mod api;
mod comp;
mod exec;
mod gen;
mod model;
mod rng;
mod deep;
mod lay;
mod scen;
mod worlds;
#[cfg(target_arch = "wasm32")]
mod w32;
use std::io::Write;
#[cfg(not(target_arch = "wasm32"))]
use std::{io::Read, os::fd::FromRawFd};
use exec::*;
use model::*;

#[cfg(not(any(sim_plain, sim_move)))]
#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;
#[cfg(sim_move)]
#[global_allocator]
static A: alloc::MoveAlloc = alloc::MoveAlloc;

#[cfg(not(target_arch = "wasm32"))]
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn dup2(a: i32, b: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn prop(s: &str) -> Props { PROP_NAMES.iter().find(|x| x.0 == s).map(|x| x.1).unwrap_or(0) }

pub struct Outcome { pub fail: Option<Fail>, pub trace: Vec<Step>, pub dig: u64, pub sched: u64, pub st: Stats, pub fired: [u64; comp::N_FK], pub states: Vec<u64>, pub known: Vec<(String, u64)>, pub steps: u64 }

fn outcome(mut ex: Exec, trace: Vec<Step>) -> Outcome {
    let steps = trace.len() as u64;
    Outcome { fail: ex.cx.fail.take(), trace, dig: ex.cx.dig.0, sched: ex.cx.sched.0, st: ex.cx.st.clone(), fired: comp::FIRED.with(|f| f.get()), states: ex.cx.states.take().unwrap_or_default(), known: ex.cx.known.iter().map(|x| (x.0.to_string(), *x.1)).collect(), steps }
}

static STRICT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn strict() -> bool { STRICT.load(std::sync::atomic::Ordering::Relaxed) }

fn run_seed(p: Props, seed: u64, kinds: &[usize], steps: usize, no_overflow: bool, mut live: Option<&mut dyn FnMut(&str)>) -> Outcome {
    let mut ex = Exec::new();
    ex.cx.no_overflow = no_overflow;
    ex.cx.strict = strict();
    ex.cx.states = Some(vec![]);
    let mut g = gen::Gen::new(p, seed, kinds, steps);
    if let Some(f) = &mut live { f(&format!("!finish={} no_overflow={}\n", rng::mix(seed), no_overflow as u8)); }
    let mut trace = vec![];
    for i in 0..g.steps {
        let s = g.next(&ex);
        if let Some(f) = &mut live { f(&format!("{}\n", s.text())); }
        trace.push(s.clone());
        ex.step(&s, i);
        if ex.cx.fail.is_some() { break; }
    }
    ex.finish(rng::mix(seed));
    outcome(ex, trace)
}

fn replay(text: &str, no_fault: bool, cloneaway: u8) -> Outcome {
    let mut ex = Exec::new();
    ex.cx.strict = strict();
    let mut trace = vec![];
    let mut fin = 0;
    for l in text.lines() {
        let l = l.trim();
        if let Some(h) = l.strip_prefix('!') {
            for kv in h.split_whitespace() { match kv.split_once('=') { Some(("no_overflow", v)) => ex.cx.no_overflow = v == "1", Some(("finish", v)) => fin = v.parse().unwrap_or(0), _ => {} } }
            continue;
        }
        if l.is_empty() || l.starts_with('#') { continue; }
        if let Some(s) = Step::parse(l) { trace.push(s); } else { eprintln!("bad line: {}", l); std::process::exit(3); }
    }
    ex.cx.no_fault = no_fault;
    ex.cx.cloneaway = cloneaway;
    for (i, s) in trace.iter().enumerate() { ex.step(s, i); if ex.cx.fail.is_some() { break; } }
    ex.finish(fin);
    outcome(ex, trace)
}

fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o }

fn fail_json(f: &Fail) -> String { format!("\"props\":\"{}\",\"base\":\"{}\",\"step\":{},\"msg\":\"{}\"", prop_list(f.props), prop_list(f.base), f.step, esc(&f.msg)) }

fn stats_json(o: &Outcome) -> String {
    let s = &o.st;
    let ops: Vec<String> = OPS.iter().enumerate().map(|(i, x)| format!("\"{}\":{}", x.0, s.ops[i])).collect();
    let fired: Vec<String> = comp::FK_NAMES.iter().enumerate().map(|(i, n)| format!("\"{}\":{}", n, o.fired[i])).collect();
    let known: Vec<String> = o.known.iter().map(|k| format!("\"{}\":{}", esc(&k.0), k.1)).collect();
    format!("\"steps\":{},\"oracle\":{},\"visits\":{},\"lookups\":{},\"lib_panics\":{},\"overflow\":{},\"conflict\":{},\"forged\":{},\"foreign\":{},\"stale\":{},\"relocs\":{},\"presets\":{},\"clones\":{},\"breaks\":{},\"wc_refused\":{},\"debug_rejects\":{},\"alias_refused\":{},\"alias_granted\":{},\"growths\":{},\"max_len\":{},\"dig\":\"{:016x}\",\"sched\":\"{:016x}\",\"ops\":{{{}}},\"fired\":{{{}}},\"known\":{{{}}}",
        o.steps, s.oracle, s.visits, s.lookups, s.lib_panics, s.overflow_panics, s.conflict_panics, s.forged, s.foreign, s.stale, s.relocs, s.presets, s.clones, s.breaks, s.wc_refused, s.debug_rejects, s.alias_refused, s.alias_granted, s.growths, s.max_len,
        o.dig, o.sched, ops.join(","), fired.join(","), known.join(","))
}

fn run_json(o: &Outcome, seed: u64, want_trace: bool) -> String {
    let tr = || esc(&o.trace.iter().map(|s| s.text()).collect::<Vec<_>>().join("\n"));
    match &o.fail {
        Some(f) => format!("{{\"seed\":{},\"finish\":{},{},\"trace\":\"{}\"}}", seed, rng::mix(seed), fail_json(f), tr()),
        None => format!("{{\"seed\":{},\"ok\":1,{}{}}}", seed, stats_json(o), if want_trace { format!(",\"trace\":\"{}\"", tr()) } else { String::new() }),
    }
}

fn replay_json(o: &Outcome) -> String {
    match &o.fail { Some(f) => format!("{{\"fail\":1,{}}}", fail_json(f)), None => format!("{{\"ok\":1,{}}}", stats_json(o)) }
}

/// Runs `f` in a forked child, so that a crash is an observation and every seed starts from the same heap.
#[cfg(not(target_arch = "wasm32"))]
fn in_child(secs: u32, f: impl FnOnce(&mut dyn Write)) -> (Result<Vec<u8>, String>, Vec<u8>) {
    unsafe {
        let mut fds = [0i32; 2];
        let mut ef = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 || pipe(ef.as_mut_ptr()) != 0 { panic!("pipe"); }
        let _ = std::io::stdout().flush();
        let pid = fork();
        if pid < 0 { panic!("fork"); }
        if pid == 0 {
            alarm(secs);
            dup2(ef[1], 2);
            let mut w = std::io::BufWriter::new(std::fs::File::from_raw_fd(fds[1]));
            f(&mut w);
            let _ = w.flush();
            _exit(0);
        }
        drop(std::fs::File::from_raw_fd(fds[1]));
        drop(std::fs::File::from_raw_fd(ef[1]));
        let mut out = vec![];
        let _ = std::fs::File::from_raw_fd(fds[0]).read_to_end(&mut out);
        let mut err = vec![];
        let _ = std::fs::File::from_raw_fd(ef[0]).read_to_end(&mut err);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st == 0 { (Ok(out), err) } else {
            let sig = st & 0x7f;
            let e = String::from_utf8_lossy(&err);
            let line = e.lines().find(|l| l.starts_with("SIMALLOC") || l.contains("ERROR: AddressSanitizer") || l.contains("unsafe precondition") || l.contains("panic in a")).unwrap_or_else(|| e.lines().last().unwrap_or(""));
            let what = match sig { 14 => "no progress: the run did not end in time".to_string(), 0 => format!("process exited with status {}: {}", st >> 8, line), s => format!("process killed by signal {}: {}", s, line) };
            (Err(what), err)
        }
    }
}

#[cfg(target_arch = "wasm32")]
fn main() {}

#[cfg(not(target_arch = "wasm32"))]
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| -> Option<String> { args.iter().position(|x| x == n).and_then(|i| args.get(i + 1).cloned()) };
    let has = |n: &str| args.iter().any(|x| x == n);
    let num = |n: &str, d: u64| opt(n).and_then(|x| x.parse().ok()).unwrap_or(d);
    STRICT.store(has("--strict-known"), std::sync::atomic::Ordering::Relaxed);
    if !has("--loud") { std::panic::set_hook(Box::new(|i| { if i.to_string().contains("cannot unwind") || i.to_string().contains("unsafe precondition") { eprintln!("{}", i); } })); }
    let p = opt("--prop").map(|x| prop(&x)).unwrap_or(0);
    let kinds: Vec<usize> = opt("--kinds").unwrap_or("0,0,0,1,2,3,3,5,6".into()).split(',').filter_map(|x| x.parse().ok()).collect();
    let secs = num("--secs", 60) as u32;
    match args.get(1).map(|x| x.as_str()) {
        Some("info") => println!("{{\"events\":{},\"wrapping\":{},\"hook\":{},\"widex\":{},\"debug\":{}}}", EVENTS, WRAPPING, HOOK, cfg!(feature = "32_components"), cfg!(debug_assertions)),
        Some("run") => {
            // One JSON line per seed; states go to a bitmap file.
            let (s0, n, stride) = (num("--seed0", 1), num("--count", 10), num("--stride", 1));
            let steps = num("--steps", 0) as usize;
            let mut bitmap: Option<Vec<u8>> = opt("--states").map(|_| vec![0u8; 1 << 21]);
            let out = std::io::stdout();
            let budget = num("--budget-ms", u64::MAX);
            let t0 = std::time::Instant::now();
            let mut bad = 0;
            for i in 0..n {
                if t0.elapsed().as_millis() as u64 > budget { break; }
                let seed = s0 + i * stride;
                let want_trace = has("--traces");
                let body = |w: &mut dyn Write| {
                    let mut f = opt("--live").map(|f| std::fs::File::create(f).unwrap());
                    let mut put = |l: &str| { if let Some(f) = &mut f { f.write_all(l.as_bytes()).unwrap(); f.flush().unwrap(); } };
                    let o = run_seed(p, seed, &kinds, steps, has("--no-overflow"), Some(&mut put));
                    let _ = writeln!(w, "{}", run_json(&o, seed, want_trace));
                    for s in &o.states { let _ = w.write_all(&s.to_le_bytes()); }
                };
                let (r, _) = if has("--no-fork") { let mut v = vec![]; body(&mut v); (Ok(v), vec![]) } else { in_child(secs, body) };
                match r {
                    Ok(v) => {
                        let nl = v.iter().position(|b| *b == b'\n').unwrap_or(v.len());
                        if let Some(b) = &mut bitmap { for c in v[(nl + 1).min(v.len())..].chunks_exact(8) { let h = rng::mix(u64::from_le_bytes(c.try_into().unwrap())) as usize & ((1 << 24) - 1); b[h >> 3] |= 1 << (h & 7); } }
                        let line = String::from_utf8_lossy(&v[..nl]).to_string();
                        if !line.contains("\"ok\":1") { bad += 1; }
                        writeln!(out.lock(), "{}", line).unwrap();
                    }
                    Err(e) => { bad += 1; writeln!(out.lock(), "{{\"seed\":{},\"crash\":\"{}\"}}", seed, esc(&e)).unwrap(); }
                }
                if bad >= num("--max-bad", 3) { break; }
            }
            if let (Some(f), Some(b)) = (opt("--states"), bitmap) { std::fs::write(f, b).unwrap(); }
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let (nf, ca) = (has("--nofault"), num("--cloneaway", 0) as u8);
            let body = |w: &mut dyn Write| {
                let o = if text.contains("!scenario") { scen::replay(&text) } else { replay(&text, nf, ca) };
                let _ = writeln!(w, "{}", replay_json(&o));
            };
            let (r, err) = if has("--no-fork") { let mut v = vec![]; body(&mut v); (Ok(v), vec![]) } else { in_child(secs, body) };
            match r {
                Ok(v) => { print!("{}", String::from_utf8_lossy(&v)); if has("--loud") { eprint!("{}", String::from_utf8_lossy(&err)); } }
                Err(e) => println!("{{\"fail\":1,\"crash\":1,\"props\":\"\",\"msg\":\"{}\"}}", esc(&e)),
            }
        }
        // Replays many candidate traces read from stdin (for the minimiser): blocks separated by "%%".
        Some("replays") => {
            let mut text = String::new();
            std::io::stdin().read_to_string(&mut text).unwrap();
            let (nf, ca) = (has("--nofault"), num("--cloneaway", 0) as u8);
            for b in text.split("%%\n") {
                let (r, _) = in_child(secs, |w| {
                    let o = if b.contains("!scenario") { scen::replay(b) } else { replay(b, nf, ca) };
                    match &o.fail { Some(f) => { let _ = writeln!(w, "{{\"fail\":1,{}}}", fail_json(f)); } None => { let _ = writeln!(w, "{{\"ok\":1,\"dig\":\"{:016x}\"}}", o.dig); } }
                });
                match r { Ok(v) => print!("{}", String::from_utf8_lossy(&v)), Err(e) => println!("{{\"fail\":1,\"crash\":1,\"props\":\"\",\"msg\":\"{}\"}}", esc(&e)) }
                let _ = std::io::stdout().flush();
            }
        }
        Some("scen") => {
            let text = format!("!scenario {}\n", args[2..].iter().filter(|a| a.contains('=')).cloned().collect::<Vec<_>>().join(" "));
            let (r, _) = in_child(num("--secs", 800) as u32, |w| {
                let o = scen::replay(&text);
                match &o.fail { Some(f) => { let _ = writeln!(w, "{{\"fail\":1,{},\"trace\":\"{}\"}}", fail_json(f), esc(&text)); } None => { let _ = writeln!(w, "{{\"ok\":1,{}}}", stats_json(&o)); } }
            });
            match r { Ok(v) => print!("{}", String::from_utf8_lossy(&v)), Err(e) => println!("{{\"crash\":\"{}\",\"trace\":\"{}\"}}", esc(&e), esc(&text)) }
        }
        _ => { eprintln!("usage: sim run|replay|replays|scen|info ..."); std::process::exit(2); }
    }
}
