//! The same simulator on a 32-bit machine: compiled to wasm32 and driven by w32.js, one instance (one heap) per run.
use crate::*;

#[link(wasm_import_module = "env")]
extern "C" {
    fn host_in(which: u32, p: *mut u8, cap: usize) -> usize;
    fn host_out(which: u32, p: *const u8, n: usize);
}

fn input(which: u32) -> String {
    let n = unsafe { host_in(which, std::ptr::null_mut(), 0) };
    let mut v = vec![0u8; n];
    unsafe { host_in(which, v.as_mut_ptr(), n) };
    String::from_utf8_lossy(&v).to_string()
}
fn put(which: u32, s: &str) { unsafe { host_out(which, s.as_ptr(), s.len()) } }
pub fn diag(s: &str) { put(2, s) }

#[no_mangle]
pub extern "C" fn w32() {
    let args: Vec<String> = input(0).lines().map(|x| x.to_string()).collect();
    let opt = |n: &str| -> Option<String> { args.iter().position(|x| x == n).and_then(|i| args.get(i + 1).cloned()) };
    let has = |n: &str| args.iter().any(|x| x == n);
    let num = |n: &str, d: u64| opt(n).and_then(|x| x.parse().ok()).unwrap_or(d);
    STRICT.store(has("--strict-known"), std::sync::atomic::Ordering::Relaxed);
    std::panic::set_hook(Box::new(|i| { let s = i.to_string(); if s.contains("cannot unwind") || s.contains("unsafe precondition") || s.contains("panic in a") { diag(&s.replace('\n', " ")); } }));
    match args[0].as_str() {
        "info" => put(1, &format!("{{\"events\":{},\"wrapping\":{},\"hook\":{},\"pointer_bits\":{}}}", EVENTS, WRAPPING, HOOK, usize::BITS)),
        "run" => {
            let seed = num("--seed0", 1);
            let kinds: Vec<usize> = opt("--kinds").unwrap_or("0".into()).split(',').filter_map(|x| x.parse().ok()).collect();
            let mut live = |l: &str| put(3, l);
            let o = run_seed(opt("--prop").map(|x| prop(&x)).unwrap_or(0), seed, &kinds, num("--steps", 0) as usize, has("--no-overflow"), if has("--live") { Some(&mut live) } else { None });
            put(1, &run_json(&o, seed, has("--traces")));
        }
        "replay" => {
            let text = input(1);
            let o = if text.contains("!scenario") { scen::replay(&text) } else { replay(&text, has("--nofault"), num("--cloneaway", 0) as u8) };
            put(1, &replay_json(&o));
        }
        _ => {}
    }
}
