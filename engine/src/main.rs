mod diff;
mod exec;
mod expr;
mod ir;
mod mem;
mod z3;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}
fn main() {
    let t = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    if t.join().is_err() { unsafe { _exit(101) } }
}
fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String { args.iter().position(|a| a == k).map(|i| args[i + 1].clone()).unwrap_or(d.to_string()) };
    if args.iter().any(|a| a == "--version") { println!("z3 {}", z3::version()); return; }
    if args.iter().any(|a| a == "--selftest") { expr::selftest(get("--selftest", "1000").parse().unwrap()); println!("selftest ok"); return; }
    let ll = get("--ll", "");
    let entry = get("--entry", "h_main");
    let outp = get("--out", "/dev/stdout");
    let cfg = exec::Cfg {
        jobs: get("--jobs", "8").parse().unwrap(),
        time: get("--time", "300").parse().unwrap(),
        max_insts: get("--max-insts", "100000000").parse().unwrap(),
        max_viol: get("--max-viol", "12").parse().unwrap(),
        samples: get("--samples", "20").parse().unwrap(),
        known: get("--known", "").split('\x1f').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
        trace: get("--trace", "0") == "1",
        show_over: get("--show-over", "0").parse().unwrap(),
        check_fast: get("--check-fast", "0") == "1",
        split: get("--split", "0") == "1",
        watch: get("--watch", "").split(',').filter_map(|s| s.parse().ok()).collect(),
    };
    let out = if outp == "/dev/stdout" { std::fs::OpenOptions::new().write(true).open("/dev/stdout").unwrap() } else { let _ = std::fs::remove_file(&outp); std::fs::OpenOptions::new().create(true).append(true).open(&outp).unwrap() };
    let sh = unsafe { exec::Shared(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut AtomicU64) };
    sh.at(exec::ACTIVE).store(1, SeqCst);
    let prog = ir::Program::load(&ll);
    let mut e = exec::Engine::new(prog, cfg, sh, out);
    e.run_entry(&entry);
    e.sh.at(exec::ACTIVE).fetch_sub(1, SeqCst);
    e.stats();
    let mut bad = 0;
    for p in e.children.clone() {
        let mut s = 0;
        unsafe { waitpid(p, &mut s, 0) };
        if s != 0 { bad = 1; }
    }
    if bad != 0 { let m = "{\"t\":\"crash\"}".to_string(); e.emit(m); }
    unsafe { _exit(if e.root { 0 } else { 0 }) }
}
