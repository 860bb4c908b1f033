//! Native replay: `replay ENTRY INPUT...` runs a harness natively on recorded
//! inputs and reports what happened, one event per line.
//! `replay --batch` reads lines `ENTRY INPUT...` from stdin and forks per line.
use std::io::Write;
use std::sync::Mutex;
static INPUTS: Mutex<(Vec<u64>, usize)> = Mutex::new((Vec::new(), 0));
fn say(s: &str) {
    let mut o = std::io::stdout();
    let _ = writeln!(o, "{}", s);
    let _ = o.flush();
}
fn next() -> u64 {
    let mut g = match INPUTS.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    let i = g.1;
    g.1 += 1;
    if i >= g.0.len() {
        drop(g);
        say("EXHAUSTED");
        std::process::exit(4);
    }
    g.0[i]
}
#[no_mangle]
pub extern "C" fn sym_u8() -> u8 {
    next() as u8
}
#[no_mangle]
pub extern "C" fn sym_u16() -> u16 {
    next() as u16
}
#[no_mangle]
pub extern "C" fn sym_u32() -> u32 {
    next() as u32
}
#[no_mangle]
pub extern "C" fn sym_u64() -> u64 {
    next()
}
#[no_mangle]
pub extern "C" fn sym_choose(n: u32) -> u32 {
    let v = next() as u32;
    if v >= n {
        say("BADCHOICE");
        std::process::exit(4);
    }
    v
}
#[no_mangle]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        say("INFEASIBLE");
        std::process::exit(0);
    }
}
#[no_mangle]
pub extern "C" fn sym_assert(c: bool, id: u32) {
    if !c {
        say(&format!("FAIL {}", id));
    }
}
#[no_mangle]
pub extern "C" fn sym_fail(id: u32) {
    say(&format!("FAIL {}", id));
}
#[no_mangle]
pub extern "C" fn sym_reach(_id: u32) {}
#[no_mangle]
pub extern "C" fn sym_observe(v: u64) {
    say(&format!("OBS {}", v));
}
#[no_mangle]
pub extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn sym_done() -> ! {
    say("DONE");
    std::process::exit(0);
}
#[no_mangle]
pub unsafe extern "C" fn sym_log(p: *const u8, n: usize) {
    let s = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
    say(&format!("LOG {:?}", s));
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace('\n', " ");
        say(&format!("PANIC {}", m));
        std::process::exit(3);
    }));
    if a.is_empty() {
        for (n, _) in harness::TABLE {
            println!("{}", n);
        }
        return;
    }
    let f = match harness::TABLE.iter().find(|(n, _)| *n == a[0]) {
        Some(f) => f.1,
        None => {
            say("NOENTRY");
            std::process::exit(5);
        }
    };
    INPUTS.lock().unwrap().0 = a[1..].iter().map(|x| x.parse::<u128>().unwrap() as u64).collect();
    // the main thread's stack size is what an ordinary program has
    f();
    say("DONE");
}
