//! Native replay of a counterexample or of a sampled path: `replay ENTRY JOB HEXVALS`.
//! Runs the same harness on the real code, compiled by rustc, with the real regex / phf crates.
//! Exit status: 0 all assertions held, 1 assertion failed, 3 an assumption is false for these values,
//! 101 panic.  The caller applies a time limit.
#![allow(dead_code)]
pub mod cfg;
pub mod gen;
pub mod rt;
pub mod tok;
mod t0;
mod p1;
mod p2;
mod p3;
mod p4;
mod p5;
mod p6;
mod p7;
mod p8;
mod p9;
mod p10;
mod p11;
mod p12;
pub mod cli;
mod refp;
mod entries;
use entries::ENTRIES;

fn main() {
    if std::env::var_os("LUAFMT_REPLAY_CLI").is_some() {
        return cli::run();
    }
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        for (n, _, j) in ENTRIES {
            println!("{} {}", n, j());
        }
        return;
    }
    let e = ENTRIES.iter().find(|e| e.0 == a[1]).expect("no such entry");
    let job: u32 = a[2].parse().unwrap();
    let hex = if a.len() > 3 { a[3].as_str() } else { "" };
    let vals: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    rt::native::JOB.with(|j| *j.borrow_mut() = job);
    rt::native::VALS.with(|v| *v.borrow_mut() = (vals, 0));
    std::panic::set_hook(Box::new(|i| {
        println!("PANIC {}", format!("{}", i).replace('\n', " "));
        rt::native::cleanup();
        std::process::exit(101);
    }));
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn({
        let f = e.1;
        let vals = rt::native::VALS.with(|v| v.borrow().clone());
        move || {
            rt::native::JOB.with(|j| *j.borrow_mut() = job);
            rt::native::VALS.with(|v| *v.borrow_mut() = vals);
            f();
            rt::native::FAILED.with(|x| *x.borrow())
        }
    });
    let r = h.unwrap().join();
    rt::native::cleanup();
    match r {
        Ok(false) => println!("REPLAY-OK"),
        Ok(true) => std::process::exit(1),
        Err(_) => {
            println!("PANIC");
            std::process::exit(101)
        }
    }
}
