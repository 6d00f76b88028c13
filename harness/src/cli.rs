//! The command-line program of the code under test, from its source.
#![allow(dead_code)]
include!("/repo/src/main.rs");
pub fn run() {
    main();
    use std::io::Write;
    let _ = io::stdout().flush();
}
