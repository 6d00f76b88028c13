fn main() {
    println!("cargo:rustc-link-lib=z3");
}
