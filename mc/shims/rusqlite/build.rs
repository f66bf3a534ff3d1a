fn main() {
    println!("cargo:rustc-link-lib=dylib=sqlite3");
}
