fn main() {
    println!("cargo:rustc-env=VERIF_EMBED_ROOT=/repo/crates/validation");
    println!("cargo:rerun-if-changed=/repo/crates/validation/src/assets");
}
