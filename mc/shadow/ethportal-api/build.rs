fn main() {
    for (k, v) in [
        ("VERGEN_GIT_SHA", "0123456789abcdef0123456789abcdef01234567"),
        ("VERGEN_GIT_SHA_SHORT", "01234567"),
        ("TRIN_VERSION", "0.3.3"),
        ("TRIN_BUILD_OPERATING_SYSTEM", "linux"),
        ("TRIN_BUILD_ARCHITECTURE", "x86_64"),
        ("VERGEN_RUSTC_SEMVER", "1.87.0"),
        ("TRIN_FULL_VERSION", "0.3.3-01234567 linux-x86_64 rustc1.87.0"),
    ] {
        println!("cargo:rustc-env={k}={v}");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
