fn main() {
    // Make the overridden `getrandom` visible to dlsym() as well (used by the getrandom 0.3 crate).
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
