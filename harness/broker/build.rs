fn main() {
    if std::env::var_os("CARGO_FEATURE_VERIF_HOOK").is_some() {
        println!("cargo:rustc-cfg=verif");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
