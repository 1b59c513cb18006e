// The driver puts a hash of the sources in VERIF_SRC_HASH, so that a change of
// content is seen even when file times are not telling.
fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_SRC_HASH");
    println!("cargo:rustc-env=VERIF_SRC_HASH={}", std::env::var("VERIF_SRC_HASH").unwrap_or_default());
    println!("cargo:rustc-cfg=verif_hooks");
    println!("cargo:rustc-check-cfg=cfg(verif_hooks)");
}
