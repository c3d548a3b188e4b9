use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=mcrt.c");
    println!("cargo:rerun-if-changed=race.h");
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/mcrt.o");
    let ok = Command::new("gcc").args(["-O2", "-g", "-fPIC", if std::env::var("CARGO_FEATURE_RACE").is_ok() { "-DRACE" } else { "-DNORACE" }, "-c", "mcrt.c", "-o", &o]).status().unwrap().success();
    assert!(ok);
    // linked as an object, so that its definitions of the blocking calls win
    println!("cargo:rustc-link-arg={o}");
    println!("cargo:rustc-link-arg=-Wl,--export-dynamic");
}
