// Links the engine against the LLVM that ships with the toolchain /repo is
// built with (so that its bitcode can be read) and against the system z3.
use std::{env, fs, path::PathBuf};
fn main() {
    let home = env::var("RUSTUP_HOME").unwrap_or_else(|_| format!("{}/.rustup", env::var("HOME").unwrap_or("/root".into())));
    let tc = env::var("SVX_TOOLCHAIN").unwrap_or("nightly-2026-08-21-x86_64-unknown-linux-gnu".into());
    let lib = PathBuf::from(home).join("toolchains").join(tc).join("lib");
    // the linker wants a lib<name>.so name.
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let so = fs::read_dir(&lib).expect("toolchain lib dir").filter_map(|e| e.ok())
        .map(|e| e.path()).find(|p| p.file_name().unwrap().to_string_lossy().starts_with("libLLVM.so."))
        .expect("libLLVM.so in toolchain");
    let link = out.join("libSVXLLVM.so");
    let _ = fs::remove_file(&link);
    std::os::unix::fs::symlink(&so, &link).unwrap();
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=dylib=SVXLLVM");
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib.display());
    println!("cargo:rerun-if-env-changed=SVX_TOOLCHAIN");
    println!("cargo:rerun-if-changed=build.rs");
}
