//! With feature `oid`: makes the source of the procedural macro der-oid-macro available as a
//! plain module (same code, compiled without the `#[proc_macro]` attribute).
use std::{env, fs, path::Path};

fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let p = e.unwrap().path();
        let t = to.join(p.file_name().unwrap());
        if p.is_dir() {
            copy(&p, &t);
        } else if let Ok(s) = fs::read_to_string(&p) {
            let s: Vec<&str> = s
                .lines()
                .filter(|l| {
                    let l = l.trim();
                    !(l == "#[proc_macro]" || l.starts_with("//!") || l.starts_with("#![") || l == "extern crate proc_macro;")
                })
                .collect();
            fs::write(&t, s.join("\n") + "\n").unwrap();
        }
    }
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    if env::var_os("CARGO_FEATURE_OID").is_some() {
        let src = Path::new("/repo/der-oid-macro/src");
        println!("cargo:rerun-if-changed={}", src.display());
        copy(src, &Path::new(&env::var("OUT_DIR").unwrap()).join("oid"));
    }
}
