// The example becomes a module of the simulator; nothing but its inner doc comments is changed.
fn main() {
    let p = "../../../repo/examples/render-cube.rs";
    println!("cargo:rerun-if-changed={p}");
    println!("cargo:rerun-if-changed=build.rs");
    let s = std::fs::read_to_string(p).expect("the example");
    let s: String = s.lines().map(|l| format!("{}\n", if l.starts_with("//!") { l.replacen("//!", "//", 1) } else { l.into() })).collect();
    std::fs::write(format!("{}/example.rs", std::env::var("OUT_DIR").unwrap()), s).unwrap();
}
