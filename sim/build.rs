// Embeds the committed corpus.
use std::fmt::Write;
fn main() {
    let root = std::path::PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap());
    let mut out = String::new();
    for dir in ["corpus", "golden", "synth", "zstd"] {
        let d = root.join("data").join(dir);
        println!("cargo:rerun-if-changed={}", d.display());
        let mut names: Vec<_> = std::fs::read_dir(&d).map(|r| r.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        names.sort();
        writeln!(out, "pub static {}: &[(&str, &[u8])] = &[", dir.to_uppercase()).unwrap();
        for p in names {
            writeln!(out, "    ({:?}, include_bytes!({:?})),", p.file_name().unwrap().to_str().unwrap(), p.to_str().unwrap()).unwrap();
        }
        writeln!(out, "];").unwrap();
    }
    std::fs::write(std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("corpus.rs"), out).unwrap();
}
