//! Generates the crate root from the server's own main.rs, so that the simulated server is the code in
//! the working tree and nothing else.
use std::{env, fs, path::Path};
fn main() {
    let repo = "/repo";
    let src = format!("{repo}/server/src");
    println!("cargo:rerun-if-changed={src}/main.rs");
    println!("cargo:rerun-if-changed=build.rs");
    let text = fs::read_to_string(format!("{src}/main.rs")).expect("server/src/main.rs");
    let mut out = String::new();
    for line in text.lines() {
        let t = line.trim();
        if t.starts_with("#![") || t.starts_with("//!") {
            out.push('\n');
            continue;
        }
        // `mod x;` becomes a module at an absolute path
        let decl = t
            .strip_suffix(';')
            .and_then(|d| d.strip_prefix("pub mod ").or_else(|| d.strip_prefix("mod ")));
        if let Some(name) = decl {
            let p = if Path::new(&format!("{src}/{name}.rs")).exists() {
                format!("{src}/{name}.rs")
            } else {
                format!("{src}/{name}/mod.rs")
            };
            out.push_str(&format!("#[path = \"{p}\"] pub mod {name};\n"));
            continue;
        }
        out.push_str(line);
        out.push('\n');
    }
    out.push_str("\npub fn __sim_main() { main() }\n");
    let dst = env::var("OUT_DIR").unwrap();
    fs::write(format!("{dst}/root.rs"), out).unwrap();
    // what the server's own build script does
    let cwd = env::current_dir().unwrap();
    env::set_current_dir(format!("{repo}/server")).unwrap();
    println!("cargo:rerun-if-changed={repo}/server/help_text");
    libsky::build_scripts::format_help_txt("skyd", "help_text/help", Default::default()).unwrap();
    env::set_current_dir(cwd).unwrap();
}
