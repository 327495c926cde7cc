// Functions of the repository that are private and live in modules too entangled to include whole are
// picked out of their source files, unedited, so that the driver runs their real text.
use std::path::Path;
use std::process::Command;

const PICKS: &[(&str, &str, &[&str])] = &[
  ("alloc", "/repo/hir-js/src/lower.rs", &["allocate_def_id", "allocate_body_id"]),
  ("synth", "/repo/typecheck-ts/src/program/sem_hir_builder.rs", &["alloc_synthetic_def_id"]),
  ("intern", "/repo/hir-js/src/intern.rs", &[]),
  ("files", "/repo/typecheck-ts/src/files.rs", &[]),
];

fn main() {
  let out = std::env::var("OUT_DIR").unwrap();
  let pick = Path::new(env!("CARGO_MANIFEST_DIR")).join("../../tools/pick.py");
  println!("cargo:rerun-if-changed={}", pick.display());
  println!("cargo:rerun-if-changed=build.rs");
  for (tag, file, names) in PICKS {
    println!("cargo:rerun-if-changed={file}");
    println!("cargo:rustc-check-cfg=cfg(have_{tag})");
    let text = if names.is_empty() {
      std::fs::read_to_string(file).ok()
    } else {
      let r = Command::new("python3").arg(&pick).arg(file).args(*names).output().expect("python3");
      r.status.success().then(|| String::from_utf8(r.stdout).unwrap())
    };
    if let Some(t) = text {
      std::fs::write(Path::new(&out).join(format!("{tag}.rs")), t).unwrap();
      println!("cargo:rustc-cfg=have_{tag}");
    }
  }
}
