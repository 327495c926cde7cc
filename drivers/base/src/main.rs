#[path = "../../common/common.rs"]
#[macro_use]
mod common;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod tygen;
/// what the sources included by c06 expect at their crate root
#[allow(dead_code, unused, unexpected_cfgs)]
#[path = "/repo/hir-js/src/ids.rs"]
mod ids;
mod hir {
  pub use hir_js::BodyKind;
}
mod api {
  pub use diagnostics::FileId;
  #[derive(Clone, PartialEq, Eq, Hash, Debug)]
  pub struct FileKey(pub std::sync::Arc<str>);
  impl FileKey {
    pub fn new(k: &str) -> Self {
      FileKey(k.into())
    }
    pub fn as_str(&self) -> &str {
      &self.0
    }
  }
}

fn main() {
  common::main_with(&[("C01", c01::run), ("C02", c02::run), ("C03", c03::run), ("C04", c04::run), ("C05", c05::run), ("C06", c06::run), ("C07", c07::run), ("C08", c08::run)]);
}
