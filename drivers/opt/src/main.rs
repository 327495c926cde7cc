#[path = "../../common/common.rs"]
#[macro_use]
mod common;
mod c10;
mod c11;
mod c12;

fn main() {
  common::main_with(&[("C10", c10::run), ("C11", c11::run), ("C12", c12::run)]);
}
