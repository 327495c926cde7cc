#[path = "../../common/common.rs"]
#[macro_use]
mod common;
mod cache;

fn main() {
  common::main_with(&[("C09", cache::run)]);
}
