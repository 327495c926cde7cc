#[path = "../../common/common.rs"]
#[macro_use]
mod common;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;

fn main() {
  common::main_with(&[("C13", c13::run), ("C14", c14::run), ("C15", c15::run), ("C16", c16::run), ("C17", c17::run)]);
}
