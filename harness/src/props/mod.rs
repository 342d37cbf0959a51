use crate::frame::Prop;

pub mod blocks;
pub mod build;
pub mod cli;
pub mod cost;
pub mod exercise;
pub mod front;
pub mod legacy;
pub mod grammar;
pub mod mem;
pub mod mem_prop;
pub mod parse;
pub mod pure;
pub mod scalars;
pub mod ser;
pub mod total;

pub static ALL: &[&Prop] = &[
    &total::C01,
    &parse::C02,
    &parse::C03,
    &grammar::C04,
    &scalars::C05,
    &scalars::C06,
    &scalars::C07,
    &scalars::C08,
    &parse::C09,
    &parse::C10,
    &blocks::C11,
    &legacy::C12,
    &legacy::C13,
    &ser::C14,
    &ser::C15,
    &parse::C16,
    &cli::C17,
    &cost::C18,
    &pure::C19,
    &mem_prop::C20,
    &legacy::C21,
    &cost::C22,
    &front::C23,
    &front::C24,
    &front::C25,
    &build::C26,
];

pub fn child(args: &[String]) -> i32 {
    if args.first().map(String::as_str) == Some("pure") {
        return pure::child();
    }
    total::child(args)
}
