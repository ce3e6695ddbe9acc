#![allow(dead_code)]
#[path = "/repo/bfffs/src/bin/bfffs/pool_create_ast.rs"]
mod pool_create_ast;
lalrpop_util::lalrpop_mod!(pub pool_create_parser);
mod c_grammar;

fn main() { engine::main(vec![c_grammar::property()]) }
