#[macro_use]
mod core;
mod alloc;
mod c_host;
mod c_io;
mod c_meta;
mod c_mix;
mod c_tile;
mod checks;
mod codec;
mod geo;
mod http;
mod io;
mod runner;
mod stack;
mod tiff;

#[global_allocator]
static A: alloc::Budget = alloc::Budget;

fn main() {
    http::raise_file_limit();
    std::process::exit(runner::main());
}
