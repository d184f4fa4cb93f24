//! C12..: sources, models, reports and the cache, on an in-memory file system and web server.
use symrt::*;

mod names;
mod remote;
mod reports;
mod sources;
mod store;
mod whole;
mod zuul;

fn run(arg: u64) {
    symos::init();
    match arg / 100 {
        1 => names::run(arg % 100),
        2 => sources::run(arg % 100),
        3 => reports::run(arg % 100),
        4 => store::run(arg % 100),
        5 => remote::run(arg % 100),
        6 => zuul::run(arg % 100),
        7 => whole::run(arg % 100),
        _ => fail("no such case"),
    }
}
entry!(run);
