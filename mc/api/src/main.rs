mod cursor;
mod ecdh;
mod equality;
mod keys;
mod misc;
mod parse;
mod sig;
mod tweak;
use engine::*;
#[global_allocator]
static A: misc::Watcher = misc::Watcher;
fn main() {
    let run = Run::from_args();
    run.clone().whole(|| match run.prop.as_str() {
        "C01" => keys::c01(&run),
        "C02" => keys::c02(&run),
        "C03" => keys::c03(&run),
        "C04" => sig::c04(&run),
        "C05" => sig::c05(&run),
        "C06" => sig::c06(&run),
        "C07" => ecdh::c07(&run),
        "C08" => parse::c08(&run),
        "C09" => parse::c09(&run),
        "C10" => parse::c10(&run),
        "C12" => tweak::c12(&run),
        "C13" => tweak::c13(&run),
        "C20" => misc::c20(&run),
        "C21" => misc::c21(&run),
        "C23" => misc::c23(&run),
        "C22" => parse::c22(&run),
        "C26" => cursor::c26(&run),
        "C11" => sig::c11(&run),
        "C28" => equality::c28(&run),
        _ => { eprintln!("unknown property"); std::process::exit(2) }
    })
}
