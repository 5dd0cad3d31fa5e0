mod ctx;
mod dec;
mod enc;
mod json;
mod raw;
mod replay;
mod rng;
mod run;
mod scene;
mod search;
mod finds;
mod exports;
mod greys;
mod shapes;
mod triage;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: rqv SUITE SEED quick|thorough DIR [SHARDS]");
        std::process::exit(2);
    }
    let seed: u64 = args[2].parse().expect("seed");
    let thorough = args[3] == "thorough";
    let shards = args.get(5).map(|s| s.parse().unwrap()).unwrap_or(8);
    run::install_hook();
    let mut cx = ctx::Ctx::new(&args[4], seed, thorough, shards);
    match args[1].as_str() {
        "clean" => dec::clean(&mut cx),
        "damage" => dec::damage(&mut cx),
        "beyond" => dec::beyond(&mut cx),
        "segments" => dec::segments(&mut cx),
        "writers" => dec::writers(&mut cx),
        "mirror" => dec::mirror(&mut cx),
        "anygrid" => dec::anygrid(&mut cx),
        "format" => raw::format(&mut cx),
        "fmtsym" => raw::format_symbols(&mut cx),
        "raw" => raw::raw(&mut cx),
        "placed" => finds::placed(&mut cx),
        "tilted" => finds::tilted(&mut cx),
        "amid" => finds::cluttered(&mut cx),
        "several" => finds::several(&mut cx),
        "regions" => finds::regions(&mut cx),
        "crowd" => finds::crowd(&mut cx),
        "copies" => finds::copies(&mut cx),
        "greysearch" => greys::grey_search(&mut cx),
        "binarise" => greys::binarise(&mut cx),
        "replay" => replay::symbols(&mut cx),
        "exports" => exports::exports(&mut cx),
        "chaos" => finds::chaos(&mut cx),
        s => {
            eprintln!("unknown suite {s}");
            std::process::exit(2);
        }
    }
    cx.finish();
}
