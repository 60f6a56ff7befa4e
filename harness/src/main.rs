//! gxcheck: property-based checks of graphrox.
mod alloc;
mod fw;
mod gen;
mod model;
mod props;
mod views;

use fw::{RunArgs, Tier, WorkerArgs};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1))
        .cloned()
}

fn need(args: &[String], name: &str) -> String {
    opt(args, name).unwrap_or_else(|| {
        eprintln!("missing {name}");
        std::process::exit(2)
    })
}

fn dispatch<P: fw::Prop>(args: &[String]) -> i32 {
    let tier = match opt(args, "--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let num = |n: &str| -> u64 { need(args, n).parse().expect("number") };
    match args[0].as_str() {
        "worker" => fw::worker::<P>(WorkerArgs {
            tier,
            seed: num("--seed"),
            shard: num("--shard"),
            shards: num("--shards"),
            out: need(args, "--out"),
            progress: need(args, "--progress"),
            isolate: opt(args, "--isolate").map(|s| s.parse().expect("number")),
        }),
        "run" => fw::run::<P>(RunArgs {
            tier,
            seed: num("--seed"),
            evidence: need(args, "--evidence"),
            replays: need(args, "--replays"),
            scratch: need(args, "--scratch"),
            corpus: need(args, "--corpus"),
        }),
        "replay" => fw::replay::<P>(&args[2]),
        _ => 2,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.len() < 2 {
        eprintln!("usage: gxcheck run|worker|replay PROPERTY ...");
        std::process::exit(2);
    }
    macro_rules! props {
        ($($p:path),* $(,)?) => {
            match args[1].as_str() {
                $(x if x == <$p as fw::Prop>::ID => dispatch::<$p>(&args),)*
                other => { eprintln!("unknown property {other}"); 2 }
            }
        };
    }
    let code = props!(
        props::graph::P01,
        props::graph::P02,
        props::graph::P03,
        props::bytes::P04,
        props::bytes::P05,
        props::bytes::P06,
        props::bytes::P07,
        props::compress::P08,
        props::compress::P09,
        props::pool::P10,
        props::pool::P11,
        props::matrix::P12,
        props::matrix::P13,
        props::matrix::P14,
        props::matrix::P15,
        props::extreme::P16,
        props::compress::P17,
        props::capi::P18,
        props::capi::P19,
        props::capi::P20,
        props::capi::P21,
        props::threads::P27,
        props::threads::P28,
    );
    std::process::exit(code);
}
