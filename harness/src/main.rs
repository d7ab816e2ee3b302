#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod conc;
mod fsim;
mod gen;
mod model;
mod props;
mod observe;
mod runner;
mod slow;
mod terms;
mod world;

use runner::Tier;
use std::path::PathBuf;

macro_rules! props {
    ($( $t:ty ),* $(,)?) => {
        fn dispatch(id: &str, cmd: Cmd) -> i32 {
            use runner::Prop;
            $( if id == <$t>::ID { return run::<$t>(cmd); } )*
            eprintln!("no check for {}", id);
            2
        }
        fn ids() -> Vec<&'static str> {
            use runner::Prop;
            vec![$(<$t>::ID),*]
        }
    };
}

enum Cmd {
    Check(Tier, u64),
    Shard(Tier, u64, u64, u64, PathBuf),
    ReplayOne(PathBuf, Option<PathBuf>, Option<PathBuf>, bool),
    Samples(u64, u32),
}

fn run<P: runner::Prop>(cmd: Cmd) -> i32 {
    match cmd {
        Cmd::Check(t, s) => runner::check::<P>(t, s),
        Cmd::Shard(t, s, i, n, d) => runner::shard::<P>(t, s, i, n, &d),
        Cmd::ReplayOne(f, o, s, v) => runner::replay_one::<P>(&f, o.as_deref(), s.as_deref(), v),
        Cmd::Samples(s, n) => {
            runner::print_samples::<P>(s, n);
            0
        }
    }
}

props!(
    props::history::C01,
    props::history::C02,
    props::history::C03,
    props::changes::C04,
    props::changes::C05,
    props::changes::C06,
    props::changes::C07,
    props::changes::C08,
    props::changes::C19,
    props::labels::C11,
    props::builder::C15,
    props::listing::C18,
    props::packs::C09,
    props::packs::C20,
    props::kinds::C10,
    props::kinds::C21,
    props::races::C12,
    props::shared::C16,
    props::lru::C17,
    props::faults::C13,
    props::faults::C14,
    props::files::C22,
);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let seed = || std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let code = match a(1) {
        "check" => {
            terms::self_check();
            let t = tier(&std::env::var("VERIF_TIER").unwrap_or_default());
            dispatch(a(2), Cmd::Check(t, seed()))
        }
        "shard" => dispatch(
            a(2),
            Cmd::Shard(tier(a(3)), a(4).parse().unwrap(), a(5).parse().unwrap(), a(6).parse().unwrap(), a(7).into()),
        ),
        "replay" => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(a(2)).expect("read replay")).expect("parse replay");
            let id = v["property"].as_str().unwrap_or("").to_string();
            dispatch(&id, Cmd::ReplayOne(a(2).into(), None, None, true))
        }
        "replay-one" => dispatch(a(2), Cmd::ReplayOne(a(3).into(), Some(a(4).into()), Some(a(5).into()), false)),
        "samples" => dispatch(a(2), Cmd::Samples(seed(), 10)),
        "list" => {
            for i in ids() {
                println!("{}", i);
            }
            0
        }
        _ => {
            eprintln!("usage: tsverif check ID | replay FILE | samples ID | list");
            2
        }
    };
    std::process::exit(code);
}
