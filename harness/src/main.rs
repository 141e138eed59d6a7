mod alloc;
mod audio;
mod cli;
mod decode;
mod engine;
mod lossy;
mod media;
mod props;
mod refcomp;
mod refmatch;
mod refmodel;
mod session;
mod watch;

use engine::{Prop, Tier};
use props::audio_a::*;
use props::audio_b::*;
use props::cli::*;
use props::cost::*;
use props::decoded::*;
use props::fps::*;
use props::live::*;
use props::media::*;
use props::wide::*;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

enum Cmd {
    Check,
    Replay(String),
    Show(usize),
}

fn go<P: Prop>(p: P, cmd: &Cmd, tier: Tier, seed: u64) -> i32 {
    match cmd {
        Cmd::Check => engine::supervise(&p, tier, seed),
        Cmd::Replay(body) => engine::replay(&p, body),
        Cmd::Show(n) => {
            engine::show(&p, tier, seed, *n);
            0
        }
    }
}

fn dispatch(id: &str, cmd: &Cmd, tier: Tier, seed: u64) -> Option<i32> {
    macro_rules! table {
        ($($p:ident),* $(,)?) => {
            match id {
                $(stringify!($p) => Some(go($p, cmd, tier, seed)),)*
                _ => None,
            }
        };
    }
    table!(C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C20, C21, C22, C23, C24, C25, C26, C27, C28, C29, C30, C31, C32)
}

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let usage = || -> ! {
        eprintln!("usage: vh check ID | vh replay FILE | vh show ID N");
        std::process::exit(2)
    };
    let (id, cmd) = match args.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["decode", file] => std::process::exit(decode::decode_here(std::path::Path::new(file))),
        ["check", id] => (id.to_string(), Cmd::Check),
        ["show", id, n] => (id.to_string(), Cmd::Show(n.parse().unwrap_or(3))),
        ["replay", file] => {
            let body = std::fs::read_to_string(file).unwrap_or_else(|e| {
                eprintln!("ERROR: {file}: {e}");
                std::process::exit(2)
            });
            let id = serde_json::from_str::<serde_json::Value>(&body)
                .ok()
                .and_then(|v| v["property"].as_str().map(str::to_string))
                .unwrap_or_else(|| usage());
            (id, Cmd::Replay(body))
        }
        _ => usage(),
    };
    match dispatch(&id, &cmd, tier, seed) {
        Some(code) => std::process::exit(code),
        None => usage(),
    }
}
