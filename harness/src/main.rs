#![allow(dead_code)]
mod cli;
mod cli_props;
mod codec_props;
mod conn;
mod conn_props;
mod core;
mod e2e;
mod iso;
mod life;
mod limits;
mod mini;
mod msg;
mod net;
mod raw;
mod share;
mod srv_props;
mod svc;

use crate::core::*;
use std::time::Duration;

#[global_allocator]
static ALLOC: Counting = Counting;

macro_rules! sc {
    ($($name:literal $q:literal $t:literal $f:path),* $(,)?) => { vec![$(Scenario { name: $name, quick: $q, thorough: $t, run: $f }),*] };
}

fn scenarios(id: &str) -> Vec<Scenario> {
    match id {
        "C01" => sc![
            "segments" 17500 105000 conn_props::c01_segments,
            "burst" 2800 16800 conn_props::c01_burst,
            "large" 420 2520 conn_props::c01_large,
            "splits" 840 5040 conn_props::c01_splits,
            "long" 16 100 life::c01_long,
        ],
        "C02" => sc![
            "out" 14000 60000 conn_props::c02_out,
            "queue" 3000 16000 conn_props::c02_queue,
            "senders" 500 2500 conn_props::c02_senders,
            "long" 16 100 life::c02_long,
        ],
        "C03" => sc![
            "stalls" 7500 45000 conn_props::c03_stalls,
            "wedged" 2500 15000 conn_props::c03_wedged,
            "echo" 2500 15000 conn_props::c03_echo,
        ],
        "C04" => sc![
            "eof" 17500 105000 conn_props::c04_eof,
            "sender-drop" 10500 63000 conn_props::c04_sender_drop,
        ],
        "C05" => sc![
            "at-limit" 8400 50400 conn_props::c05_limit_ok,
            "in-oversize" 7000 42000 conn_props::c05_in_oversize,
            "invalid" 5600 33600 conn_props::c05_invalid,
            "out-oversize" 5600 33600 conn_props::c05_out_oversize,
        ],
        "C06" => sc![
            "backpressure" 1200 7200 conn_props::c06_backpressure,
            "flood" 240 1440 conn_props::c06_flood,
            "growth" 800 4800 conn_props::c06_growth,
            "announced" 400 2400 codec_props::c06_announced,
        ],
        "C07" => sc![
            "fate" 17280 103680 conn_props::c07_fate,
        ],
        "C08" => sc![
            "round" 21000 126000 codec_props::c08_round,
            "stream" 7000 42000 codec_props::c08_stream,
            "nonminimal" 14000 84000 codec_props::c08_nonminimal,
            "socket" 2100 12600 codec_props::c08_socket,
        ],
        "C09" => sc![
            "round" 4500 80000 codec_props::c09_round,
            "stream" 1500 30000 codec_props::c09_stream,
            "frames" 6000 100000 codec_props::c09_frames,
            "socket" 450 6000 codec_props::c09_socket,
        ],
        "C10" => sc![
            "codec" 400000 2000000 codec_props::c10_codec,
            "server" 30000 180000 codec_props::c10_server,
            "client" 30000 180000 codec_props::c10_client,
        ],
        "C11" => sc![
            "unary" 3600 21600 cli_props::c11_unary,
            "long" 16 100 life::c11_long,
            "stress" 540 3240 e2e::stress,
        ],
        "C12" => sc![
            "streams" 2000 12000 cli_props::c12_streams,
            "long" 16 100 life::c12_long,
            "stress" 300 2000 e2e::stress,
            "stress-loss" 300 2000 e2e::stress_loss,
        ],
        "C14" => sc![
            "loss" 9800 58800 cli_props::c14_loss,
            "race" 420 2520 e2e::race,
            "stress-loss" 420 2520 e2e::stress_loss,
        ],
        "C22" => sc![
            "junk" 4000 24000 cli_props::c22_junk,
        ],
        "C13" => sc![
            "client" 3200 19200 cli_props::c13_client,
            "room" 400 2400 life::c13_room,
            "long" 16 100 life::c13_long,
            "stress" 480 2880 e2e::stress,
            "server" 3200 19200 srv_props::c13_server,
        ],
        "C15" => sc![
            "dispatch" 1400 12000 srv_props::c15_dispatch,
            "long" 16 100 life::c15_long,
            "codes" 1400 12000 srv_props::c15_codes,
        ],
        "C16" => sc![
            "close" 4000 24000 srv_props::c16_close,
            "stress-loss" 600 3600 e2e::stress_loss,
        ],
        "C17" => sc![
            "slow" 400 3000 srv_props::c17_slow,
        ],
        "C18" => sc![
            "reuse" 3600 21600 srv_props::c18_reuse,
            "client-reuse" 1800 10800 cli_props::c18_client,
            "client-memory" 192 1152 cli_props::c18_client_memory,
            "server-memory" 144 864 srv_props::c18_server_memory,
        ],
        "C19" => sc![
            "rpc" 2400 15000 iso::c19_rpc,
            "server" 2400 15000 iso::c19_server,
            "crowd" 24 144 life::c19_crowd,
        ],
        "C23" => sc![
            "inbound" 120 1500 share::c23_inbound,
            "outbound" 120 1500 share::c23_outbound,
            "streams" 300 4000 share::c23_streams,
        ],
        "C24" => sc![
            "conn" 250 8000 share::c24_conn,
            "server" 120 4000 share::c24_server,
            "client" 120 4000 share::c24_client,
        ],
        "C25" => sc![
            "conn" 5000 30000 share::c25_conn,
            "rpc" 3000 18000 share::c25_rpc,
            "nodelay" 300 1800 share::c25_nodelay,
        ],
        // C21 under Miri
        "C21m" => sc![
            "codec" 12 200 mini::codec,
            "conn" 24 400 mini::conn,
            "rpc" 6 80 mini::rpc,
            "client" 6 80 mini::client,
        ],
        // the same with larger messages
        "C21l" => sc![
            "partial" 1 6 mini::partial,
            "large" 1 6 mini::large,
        ],
        // C21 natively, under the sanitizers
        "C21s" => sc![
            "stress" 60 2000 e2e::stress,
            "stress-loss" 80 2500 e2e::stress_loss,
            "race" 40 1500 e2e::race,
            "segments" 300 8000 conn_props::c01_segments,
            "large" 12 200 conn_props::c01_large,
            "out" 200 6000 conn_props::c02_out,
            "senders" 24 600 conn_props::c02_senders,
            "wedged" 60 2000 conn_props::c03_wedged,
            "eof" 200 6000 conn_props::c04_eof,
            "at-limit" 150 4000 conn_props::c05_limit_ok,
            "in-oversize" 100 3000 conn_props::c05_in_oversize,
            "fate" 200 4000 conn_props::c07_fate,
            "prost-round" 200 6000 codec_props::c08_round,
            "msgpack-round" 200 6000 codec_props::c09_round,
            "msgpack-frames" 300 9000 codec_props::c09_frames,
            "codec" 800 30000 codec_props::c10_codec,
            "streams" 60 1500 cli_props::c12_streams,
            "loss" 100 3000 cli_props::c14_loss,
            "client-reuse" 40 1000 cli_props::c18_client,
            "dispatch" 40 1000 srv_props::c15_dispatch,
            "close" 60 1500 srv_props::c16_close,
            "reuse" 60 1500 srv_props::c18_reuse,
            "server-mix" 60 1500 iso::c19_server,
        ],
        "C20" => sc![
            "rpc-server" 500 4000 limits::c20_rpc_server,
            "server" 500 4000 limits::c20_server,
            "client" 500 4000 limits::c20_client,
            "registry" 500 4000 limits::c20_registry,
            "defaults" 16 64 limits::c20_defaults,
            "connector" 1 1 limits::c20_connector,
        ],
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut tier = Tier::Quick;
    let mut seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let mut evidence = String::new();
    let mut only = None;
    let mut scale = 1.0;
    let mut workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    let mut cap = 0u64;
    let mut findings = String::new();
    let mut shard = (0, 1);
    let id = a.get(1).cloned().unwrap_or_default();
    if id == "version" {
        println!("psmon");
        return;
    }
    let mut i = 2;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--tier" => tier = if v == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => seed = v.parse().expect("seed"),
            "--evidence" => evidence = v,
            "--only" => {
                let (s, n) = v.split_once(':').expect("scenario:index");
                only = Some((s.to_string(), n.parse().expect("index")));
            }
            "--shard" => {
                let (k, n) = v.split_once('/').expect("k/n");
                shard = (k.parse().expect("k"), n.parse().expect("n"));
            }
            "--findings" => findings = v,
            "--scale" => scale = v.parse().expect("scale"),
            "--workers" => workers = v.parse().expect("workers"),
            "--cap" => cap = v.parse().expect("cap"),
            x => panic!("unknown argument {x}"),
        }
        i += 2;
    }
    if evidence.is_empty() {
        evidence = format!("/tmp/psmon-{id}.json");
    }
    if cap == 0 {
        cap = if tier == Tier::Quick { 240 } else { 3000 };
    }
    let replays = std::path::Path::new(&evidence).parent().map(|p| p.join("replays").display().to_string()).unwrap_or("replays".into());
    // lines "finding: property=<id> key=<key> ..."
    let findings = std::fs::read_to_string(&findings)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("finding: property={id} key=")))
        .filter_map(|l| l.split_whitespace().next().map(String::from))
        .collect();
    install_panic_hook();
    let o = Opts { id: id.clone(), tier, seed, evidence, workers, cap: Duration::from_secs(cap), only, scale, replays, findings, shard };
    let cases = scenarios(&id);
    match std::env::var("PSMON_CHILD") {
        Ok(notes) if !notes.is_empty() => keep_notes(&notes),
        Ok(_) => (),
        Err(_) if cfg!(miri) => (),
        Err(_) => std::process::exit(supervise(&o, &a[1..])),
    }
    let rep = run(&o, &cases);
    std::process::exit(if !rep.violations.is_empty() {
        1
    } else if rep.evaluations == 0 {
        3
    } else {
        0
    });
}
