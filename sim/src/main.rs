mod choice;
mod client;
mod entropy;
mod exec;
mod frame;
mod run;
mod supervise;
mod val;
mod wire;

use choice::Choices;
use run::{Check, Harness, Options, Outcome};
use std::path::PathBuf;
use std::time::Duration;

fn wire_run(property: &str, c: &mut Choices, trace: bool) -> Outcome {
    wire::run(&wire::ops::profile(property), c, trace)
}

const WIRE: Harness = Harness {
    name: "wire",
    run: wire_run,
    share: 100,
};

fn client_run(property: &str, c: &mut Choices, trace: bool) -> Outcome {
    client::run(&client::profile(property), c, trace)
}

const CLIENT: Harness = Harness {
    name: "client",
    run: client_run,
    share: 100,
};

const BROKER_RULE: &str = "one case = one simulated run: a seeded workload (operations, parameters, faults) and a seeded schedule over broker, connection tasks and transport events; non-trivial = at least 8 messages were processed; distinct = distinct sequence of scheduled actions";

fn share(h: Harness, share: u32) -> Harness {
    Harness { share, ..h }
}

fn checks() -> Vec<Check> {
    let mut out = Vec::new();
    // Share of the runs that drive real clients through the public API.
    for (property, clients) in [
        ("C02", 15),
        ("C03", 15),
        ("C04", 40),
        ("C05", 40),
        ("C09", 15),
        ("C10", 25),
        ("C11", 0),
        ("C12", 25),
    ] {
        let mut harnesses = vec![share(WIRE, 100 - clients)];
        if clients > 0 {
            harnesses.push(share(CLIENT, clients));
        }
        out.push(Check {
            property,
            harnesses,
            level: "exploration",
            rule: BROKER_RULE,
            real: &["aldrin_broker::Broker", "aldrin_broker::Acceptor", "aldrin_broker::Connection", "aldrin_core message codec and value conversion", "client harness (all but C11): aldrin::Client, handles, resources, aldrin_core channels, TokioTransport, Buffered"],
            stub: &["wire harness: transports (simulated FIFO links) and clients (scripted protocol peers)", "client harness: applications (seeded actors), transport faults", "executor", "entropy"],
            assumptions: &["the reference model in sim/src/wire/model.rs states the protocol"],
        });
    }
    out.push(Check {
        property: "C14",
        harnesses: vec![
            Harness { name: "packet", run: frame::run_packet, share: 30 },
            Harness { name: "stream", run: frame::run_stream, share: 70 },
        ],
        level: "exploration",
        rule: "one case = one simulated run: frames fed to a packetizer in seeded pieces, or two transports exchanging seeded messages over a simulated byte pipe with a seeded schedule of short, pending and failing I/O; non-trivial = at least two messages came out; distinct = distinct sequence of pieces or scheduled actions",
        real: &["aldrin_core::message::Packetizer", "aldrin_core::tokio::TokioTransport", "aldrin_core::transport adapters (Buffered, MapError, boxed, Box, Pin, &mut, AsyncTransportExt futures)", "aldrin_core message codec"],
        stub: &["the I/O object (simulated duplex byte pipe)", "executor", "the two applications"],
        assumptions: &["an I/O object wakes the task whose context it was polled with"],
    });
    for property in ["C06", "C15", "C19"] {
        out.push(Check {
            property,
            harnesses: vec![CLIENT],
            level: "exploration",
            rule: "one case = one simulated run: a seeded workload of public API operations by several applications, with seeded faults and a seeded schedule over broker, connection, client and application tasks; non-trivial = at least 8 messages were processed; distinct = distinct sequence of scheduled tasks",
            real: &["aldrin::Client, Handle, Object, Service, Proxy, channels, BusListener, Discoverer, Lifetime, promises and replies", "aldrin_broker::Broker, Connection", "aldrin_core channels, TokioTransport, Buffered and codec"],
            stub: &["applications (seeded actors)", "executor", "entropy", "transport faults (wrapper around real in-process transports)", "the pipe below TokioTransport (tokio duplex)"],
            assumptions: &["the observer connection sees bus events in the order in which the broker produced them"],
        });
    }
    out
}

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or("");
    exec::install_panic_hook();
    let checks = checks();
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let find = |p: &str| match checks.iter().find(|c| c.property == p) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {p}");
            std::process::exit(2);
        }
    };
    let child = std::env::var_os("ALDRIN_SIM_CHILD").is_some();
    let code = match arg(0) {
        "check" if !child => {
            let check = find(arg(1));
            supervise::check(check, arg(2), seed, &root())
        }
        "replay" if !child => supervise::replay(&args),
        "check" => {
            let check = find(arg(1));
            let tier = arg(2).to_string();
            let secs: u64 = std::env::var("VERIF_BUDGET")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(if tier == "thorough" { 600 } else { 100 });
            run::check(
                check,
                &Options {
                    tier,
                    seed,
                    budget: Duration::from_secs(secs),
                    max_runs: u64::MAX,
                    root: root(),
                    progress: std::env::var_os("ALDRIN_SIM_PROGRESS").map(PathBuf::from),
                },
            )
        }
        "replay" => run::replay(&checks, &PathBuf::from(arg(1))),
        "seed" => {
            // One run with its event log.
            let check = find(arg(1));
            let h = check
                .harnesses
                .iter()
                .find(|h| h.name == arg(2))
                .expect("harness");
            let (out, _) = run::run_one(*h, check.property, arg(3).parse().unwrap(), None, arg(4) != "quiet");
            if arg(4) == "quiet" {
                std::process::exit(out.violation.is_some() as i32);
            }
            for l in &out.trace {
                println!("{l}");
            }
            println!("{:?} {:?}", out.violation, out.cover);
            out.violation.is_some() as i32
        }
        _ => {
            eprintln!("usage: aldrin-sim check|replay|seed ...");
            2
        }
    };
    std::process::exit(code);
}
