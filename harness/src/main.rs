//! aobdrv gen --out F --profile NAME --seed S --from I --traces N
mod gen;
mod replay;
mod rt;
mod world;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

/// exit code when one operation does not return
const HANG: i32 = 97;

fn watchdog(stamp: Arc<AtomicU64>) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut quiet = 0;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = stamp.load(Ordering::SeqCst);
            quiet = if now == last { quiet + 1 } else { 0 };
            last = now;
            if quiet >= 40 {
                std::process::exit(HANG);
            }
        }
    });
}

fn main() {
    let mut args = std::env::args().skip(1);
    let cmd = args.next().expect("command");
    let rest: Vec<String> = args.collect();
    let mut o: HashMap<String, String> = HashMap::new();
    for kv in rest.chunks(2) {
        o.insert(kv[0].trim_start_matches("--").to_string(), kv[1].clone());
    }
    let n = |k: &str, d: u64| o.get(k).map(|x| x.parse().unwrap()).unwrap_or(d);
    rt::install();
    let out = o.get("out").expect("--out");
    let stamp = Arc::new(AtomicU64::new(0));
    watchdog(stamp.clone());
    let file = std::fs::OpenOptions::new().create(true).append(true).open(out).unwrap();
    let pend = std::fs::File::create(format!("{}.pend", out)).unwrap();
    let mut s = gen::Sink {
        out: std::io::BufWriter::new(file),
        pend: Some(pend),
        stamp,
        ops: 0,
    };
    match cmd.as_str() {
        "gen" => {
            let from = n("from", 0);
            for i in from..from + n("traces", 10) {
                gen::history(&mut s, &o["profile"], n("seed", 1), i);
            }
        }
        "replay" => {
            replay::main(&o, &mut s);
        }
        "world" => {
            world::main(&o, &mut s);
        }
        x => panic!("no command {}", x),
    }
    use std::io::Write;
    s.out.flush().unwrap();
    std::fs::remove_file(format!("{}.pend", out)).ok();
    println!("ops {}", s.ops);
    std::process::exit(0);
}
