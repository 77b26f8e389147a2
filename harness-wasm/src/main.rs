//! wasmdrv gen|table --out F ...: serialized books of every shape for the wasm readers.
//!
//! The books are written by this file, byte by byte, in the layout the readers document; the readers'
//! answers are recorded for the specification to judge, or compared with its table.
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

const HEADER: usize = 65;

#[derive(Clone)]
struct Leaf {
    key: u128,
    q: u64,
    slot: u32,
}

struct Book {
    leaves: Vec<Leaf>, // ascending
    data: Vec<u8>,
    cb: usize,
    slot: usize,
}

fn num128(mut x: u128) -> Value {
    let mut v = vec![];
    while x > 0 {
        v.push((x & 16383) as u64);
        x >>= 14;
    }
    json!(v)
}
fn num(x: u64) -> Value {
    num128(x as u128)
}

/// lay the tree over the leaves out in random slots of the buffer, with free slots in between
fn serialize(r: &mut StdRng, leaves: &[(u128, u64)], asks: bool) -> Book {
    let n = leaves.len();
    let cb = *[0usize, 1, 8, 32, 32, 40].choose(r).unwrap();
    let slot = (cb + 25).max(32) + *[0usize, 0, 0, 3, 8].choose(r).unwrap();
    let used = if n == 0 { 0 } else { 2 * n - 1 };
    let bump = used + r.gen_range(0..4);
    let cap = bump + r.gen_range(0..4);
    let mut data = vec![0u8; HEADER + cap * slot + r.gen_range(0..3)];
    r.fill(&mut data[..]);
    let mut slots: Vec<u32> = (0..bump as u32).collect();
    slots.shuffle(r);
    let mut out: Vec<Leaf> = leaves.iter().map(|l| Leaf { key: l.0, q: l.1, slot: 0 }).collect();
    let mut take = || slots.pop().unwrap();
    let mut root = r.gen();
    if n > 0 {
        root = take();
        let mut todo = vec![(0usize, n, root)];
        while let Some((lo, hi, s)) = todo.pop() {
            let at = HEADER + s as usize * slot;
            if hi - lo == 1 {
                out[lo].slot = s;
                data[at] = 2;
                data[at + 1..at + 17].copy_from_slice(&out[lo].key.to_le_bytes());
                data[at + 17 + cb..at + 25 + cb].copy_from_slice(&out[lo].q.to_le_bytes());
            } else {
                let plen = (out[lo].key ^ out[hi - 1].key).leading_zeros();
                let bit = 1u128 << (127 - plen);
                let mid = (lo..hi).find(|i| out[*i].key & bit != 0).unwrap();
                let (a, b) = (take(), take());
                data[at] = 1;
                data[at + 1..at + 5].copy_from_slice(&plen.to_le_bytes());
                data[at + 5..at + 21].copy_from_slice(&out[r.gen_range(lo..hi)].key.to_le_bytes());
                data[at + 21..at + 25].copy_from_slice(&a.to_le_bytes());
                data[at + 25..at + 29].copy_from_slice(&b.to_le_bytes());
                todo.push((lo, mid, a));
                todo.push((mid, hi, b));
            }
        }
    }
    // the free list
    let free = slots;
    for (i, s) in free.iter().enumerate() {
        let at = HEADER + *s as usize * slot;
        data[at] = if i + 1 == free.len() { 4 } else { 3 };
        let next = if i + 1 == free.len() { r.gen() } else { free[i + 1] };
        data[at + 1..at + 5].copy_from_slice(&next.to_le_bytes());
    }
    data[0] = if asks { 4 } else { 3 };
    data[1..9].copy_from_slice(&(bump as u64).to_le_bytes());
    data[9..17].copy_from_slice(&(free.len() as u64).to_le_bytes());
    data[17..21].copy_from_slice(&free.first().copied().unwrap_or(0).to_le_bytes());
    data[21..25].copy_from_slice(&root.to_le_bytes());
    data[25..33].copy_from_slice(&(n as u64).to_le_bytes());
    Book { leaves: out, data, cb, slot }
}

struct Drv {
    out: std::io::BufWriter<std::fs::File>,
    pend: std::path::PathBuf,
    stamp: Arc<AtomicU64>,
    calls: u64,
}

struct Answer {
    ok: bool,
    same: bool,
    min: Option<u32>,
    max: Option<u32>,
    l2: Vec<(u64, bool, Vec<u64>)>,
}

impl Drv {
    fn ask(&mut self, b: &Book, depths: &[(u64, bool)]) -> Answer {
        let rec = record(b, None, depths);
        std::fs::write(&self.pend, rec.to_string() + "\n").unwrap();
        self.stamp.fetch_add(1, Ordering::SeqCst);
        self.calls += 2 + depths.len() as u64;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let (cb, slot) = (b.cb as u64, b.slot as u64);
            let mut d = b.data.clone();
            let min = dex_wasm::find_min(&mut d, cb, slot);
            let max = dex_wasm::find_max(&mut d, cb, slot);
            let l2 = depths.iter().map(|(n, inc)| (*n, *inc, dex_wasm::find_l2_depth(&mut d, cb, slot, *n, *inc))).collect();
            Answer { ok: true, same: d == b.data, min, max, l2 }
        }));
        r.unwrap_or(Answer { ok: false, same: true, min: None, max: None, l2: vec![] })
    }
    fn line(&mut self, v: &Value) {
        writeln!(self.out, "{}", v).unwrap();
    }
}

fn record(b: &Book, a: Option<&Answer>, depths: &[(u64, bool)]) -> Value {
    let os: Vec<Value> = b
        .leaves
        .iter()
        .map(|l| json!({"p":num((l.key >> 64) as u64),"l":num(l.key as u64),"b":num(l.q),"h":l.slot}))
        .collect();
    let cap = |d: u64| d.min(1_000_000_000);
    let h = |x: Option<u32>| match x {
        Some(x) if x < 1 << 30 => json!([x]),
        Some(_) => json!([1 << 30]),
        None => json!([]),
    };
    match a {
        Some(a) => {
            let l2: Vec<Value> = a
                .l2
                .iter()
                .map(|(d, inc, v)| json!({"d":cap(*d),"inc":inc,"out":v.iter().map(|x| num(*x)).collect::<Vec<_>>()}))
                .collect();
            json!({"op":"wasm","os":os,"ok":a.ok,"same":a.same,"min":h(a.min),"max":h(a.max),"l2":l2,"cb":b.cb,"slot":b.slot})
        }
        None => {
            let l2: Vec<Value> = depths.iter().map(|(d, inc)| json!({"d":cap(*d),"inc":inc,"out":[]})).collect();
            json!({"op":"wasm","os":os,"ok":false,"same":true,"min":[],"max":[],"l2":l2,"cb":b.cb,"slot":b.slot})
        }
    }
}

fn bits(r: &mut StdRng) -> u64 {
    let n = r.gen_range(0..=64);
    if n == 0 {
        0
    } else {
        r.gen::<u64>() >> (64 - n)
    }
}

/// a book whose levels each sum to at most 64 bits
fn random_book(r: &mut StdRng) -> (Vec<(u128, u64)>, bool) {
    let asks = r.gen();
    let n = *[0usize, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20, 40].choose(r).unwrap();
    let levels = r.gen_range(1..=n.max(1));
    let near = r.gen_bool(0.4);
    let base = bits(r);
    let prices: Vec<u64> = (0..levels).map(|i| if near { base.wrapping_add(i as u64) } else { bits(r) }).collect();
    let start = *[0u64, 0, 1 << 20, (1 << 63) - 100].choose(r).unwrap() & !(1 << 63);
    let big = r.gen_bool(0.15);
    let mut sum: HashMap<u64, u64> = HashMap::new();
    let mut v: Vec<(u128, u64)> = vec![];
    for i in 0..n {
        let p = *prices.choose(r).unwrap();
        let seq = start + i as u64 * r.gen_range(1..3);
        let lo = if asks { seq } else { u64::MAX - seq };
        let left = u64::MAX - sum.get(&p).copied().unwrap_or(0);
        let q = if big { bits(r).min(left) } else { bits(r) >> r.gen_range(8..60) };
        let key = ((p as u128) << 64) | lo as u128;
        if v.iter().all(|x| x.0 != key) {
            *sum.entry(p).or_default() += q;
            v.push((key, q));
        }
    }
    v.sort();
    (v, asks)
}

fn depths(r: &mut StdRng, n: usize) -> Vec<(u64, bool)> {
    let mut v = vec![];
    for inc in [true, false] {
        for d in 0..=n.min(5) as u64 + 1 {
            v.push((d, inc));
        }
        v.push((r.gen_range(0..=n as u64 + 2), inc));
        v.push((*[n as u64, 100, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 62, u64::MAX / 2 + 1, u64::MAX].choose(r).unwrap(), inc));
    }
    v
}

fn main() {
    let mut args = std::env::args().skip(1);
    let cmd = args.next().expect("command");
    let rest: Vec<String> = args.collect();
    let mut o: HashMap<String, String> = HashMap::new();
    for kv in rest.chunks(2) {
        o.insert(kv[0].trim_start_matches("--").to_string(), kv[1].clone());
    }
    let n = |k: &str, d: u64| o.get(k).map(|x| x.parse().unwrap()).unwrap_or(d);
    std::panic::set_hook(Box::new(|_| {}));
    let stamp = Arc::new(AtomicU64::new(0));
    let s2 = stamp.clone();
    std::thread::spawn(move || {
        let (mut last, mut quiet) = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = s2.load(Ordering::SeqCst);
            quiet = if now == last { quiet + 1 } else { 0 };
            last = now;
            if quiet >= 30 {
                std::process::exit(97);
            }
        }
    });
    let file = std::fs::OpenOptions::new().create(true).append(true).open(&o["out"]).unwrap();
    let mut d = Drv {
        out: std::io::BufWriter::new(file),
        pend: format!("{}.pend", o["out"]).into(),
        stamp,
        calls: 0,
    };
    let seed = n("seed", 1);
    let mut count = 0;
    if cmd == "gen" {
        d.line(&json!({"op":"init","full":true,"w":[],"id":n("from", 0),"kind":"wasm"}));
        for i in n("from", 0)..n("from", 0) + n("traces", 10) {
            d.out.flush().unwrap();
            let mut r = StdRng::seed_from_u64(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03));
            let (v, asks) = random_book(&mut r);
            let b = serialize(&mut r, &v, asks);
            let ds = depths(&mut r, v.len());
            let a = d.ask(&b, &ds);
            let rec = record(&b, Some(&a), &ds);
            d.line(&rec);
            count += 1;
        }
    } else {
        // the specification's table: keys are (price class, age class) pairs
        let f = std::io::BufReader::new(std::fs::File::open(&o["table"]).unwrap());
        let (part, parts) = (n("part", 0), n("parts", 1));
        let mut started = false;
        for (k, l) in f.lines().enumerate() {
            if k as u64 % parts != part {
                continue;
            }
            let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
            let mut r = StdRng::seed_from_u64(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ k as u64);
            for _ in 0..n("times", 1) {
                let asks: bool = r.gen();
                let asc = |r: &mut StdRng, bits: u32| -> Vec<u64> {
                    loop {
                        let mut x: Vec<u64> = (0..4).map(|_| r.gen::<u64>() >> r.gen_range(64 - bits..64)).collect();
                        x.sort();
                        x.dedup();
                        if x.len() == 4 {
                            return x;
                        }
                    }
                };
                let prices = asc(&mut r, 64);
                let lows: Vec<u64> = asc(&mut r, 60).iter().map(|x| if asks { *x } else { !(u64::MAX >> 1) | *x }).collect();
                let leaves: Vec<(u128, u64)> = v["keys"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| {
                        let (p, l, q) = (x[0].as_u64().unwrap(), x[1].as_u64().unwrap(), x[2].as_u64().unwrap());
                        (((prices[p as usize] as u128) << 64) | lows[l as usize] as u128, q)
                    })
                    .collect();
                let b = serialize(&mut r, &leaves, asks);
                let rows = v["rows"].as_array().unwrap();
                let ds: Vec<(u64, bool)> = rows.iter().map(|x| (x[0].as_u64().unwrap(), x[1].as_bool().unwrap())).collect();
                let a = d.ask(&b, &ds);
                let want: Vec<(u64, bool, Vec<u64>)> = rows
                    .iter()
                    .zip(&ds)
                    .map(|(x, d)| {
                        let o = x[2]
                            .as_array()
                            .unwrap()
                            .iter()
                            .flat_map(|l| [l[0].as_u64().unwrap(), prices[l[1].as_u64().unwrap() as usize]])
                            .collect();
                        (d.0, d.1, o)
                    })
                    .collect();
                let good = a.ok
                    && a.same
                    && a.min == b.leaves.first().map(|l| l.slot)
                    && a.max == b.leaves.last().map(|l| l.slot)
                    && a.l2 == want;
                count += 1;
                if !good {
                    if !started {
                        d.line(&json!({"op":"init","full":true,"w":[],"id":0,"kind":"wasm"}));
                        started = true;
                    }
                    let rec = record(&b, Some(&a), &ds);
                    d.line(&rec);
                }
            }
        }
    }
    d.out.flush().unwrap();
    std::fs::remove_file(&d.pend).ok();
    println!("books {} calls {}", count, d.calls);
    std::process::exit(0);
}
