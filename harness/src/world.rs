//! aobdrv world: in every state of the table of spec/World.tla, the instructions on all combinations of accounts
use crate::gen::{fits_s, Sink};
use crate::rt::*;
use asset_agnostic_orderbook::state::critbit::Slab;
use asset_agnostic_orderbook::state::event_queue::EventQueue;
use asset_agnostic_orderbook::state::market_state::MarketState;
use asset_agnostic_orderbook::state::orderbook::CallbackInfo;
use asset_agnostic_orderbook::state::Side;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::io::{BufRead, Write};
use std::os::unix::fs::FileExt;
use std::sync::atomic::Ordering;

const TWIN: [usize; 3] = [0, 2, 4];
const QUAD: usize = 11;
const CAND: usize = 13;
const ALL: usize = 14;
const WALLET: usize = 13;

type Acts = Vec<HashMap<Vec<usize>, String>>;

struct Ids {
    market: bool,
    bids: Vec<u128>,
    asks: Vec<u128>,
}

struct Go<C: Cb> {
    table: HashMap<String, Acts>,
    r: StdRng,
    tried: u64,
    oks: u64,
    _c: std::marker::PhantomData<C>,
}

const BOGUS: u128 = (1 << 64) | (u64::MAX - 300) as u128;
// the instructions of the specification, by their position
fn arity(o: usize) -> usize {
    match o {
        5 | 6 => 2,
        10 => 5,
        _ => 4,
    }
}
fn new_p(s: Side, p: u64, pa: bool) -> NewP {
    NewP { s, p, mb: 1, mq: 99, ml: 1, c: (1, 0), po: false, pa, stb: 'D' }
}
fn op_of(o: usize, ac: Vec<usize>, ids: &[Ids]) -> Op {
    const ONE: u64 = 1 << 32;
    let at = &ids[ac[0]];
    match o {
        0 => Op::New { ac, x: new_p(Side::Bid, ONE, true) },
        1 => Op::New { ac, x: new_p(Side::Ask, 2 * ONE, true) },
        2 => Op::New { ac, x: new_p(Side::Ask, ONE, false) },
        3 => {
            let id = at.bids.first().copied().unwrap_or(BOGUS);
            Op::Cancel { ac, id }
        }
        4 => {
            let ids = if at.market { at.bids.iter().chain(&at.asks).copied().collect() } else { vec![] };
            Op::Mass { ac, ids }
        }
        5 => Op::Consume { ac, n: 1 },
        6 => Op::Consume { ac, n: 99 },
        7 => Op::Create { ac, min: 1, tick: ONE },
        8 => Op::Create { ac, min: 0, tick: ONE },
        9 => Op::Create { ac, min: 1, tick: 0 },
        _ => Op::Close { ac },
    }
}

impl<C: Cb> Go<C>
where
    <C as CallbackInfo>::CallbackId: PartialEq,
{
    fn world0(&self) -> World {
        let kind = |i: usize| match i {
            0 | 1 => "m",
            2 | 3 | 12 => "q",
            13 => "w",
            _ => "s",
        };
        let mut accs = vec![];
        for i in 0..ALL {
            let like = if (8..11).contains(&i) { TWIN[i - 8] } else { i };
            let (want, own) = (kind(like), !(8..11).contains(&i) && i != WALLET);
            let (n, len) = match want {
                "m" => (0, 8 + MarketState::LEN),
                "q" => {
                    // of a size that no slab has
                    let size = EventQueue::<C>::compute_allocation_size;
                    let mut ns: Box<dyn Iterator<Item = usize>> = if i == 12 { Box::new((0..5).rev()) } else { Box::new(5..50) };
                    let n = ns.find(|n| !fits_s::<C>(size(*n))).unwrap();
                    (n, size(n))
                }
                "s" => (1, Slab::<C>::compute_allocation_size(1)),
                _ => (0, 0),
            };
            let lam = rent_min(len) - (i == 11) as u64;
            accs.push(Acc::new(i as u32 + 1, own, want, n, len, lam));
        }
        World { accs }
    }

    fn sync(&self, w: &mut World) {
        for k in 0..3 {
            let b = w.accs[TWIN[k]].buf.clone();
            w.accs[8 + k].buf = b;
        }
    }

    fn key(&self, w: &World) -> String {
        let v: Vec<Value> = (0..8)
            .map(|i| match w.view::<C>(i) {
                View::U => json!(["U"]),
                View::M { q, b, a, .. } => json!(["M", q, b, a]),
                View::E { ev } => json!(["E", ev.len()]),
                View::S { bids, os } => json!([if bids { "B" } else { "A" }, os.len()]),
                View::D if w.accs[i].lam == 0 => json!(["D"]),
                View::D => json!(["D", "+"]),
                View::X => json!(["X"]),
            })
            .collect();
        Value::Array(v).to_string()
    }

    fn ids(&self, w: &World) -> Vec<Ids> {
        (0..ALL)
            .map(|i| match w.view::<C>(i) {
                View::M { q: _, b, a, .. } if b > 0 && a > 0 => {
                    let get = |k: usize| match w.view::<C>(k - 1) {
                        View::S { os, .. } => os.iter().map(|o| o.id).collect(),
                        _ => vec![],
                    };
                    Ids { market: true, bids: get(b), asks: get(a) }
                }
                _ => Ids { market: false, bids: vec![], asks: vec![] },
            })
            .collect()
    }

    /// every state of the table, reached on the real program; Err: a step which the specification allows, and the program not
    fn reach(&mut self) -> Result<Vec<(String, World)>, (World, Op)> {
        let mut w = self.world0();
        self.sync(&mut w);
        let mut seen: HashMap<String, usize> = HashMap::new();
        let mut out = vec![];
        let mut todo = VecDeque::new();
        let k = self.key(&w);
        seen.insert(k.clone(), 0);
        todo.push_back((k, w));
        while let Some((k, w)) = todo.pop_front() {
            let ids = self.ids(&w);
            let acts = &self.table[&k];
            for (o, m) in acts.iter().enumerate() {
                let mut es: Vec<(&Vec<usize>, &String)> = m.iter().collect();
                es.sort();
                for (ac, to) in es {
                    if seen.contains_key(to) || !self.table.contains_key(to) || (o == 10 && ac[4] != WALLET) {
                        continue;
                    }
                    let mut v = w.clone();
                    let op = op_of(o, ac.clone(), &ids);
                    let res = direct::<C>(&mut v, &op);
                    self.sync(&mut v);
                    if !res.ok() || self.key(&v) != *to {
                        return Err((w, op));
                    }
                    seen.insert(to.clone(), 0);
                    todo.push_back((to.clone(), v));
                }
            }
            for i in 0..8 {
                if matches!(w.view::<C>(i), View::D) && w.accs[i].lam == 0 {
                    let mut v = w.clone();
                    v.accs[i].buf.iter_mut().for_each(|x| *x = 0);
                    v.accs[i].lam = rent_min(v.accs[i].len);
                    self.sync(&mut v);
                    let to = self.key(&v);
                    if !seen.contains_key(&to) && self.table.contains_key(&to) {
                        seen.insert(to.clone(), 0);
                        todo.push_back((to, v));
                    }
                }
            }
            out.push((k, w));
        }
        Ok(out)
    }

    fn record(&self, s: &mut Sink, w: &World, op: &Op) {
        s.line(&json!({"op":"init","full":C::FULL,"w":w.all_json::<C>(),"id":0,"kind":"world"}));
        let mut j = op.json();
        s.pending(&j);
        let mut v = w.clone();
        let res = direct::<C>(&mut v, op);
        let o = j.as_object_mut().unwrap();
        o.insert("r".into(), res.json());
        o.insert("chg".into(), changes::<C>(w, &v));
        o.insert("eq".into(), json!(true));
        o.insert("diff".into(), json!(""));
        s.line(&j);
    }
}

/// how many positions differ
fn far(a: &[usize], b: &[usize]) -> usize {
    a.iter().zip(b).filter(|(x, y)| x != y).count()
}

fn run<C: Cb>(o: &HashMap<String, String>, s: &mut Sink) -> bool
where
    <C as CallbackInfo>::CallbackId: PartialEq,
{
    let n = |k: &str, d: u64| o.get(k).map(|x| x.parse().unwrap()).unwrap_or(d);
    let (part, parts, rate, keep) = (n("part", 0) as usize, n("parts", 1) as usize, n("rate", 16), n("keep", 2));
    let only = o.get("only").map(|x| x.parse::<u64>().unwrap());
    let ops: Vec<usize> = match o["ops"].as_str() {
        "life" => vec![7, 8, 9, 10],
        _ => vec![0, 1, 2, 3, 4, 5, 6, 10],
    };
    let mut g = Go::<C> {
        table: HashMap::new(),
        r: StdRng::seed_from_u64(n("seed", 1)),
        tried: 0,
        oks: 0,
        _c: Default::default(),
    };
    for line in std::io::BufReader::new(std::fs::File::open(&o["table"]).unwrap()).lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let acts = v["acc"]
            .as_array()
            .unwrap()
            .iter()
            .map(|es| {
                es.as_array()
                    .unwrap()
                    .iter()
                    .map(|e| {
                        let ac = e[0].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect();
                        (ac, e[1].to_string())
                    })
                    .collect()
            })
            .collect();
        g.table.insert(v["key"].to_string(), acts);
    }
    let pos = std::fs::OpenOptions::new().create(true).write(true).open(format!("{}.pos", o["out"])).unwrap();
    let mut bad = 0u64;
    let states = match g.reach() {
        Ok(x) => x,
        Err((w, op)) => {
            println!("MISMATCH the program does not follow the specification");
            g.record(s, &w, &op);
            bad = 1;
            vec![]
        }
    };
    for (k, (key, w)) in states.iter().enumerate() {
        if k % parts != part || only.map_or(false, |x| x != k as u64) {
            continue;
        }
        if only.is_none() {
            pos.write_all_at(&(k as u64).to_le_bytes(), 0).unwrap();
        }
        if only.is_some() {
            s.line(&json!({"op":"init","full":C::FULL,"w":w.all_json::<C>(),"id":0,"kind":"world"}));
        }
        let ids = g.ids(w);
        let acts = std::mem::take(g.table.get_mut(key).unwrap());
        for &o in &ops {
            let (a, n) = (arity(o), if (7..=9).contains(&o) { CAND } else { QUAD });
            let quads: Vec<&Vec<usize>> = match o {
                8 | 9 => acts[7].keys().collect(),
                _ => acts[o].keys().filter(|x| a < 5 || x[4] == WALLET).collect(),
            };
            // an instruction that is refused here may be accepted on these accounts elsewhere
            let bound: Vec<Vec<usize>> = if quads.is_empty() { acts[4].keys().cloned().collect() } else { vec![] };
            let base = if a == 5 { 4 } else { a };
            let mut tuples: Vec<Vec<usize>> = vec![];
            for t in 0..n.pow(base as u32) {
                let mut ac: Vec<usize> = (0..base).map(|i| t / n.pow(i as u32) % n).collect();
                let near = quads.iter().any(|q| far(q, &ac) <= 2) || bound.iter().any(|q| far(q, &ac) <= 2);
                if near || rate <= 1 || g.r.gen_range(0..rate) == 0 {
                    if a == 5 {
                        ac.push(WALLET);
                    }
                    tuples.push(ac);
                }
            }
            if a == 5 {
                for q in quads.iter().map(|q| q.to_vec()).chain(bound.iter().cloned()) {
                    for t in 0..WALLET {
                        let mut ac = q[..4].to_vec();
                        ac.push(t);
                        tuples.push(ac);
                    }
                }
            }
            let mut v = w.clone();
            let mut ok_here: Vec<Vec<usize>> = vec![];
            for ac in tuples {
                let op = op_of(o, ac.clone(), &ids);
                if only.is_some() {
                    // to find out where it does not return
                    s.pending(&op.json());
                }
                let res = direct::<C>(&mut v, &op);
                g.tried += 1;
                s.stamp.fetch_add(1, Ordering::Relaxed);
                let want = acts[o].get(&ac);
                let good = match (&want, res.k.as_str()) {
                    (Some(to), "ok") => {
                        g.sync(&mut v);
                        g.key(&v) == **to
                    }
                    (None, "err") | (None, "panic") => true,
                    _ => false,
                };
                if res.ok() {
                    v = w.clone();
                }
                if good {
                    if res.ok() {
                        g.oks += 1;
                        ok_here.push(ac);
                    }
                } else if bad < 40 && only.is_none() {
                    // (a refusal by the runtime alone may be one too: the specification will say)
                    if res.k != "runtime" {
                        println!("MISMATCH {:?} {:?}: {}", op, want, res.k);
                        bad += 1;
                        g.record(s, w, &op);
                    } else if g.r.gen_range(0..(1 + rate)) == 0 {
                        g.record(s, w, &op);
                    }
                }
            }
            if !ok_here.is_empty() && only.is_none() && g.r.gen_range(0..ops.len() as u64) < keep {
                let ac = ok_here.swap_remove(g.r.gen_range(0..ok_here.len()));
                g.record(s, w, &op_of(o, ac, &ids));
            }
        }
        g.table.insert(key.clone(), acts);
    }
    println!("tried {} ok {} states {}", g.tried, g.oks, states.len());
    s.out.flush().unwrap();
    bad > 0
}

pub fn main(o: &HashMap<String, String>, s: &mut Sink) -> bool {
    match o["kind"].as_str() {
        "A" => run::<[u8; 32]>(o, s),
        "P" => run::<C40>(o, s),
        _ => run::<C8>(o, s),
    }
}
