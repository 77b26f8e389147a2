//! Replay of the specification's transition table on the real program.
//!
//! The table (printed by TLC from spec/MC.tla) gives for every reachable state of a small market and for
//! every request the outcome the specification prescribes.  `cover` brings the real program to every
//! state and tries every request there; `walk` makes long random runs with the table as the oracle.
use crate::gen::Sink;
use crate::rt::*;
use asset_agnostic_orderbook::state::critbit::Slab;
use asset_agnostic_orderbook::state::event_queue::EventQueue;
use asset_agnostic_orderbook::state::market_state::MarketState;
use asset_agnostic_orderbook::state::orderbook::CallbackInfo;
use asset_agnostic_orderbook::state::Side;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::os::unix::fs::FileExt;

struct Ev {
    fill: bool,
    bids: bool, // the order it names rests with the bids
    pos: usize,
    b: u64,
    q: u64,
    m: i64,
    t: i64,
}
enum Out {
    Err(String),
    Ok { posted: bool, tb: u64, tq: u64, tp: u64, evs: Vec<Ev>, to: usize },
}
struct St {
    key: String,
    dist: Vec<Out>,
    res: Vec<u32>,
}
enum TOp {
    New { s: Side, p: u64, mb: u64, mq: u64, ml: u64, o: i64, po: bool, pa: bool, stb: char },
    Cancel(Vec<(bool, usize)>),
    Mass(Vec<(bool, usize)>),
    Consume(u64),
    Close,
}
const CLOSED: usize = usize::MAX;

pub struct Tab {
    ops: Vec<TOp>,
    names: Vec<Value>,
    states: Vec<St>,
    start: usize,
    capb: usize,
    capa: usize,
    qcap: usize,
    min: u64,
    tick: u64,
    scale: u64,
    drain: bool,
    forget: bool,
}

fn u(v: &Value) -> u64 {
    v.as_u64().unwrap()
}

impl Tab {
    pub fn load(path: &str) -> Tab {
        let f = std::io::BufReader::new(std::fs::File::open(path).unwrap());
        let mut head = Value::Null;
        let mut rows = vec![];
        for l in f.lines() {
            let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
            if v.get("head").is_some() {
                head = v["head"].clone();
            } else {
                rows.push(v);
            }
        }
        let refs = |v: &Value| -> Vec<(bool, usize)> {
            v.as_array().unwrap().iter().map(|x| (x["s"] == "B", u(&x["i"]) as usize)).collect()
        };
        let names: Vec<Value> = head["ops"].as_array().unwrap().clone();
        let ops = names
            .iter()
            .map(|o| match o["op"].as_str().unwrap() {
                "new" => TOp::New {
                    s: if o["s"] == "B" { Side::Bid } else { Side::Ask },
                    p: u(&o["p"]),
                    mb: u(&o["mb"]),
                    mq: u(&o["mq"]),
                    ml: u(&o["ml"]),
                    o: o["c"][0].as_i64().unwrap(),
                    po: o["po"].as_bool().unwrap(),
                    pa: o["pa"].as_bool().unwrap(),
                    stb: o["stb"].as_str().unwrap().chars().next().unwrap(),
                },
                "cancel" => TOp::Cancel(refs(&o["refs"])),
                "mass" => TOp::Mass(refs(&o["refs"])),
                "consume" => TOp::Consume(u(&o["n"])),
                "close" => TOp::Close,
                x => panic!("{}", x),
            })
            .collect();
        let ix: HashMap<String, usize> = rows.iter().enumerate().map(|(i, r)| (r["key"].to_string(), i)).collect();
        let states: Vec<St> = rows
            .iter()
            .map(|r| {
                let dist = r["dist"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|d| {
                        if d[0] != "ok" {
                            return Out::Err(d[0].as_str().unwrap().to_string());
                        }
                        let evs = d[5]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|e| Ev {
                                fill: e[0] == "F",
                                bids: (e[0] == "F") == (e[1] == "A"),
                                pos: u(&e[2]) as usize,
                                b: u(&e[3]),
                                q: u(&e[4]),
                                m: e[5].as_i64().unwrap(),
                                t: e[6].as_i64().unwrap(),
                            })
                            .collect();
                        let k = d[6].to_string();
                        let to = if k == "[\"D\"]" { CLOSED } else { ix[&k] };
                        Out::Ok { posted: d[1] == 1, tb: u(&d[2]), tq: u(&d[3]), tp: u(&d[4]), evs, to }
                    })
                    .collect();
                let res = r["res"].as_array().unwrap().iter().map(|x| u(x) as u32).collect();
                St { key: r["key"].to_string(), dist, res }
            })
            .collect();
        let drain = head["drain"].as_bool().unwrap();
        let forget = head["forget"].as_bool().unwrap();
        let start = ix[if forget { "[[],[],0]" } else { "[[],[],[]]" }];
        Tab {
            ops,
            names,
            states,
            start,
            capb: u(&head["capb"]) as usize,
            capa: u(&head["capa"]) as usize,
            qcap: u(&head["qcap"]) as usize,
            min: u(&head["min"]),
            tick: u(&head["tick"]),
            scale: (1u64 << 32) / u(&head["fp"]),
            drain,
            forget,
        }
    }
}

/// the real program and the run so far
#[derive(Clone)]
struct Run {
    w: World,
    path: Vec<Op>,
    next: [u64; 2], // per side, the least sequence number not used
    dead: Vec<u128>,
}
const AC: [usize; 4] = [1, 2, 3, 4];

pub struct Replay<C: Cb> {
    t: Tab,
    r: StdRng,
    pos: std::fs::File,
    pub ops: u64,
    pub oks: u64,
    stamp: std::sync::Arc<std::sync::atomic::AtomicU64>,
    _c: std::marker::PhantomData<C>,
}

pub struct Mismatch {
    pub what: String,
    pub path: Vec<Op>,
}

struct Seen {
    b: Vec<Order>,
    a: Vec<Order>,
    ev: Vec<Value>,
}

impl<C: Cb> Replay<C>
where
    <C as CallbackInfo>::CallbackId: PartialEq,
{
    fn world0(&self) -> World {
        let mut accs = vec![Acc::new(1, false, "x", 0, 0, 1000)];
        for (k, (want, n, len)) in [
            ("m", 0, 8 + MarketState::LEN),
            ("q", self.t.qcap, EventQueue::<C>::compute_allocation_size(self.t.qcap)),
            ("s", self.t.capb, Slab::<C>::compute_allocation_size(self.t.capb)),
            ("s", self.t.capa, Slab::<C>::compute_allocation_size(self.t.capa)),
        ]
        .iter()
        .enumerate()
        {
            accs.push(Acc::new(k as u32 + 2, true, want, *n, *len, rent_min(*len)));
        }
        World { accs }
    }
    fn exec(&mut self, run: &mut Run, op: Op) -> Res {
        self.ops += 1;
        let res = if C::FULL && self.r.gen_bool(0.5) { entry(&mut run.w, &op) } else { direct::<C>(&mut run.w, &op) };
        run.path.push(op);
        if res.ok() {
            self.oks += 1;
        }
        res
    }
    /// a fresh market; its ring and its free lists somewhat used
    fn fresh(&mut self, turns: usize) -> Result<Run, Mismatch> {
        let mut run = Run { w: self.world0(), path: vec![], next: [0, 0], dead: vec![] };
        let (min, tick) = (self.t.min, self.t.tick * self.t.scale);
        let r = self.exec(&mut run, Op::Create { ac: AC.to_vec(), min, tick });
        if !r.ok() {
            return Err(Mismatch { what: format!("create: {:?}", r), path: run.path });
        }
        for i in 0..turns {
            let x = move |s, stb| NewP {
                s,
                p: tick * ((1 << 32) / tick).max(1),
                mb: min.max(1),
                mq: 1 << 20,
                ml: 9,
                c: (1, if C::FULL { 0 } else { i as i64 }),
                po: false,
                pa: true,
                stb,
            };
            let (s1, s2) = if i % 2 == 0 { (Side::Bid, Side::Ask) } else { (Side::Ask, Side::Bid) };
            let a = self.exec(&mut run, Op::New { ac: AC.to_vec(), x: x(s1, 'D') });
            let b = self.exec(&mut run, Op::New { ac: AC.to_vec(), x: x(s2, 'C') });
            let c = self.exec(&mut run, Op::Consume { ac: AC[..2].to_vec(), n: 1 });
            let mut bad = !(a.ok() && b.ok() && c.ok());
            // s2 posts after cancelling s1's order: cancel it as well
            for r in [&a, &b] {
                if let Some(Sum { id: Some(id), .. }) = r.sum {
                    self.issued(&mut run, id);
                    run.dead.push(id);
                }
            }
            if let Some(Sum { id: Some(id), .. }) = b.sum {
                let d = self.exec(&mut run, Op::Cancel { ac: AC.to_vec(), id });
                bad |= !d.ok();
            }
            if bad {
                return Err(Mismatch { what: "preparing a used market".into(), path: run.path });
            }
        }
        let st = self.t.start;
        self.arrived(&run, st)?;
        Ok(run)
    }
    fn issued(&self, run: &mut Run, id: u128) -> bool {
        let (_, lo) = split(id);
        let bid = lo >> 63 == 1;
        let n = if bid { u64::MAX - lo } else { lo };
        let k = usize::from(!bid);
        let newer = n >= run.next[k];
        run.next[k] = n + 1;
        newer
    }
    fn see(&self, w: &World) -> Option<Seen> {
        let side = |i: usize, want: bool| match w.view::<C>(i) {
            View::S { bids, os } if bids == want => Some(os),
            _ => None,
        };
        let b = side(3, true)?;
        let a = side(4, false)?;
        match w.view::<C>(2) {
            View::E { ev } => Some(Seen { b, a, ev }),
            _ => None,
        }
    }
    fn key(&self, s: &Seen) -> String {
        let sc = self.t.scale;
        let side = |os: &Vec<Order>| -> Value {
            os.iter()
                .map(|o| {
                    let p = split(o.id).0;
                    if p % sc == 0 {
                        json!([p / sc, o.b, o.c.0])
                    } else {
                        json!("?")
                    }
                })
                .collect()
        };
        let ev: Value = if self.t.forget {
            json!(s.ev.len())
        } else {
            s.ev.iter()
                .map(|e| {
                    let p = unnum(&e["p"]) as u64;
                    let b = unnum(&e["b"]) as u64;
                    let q = unnum(&e["q"]) as u64;
                    json!([e["k"], e["s"], p / sc, b, q, e["m"][0], e["t"][0]])
                })
                .collect()
        };
        json!([side(&s.b), side(&s.a), ev]).to_string()
    }
    fn arrived(&self, run: &Run, st: usize) -> Result<Seen, Mismatch> {
        let m = |what: String| Mismatch { what, path: run.path.clone() };
        let s = self.see(&run.w).ok_or_else(|| m("an account of the market is not readable".into()))?;
        let k = self.key(&s);
        if k != self.t.states[st].key {
            return Err(m(format!("the state is {} instead of {}", k, self.t.states[st].key)));
        }
        Ok(s)
    }

    fn target(&mut self, run: &Run, pre: &Seen, (bid, i): (bool, usize)) -> u128 {
        let os = if bid { &pre.b } else { &pre.a };
        if i <= os.len() {
            return os[i - 1].id;
        }
        let resting = |id: u128| pre.b.iter().chain(&pre.a).any(|o| o.id == id);
        for _ in 0..20 {
            let any = if pre.b.is_empty() && pre.a.is_empty() {
                None
            } else {
                let k = self.r.gen_range(0..pre.b.len() + pre.a.len());
                Some(pre.b.iter().chain(&pre.a).nth(k).unwrap().id)
            };
            let id = match (self.r.gen_range(0..9), any) {
                (0 | 1, _) if !run.dead.is_empty() => run.dead[self.r.gen_range(0..run.dead.len())],
                (2, Some(x)) => x.wrapping_add(1),
                (3, Some(x)) => x.wrapping_sub(1),
                (4, Some(x)) => x.wrapping_add(1 << 64),
                (5, Some(x)) => x ^ (u64::MAX as u128),
                (6, Some(x)) => x ^ (1u128 << self.r.gen_range(0..128)),
                (7, _) => {
                    let n = run.next[usize::from(!bid)];
                    ((self.t.scale as u128) << 64) | (if bid { u64::MAX - n } else { n }) as u128
                }
                _ => self.r.gen(),
            };
            if !resting(id) {
                return id;
            }
        }
        0
    }

    fn concrete(&mut self, run: &Run, pre: &Seen, i: usize) -> Op {
        let nonce = if C::FULL { 0 } else { self.r.gen_range(0..1000) };
        let lists = |v: &Vec<(bool, usize)>| v.clone();
        match &self.t.ops[i] {
            TOp::New { s, p, mb, mq, ml, o, po, pa, stb } => Op::New {
                ac: AC.to_vec(),
                x: NewP {
                    s: *s,
                    p: p * self.t.scale,
                    mb: *mb,
                    mq: *mq,
                    ml: *ml,
                    c: (*o, nonce),
                    po: *po,
                    pa: *pa,
                    stb: *stb,
                },
            },
            TOp::Cancel(v) => {
                let x = v[0];
                Op::Cancel { ac: AC.to_vec(), id: self.target(run, pre, x) }
            }
            TOp::Mass(v) => {
                let v = lists(v);
                Op::Mass { ac: AC.to_vec(), ids: v.iter().map(|x| self.target(run, pre, *x)).collect() }
            }
            TOp::Consume(n) => Op::Consume { ac: AC[..2].to_vec(), n: *n },
            TOp::Close => Op::Close { ac: vec![1, 2, 3, 4, 0] },
        }
    }

    /// one request of the table in the state st; the state reached, or what went wrong.
    /// `only_ok`: the table says it succeeds
    fn step(&mut self, run: &mut Run, st: usize, pre: &Seen, i: usize) -> Result<(usize, Option<Seen>), Mismatch> {
        let op = self.concrete(run, pre, i);
        let res = self.exec(run, op.clone());
        let t = &self.t;
        let exp = &t.states[st].dist[t.states[st].res[i] as usize];
        let bad = |what: String, run: &Run| Mismatch { what: format!("{}: {}", t.names[i], what), path: run.path.clone() };
        let (posted, tb, tq, tp, evs, to) = match exp {
            Out::Err(e) => {
                let same = res.k == "err" && (res.code == *e || e == "Accounts" || e == "Overflow");
                return if same { Ok((st, None)) } else { Err(bad(format!("{:?} instead of the refusal {}", res, e), run)) };
            }
            Out::Ok { posted, tb, tq, tp, evs, to } => (*posted, *tb, *tq, *tp, evs, *to),
        };
        if !res.ok() {
            return Err(bad(format!("refused ({:?})", res), run));
        }
        let summed = matches!(t.ops[i], TOp::New { .. } | TOp::Cancel(_) | TOp::Mass(_));
        if summed {
            let good = match &res.sum {
                Some(s) => s.id.is_some() == posted && (s.tb, s.tq, s.tp) == (tb, tq, tp),
                None => false,
            };
            if !good {
                return Err(bad(format!("summary {:?} instead of {:?}", res.sum, (posted, tb, tq, tp)), run));
            }
        }
        let id = res.sum.as_ref().and_then(|s| s.id);
        if let Some(id) = id {
            if !self.issued(run, id) {
                return Err(bad("an id that was used before".into(), run));
            }
        }
        if to == CLOSED {
            let dead = (1..5).all(|k| matches!(run.w.view::<C>(k), View::D) && run.w.accs[k].lam == 0);
            return if dead { Ok((to, None)) } else { Err(bad("not closed".into(), run)) };
        }
        let post = match self.see(&run.w) {
            Some(s) => s,
            None => return Err(bad("an account of the market is not readable".into(), run)),
        };
        // the events, exactly
        let kept = match &op {
            Op::Consume { n, .. } => &pre.ev[(*n as usize).min(pre.ev.len())..],
            _ => &pre.ev[..],
        };
        let mut want: Vec<Value> = kept.to_vec();
        if let Op::New { x, .. } = &op {
            for e in evs {
                let o = &(if e.bids { &pre.b } else { &pre.a })[e.pos - 1];
                let (p, l) = split(o.id);
                if e.m != o.c.0 || (e.fill && e.t != x.c.0) {
                    return Err(bad("table and projection disagree".into(), run));
                }
                let taker = if x.s == Side::Bid { "B" } else { "A" };
                let side = if e.bids { "B" } else { "A" };
                want.push(json!({"k":if e.fill {"F"} else {"O"},"s":if e.fill {taker} else {side},
                    "p":num(p),"l":num(l),"b":num(e.b),"q":num(e.q),"m":[o.c.0,o.c.1],
                    "t":if e.fill {json!([x.c.0,x.c.1])} else {json!([0,0])}}));
            }
        }
        if want != post.ev {
            return Err(bad(format!("events {:?} instead of {:?}", post.ev, want), run));
        }
        // no order but the new one is new, and none changed its callback info
        let olds: Vec<&Order> = pre.b.iter().chain(&pre.a).collect();
        for o in post.b.iter().chain(&post.a) {
            let c = match olds.iter().find(|x| x.id == o.id) {
                Some(x) => x.c,
                None => match &op {
                    Op::New { x, .. } if id == Some(o.id) => x.c,
                    _ => return Err(bad("an order that nobody posted".into(), run)),
                },
            };
            if c != o.c {
                return Err(bad("a callback info changed".into(), run));
            }
        }
        for o in olds {
            if !post.b.iter().chain(&post.a).any(|x| x.id == o.id) {
                run.dead.push(o.id);
            }
        }
        if id.is_some() && !post.b.iter().chain(&post.a).any(|x| Some(x.id) == id) {
            return Err(bad("the posted order does not rest".into(), run));
        }
        if run.dead.len() > 40 {
            run.dead.drain(..20);
        }
        if self.t.drain && !post.ev.is_empty() {
            let r = self.exec(run, Op::Consume { ac: AC[..2].to_vec(), n: post.ev.len() as u64 });
            if !r.ok() {
                return Err(Mismatch { what: format!("consume: {:?}", r), path: run.path.clone() });
            }
        }
        let s = self.arrived(run, to)?;
        Ok((to, Some(s)))
    }

    fn mark(&mut self, a: u64, b: u64) {
        let mut x = [0u8; 16];
        x[..8].copy_from_slice(&a.to_le_bytes());
        x[8..].copy_from_slice(&b.to_le_bytes());
        self.pos.write_all_at(&x, 0).unwrap();
        self.stamp.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }

    /// a random spanning tree of the table: for every state its parent and the request leading to it
    fn tree(&self, seed: u64) -> (Vec<usize>, Vec<Option<(usize, usize)>>) {
        let mut r = StdRng::seed_from_u64(seed);
        let n = self.t.states.len();
        let mut par: Vec<Option<(usize, usize)>> = vec![None; n];
        let mut seen = vec![false; n];
        seen[self.t.start] = true;
        let mut order = vec![self.t.start];
        let mut k = 0;
        while k < order.len() {
            let s = order[k];
            k += 1;
            let m = self.t.ops.len();
            let off = r.gen_range(0..m);
            for j in 0..m {
                let i = (j * 7919 + off) % m;
                if let Out::Ok { to, .. } = &self.t.states[s].dist[self.t.states[s].res[i] as usize] {
                    if *to != CLOSED && !seen[*to] {
                        seen[*to] = true;
                        par[*to] = Some((s, i));
                        order.push(*to);
                    }
                }
            }
        }
        (order, par)
    }

    /// every request in every state whose number is `part` modulo `parts`; with `only`, just that one,
    /// and its instructions are returned without having been run
    pub fn cover(&mut self, seed: u64, part: usize, parts: usize, only: Option<(u64, u64)>) -> Result<Vec<Op>, Mismatch> {
        let (order, par) = self.tree(seed);
        let mut worlds: HashMap<usize, Run> = HashMap::new();
        for (n, &s) in order.iter().enumerate() {
            if only.is_none() && n % parts != part {
                continue;
            }
            if let Some((o, _)) = only {
                if o != s as u64 {
                    continue;
                }
            }
            // the requests from the start to this state, from the last state already realised
            let mut way = vec![];
            let mut at = s;
            while !worlds.contains_key(&at) {
                match par[at] {
                    Some((p, i)) => {
                        way.push((at, p, i));
                        at = p;
                    }
                    None => {
                        self.mark(u64::MAX, 0);
                        self.r = StdRng::seed_from_u64(seed);
                        let run = self.fresh((seed % 11) as usize)?;
                        worlds.insert(at, run);
                    }
                }
            }
            for (to, p, i) in way.into_iter().rev() {
                let mut run = worlds[&p].clone();
                self.r = StdRng::seed_from_u64(seed ^ ((p as u64) << 20) ^ i as u64);
                let pre = self.arrived(&run, p)?;
                if only.is_none() {
                    self.mark(p as u64, i as u64);
                }
                let (got, _) = self.step(&mut run, p, &pre, i)?;
                debug_assert_eq!(got, to);
                worlds.insert(to, run);
            }
            let base = worlds[&s].clone();
            let pre = self.arrived(&base, s)?;
            for i in 0..self.t.ops.len() {
                if only.map_or(false, |o| o.1 != i as u64) {
                    continue;
                }
                self.r = StdRng::seed_from_u64(seed ^ ((s as u64) << 20) ^ i as u64);
                let mut run = base.clone();
                if only.is_some() {
                    let op = self.concrete(&run, &pre, i);
                    run.path.push(op);
                    return Ok(run.path);
                }
                self.mark(s as u64, i as u64);
                self.step(&mut run, s, &pre, i)?;
            }
        }
        Ok(vec![])
    }

    /// every state of the table, each reached on a market that was used more or less before, for the TypeScript client
    pub fn dump(&mut self, seed: u64, part: usize, parts: usize, s: &mut Sink) -> Result<Vec<Op>, Mismatch> {
        let (order, par) = self.tree(seed);
        const TURNS: usize = 12;
        for turns in 0..TURNS {
            if turns % parts != part {
                continue;
            }
            self.mark(u64::MAX, turns as u64);
            self.r = StdRng::seed_from_u64(seed);
            let mut worlds: HashMap<usize, Run> = HashMap::new();
            worlds.insert(self.t.start, self.fresh(turns)?);
            for (n, &at) in order.iter().enumerate() {
                if let Some((p, i)) = par[at] {
                    let mut run = worlds[&p].clone();
                    self.r = StdRng::seed_from_u64(seed ^ ((p as u64) << 20) ^ i as u64);
                    let pre = self.arrived(&run, p)?;
                    self.mark(p as u64, i as u64);
                    self.step(&mut run, p, &pre, i)?;
                    worlds.insert(at, run);
                }
                if n % TURNS != turns {
                    continue;
                }
                let run = &worlds[&at];
                let mut probes: Vec<u128> = run.dead.iter().rev().take(2).copied().collect();
                if let Some(x) = self.see(&run.w) {
                    for o in x.b.iter().chain(&x.a) {
                        probes.push(o.id);
                        probes.push(o.id ^ (1u128 << self.r.gen_range(0..128)));
                    }
                }
                s.line(&json!({"op":"init","full":C::FULL,"w":run.w.all_json::<C>(),"id":at,"kind":"dump"}));
                s.line(&ts_json::<C>(&run.w, &AC, &probes, &[0, 1, 2, 1 + (n as u64 % 5)]));
            }
        }
        Ok(vec![])
    }

    /// random runs of `len` requests
    pub fn walk(&mut self, seed: u64, from: u64, count: u64, len: u64, only: Option<(u64, u64)>) -> Result<Vec<Op>, Mismatch> {
        for k in from..from + count {
            if only.map_or(false, |o| o.0 != k) {
                continue;
            }
            self.r = StdRng::seed_from_u64(seed ^ k.wrapping_mul(0x9E3779B97F4A7C15));
            self.mark(k, u64::MAX);
            let turns = self.r.gen_range(0..12);
            let mut run = self.fresh(turns)?;
            let mut st = self.t.start;
            let mut pre = self.arrived(&run, st)?;
            for n in 0..len {
                let mut i = 0;
                for _ in 0..6 {
                    i = self.r.gen_range(0..self.t.ops.len());
                    match &self.t.states[st].dist[self.t.states[st].res[i] as usize] {
                        Out::Ok { to, .. } if *to != st && *to != CLOSED => break,
                        _ => {}
                    }
                }
                if let Out::Ok { to: CLOSED, .. } = &self.t.states[st].dist[self.t.states[st].res[i] as usize] {
                    if n + 1 < len {
                        continue;
                    }
                }
                if only == Some((k, n)) {
                    let op = self.concrete(&run, &pre, i);
                    run.path.push(op);
                    return Ok(run.path);
                }
                self.mark(k, n);
                let (to, s) = self.step(&mut run, st, &pre, i)?;
                if to == CLOSED {
                    break;
                }
                st = to;
                if let Some(s) = s {
                    pre = s;
                }
            }
        }
        Ok(vec![])
    }

    /// run the instructions again, recorded as an execution for trace validation
    fn record(&self, s: &mut Sink, path: &[Op]) {
        let mut w = self.world0();
        s.line(&json!({"op":"init","full":C::FULL,"w":w.all_json::<C>(),"id":0,"kind":"replay"}));
        for op in path {
            let mut j = op.json();
            s.pending(&j);
            let before = w.clone();
            let mut eq = true;
            let res = direct::<C>(&mut w, op);
            if C::FULL {
                let mut w2 = before.clone();
                let r2 = entry(&mut w2, op);
                eq = r2.ok() == res.ok() && r2.sum == res.sum && w2.accs == w.accs && (r2.ok() || r2.code == res.code);
            }
            let o = j.as_object_mut().unwrap();
            o.insert("r".into(), res.json());
            o.insert("chg".into(), changes::<C>(&before, &w));
            o.insert("eq".into(), json!(eq));
            o.insert("diff".into(), json!(if eq { "" } else { "entrypoint and library function differ" }));
            s.line(&j);
        }
    }
}

fn run<C: Cb>(o: &HashMap<String, String>, s: &mut Sink) -> bool
where
    <C as CallbackInfo>::CallbackId: PartialEq,
{
    let n = |k: &str, d: u64| o.get(k).map(|x| x.parse().unwrap()).unwrap_or(d);
    let only = o.get("only").map(|x| {
        let (a, b) = x.split_once(',').unwrap();
        (a.parse().unwrap(), b.parse().unwrap())
    });
    let name = if only.is_some() { "/dev/null".to_string() } else { format!("{}.pos", o["out"]) };
    let mut r = Replay::<C> {
        t: Tab::load(&o["table"]),
        r: StdRng::seed_from_u64(0),
        pos: std::fs::OpenOptions::new().create(true).write(true).open(name).unwrap(),
        ops: 0,
        oks: 0,
        stamp: s.stamp.clone(),
        _c: Default::default(),
    };
    let seed = n("seed", 1);
    let res = match o["mode"].as_str() {
        "dump" => r.dump(seed, n("part", 0) as usize, n("parts", 1) as usize, s),
        "cover" => r.cover(seed, n("part", 0) as usize, n("parts", 1) as usize, only),
        _ => r.walk(seed, n("from", 0), n("count", 1), n("len", 300), only),
    };
    println!("ops {} ok {} states {}", r.ops, r.oks, r.t.states.len());
    let path = match res {
        Ok(p) => p,
        Err(m) => {
            println!("MISMATCH {}", m.what);
            m.path
        }
    };
    if !path.is_empty() {
        r.record(s, &path);
    }
    s.out.flush().unwrap();
    !path.is_empty()
}

pub fn main(o: &HashMap<String, String>, s: &mut Sink) -> bool {
    match o["kind"].as_str() {
        "A" => run::<[u8; 32]>(o, s),
        "P" => run::<C40>(o, s),
        _ => run::<C8>(o, s),
    }
}
