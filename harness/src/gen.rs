//! Random but guided histories against the real program, recorded for validation by the specification.
use crate::rt::*;
use asset_agnostic_orderbook::state::critbit::Slab;
use asset_agnostic_orderbook::state::event_queue::EventQueue;
use asset_agnostic_orderbook::state::market_state::MarketState;
use asset_agnostic_orderbook::state::orderbook::CallbackInfo;
use asset_agnostic_orderbook::state::Side;
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use std::io::Write;

pub struct Sink {
    pub out: std::io::BufWriter<std::fs::File>,
    pub pend: Option<std::fs::File>,
    pub stamp: std::sync::Arc<std::sync::atomic::AtomicU64>,
    pub ops: u64,
}
impl Sink {
    pub fn line(&mut self, v: &Value) {
        writeln!(self.out, "{}", v).unwrap();
    }
    /// note what is about to run, so that a crash or a hang can be recorded from outside
    pub fn pending(&mut self, v: &Value) {
        use std::os::unix::fs::FileExt;
        self.stamp.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        self.ops += 1;
        if let Some(f) = &self.pend {
            self.out.flush().unwrap();
            let s = format!("{}\n", v);
            f.write_all_at(s.as_bytes(), 0).unwrap();
            f.set_len(s.len() as u64).unwrap();
        }
    }
}

/// what a history is biased towards; every history draws its own parameters from these
#[derive(Clone, Debug)]
pub struct Prof {
    pub kind: char,
    pub markets: usize,
    pub decoys: bool,
    pub caps: (usize, usize),
    pub qcap: usize,
    pub tick: u64,
    pub min: u64,
    pub base: u64,   // price, in ticks
    pub step: u64,   // grid step, in ticks
    pub levels: u64, // grid levels
    pub unit: u64,   // quantity unit
    pub owners: i64,
    pub len: usize,
    pub w_new: u32,
    pub w_cancel: u32,
    pub w_mass: u32,
    pub w_consume: u32,
    pub w_confuse: u32,
    pub w_life: u32,
    pub w_round: u32,
    pub small_ml: f64,
    pub opts: f64,
    pub stb: [u32; 3], // D C A
    pub wild: f64,     // chance of arbitrary 64-bit parameters
    pub eager: f64,    // consume whenever the queue is more than half full
    pub read: f64,
    pub side_bias: f64,
    pub cross: f64,
    pub drain: bool,
    pub aged: f64,
    pub steady: bool,
    pub client: f64, // chance of a dump for the TypeScript client, instead of a read
    pub cheap: f64, // price levels spread over bit lengths instead of a grid
}

fn pick<T: Copy>(r: &mut StdRng, v: &[T]) -> T {
    *v.choose(r).unwrap()
}
/// a number of random bit length
pub fn bits(r: &mut StdRng) -> u64 {
    let n = r.gen_range(0..=64);
    if n == 0 {
        0
    } else {
        r.gen::<u64>() >> (64 - n)
    }
}
fn edge(r: &mut StdRng) -> u64 {
    match r.gen_range(0..10) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::MAX - 1,
        4 => 1 << 63,
        5 => (1 << 32) - 1,
        6 => 1 << 32,
        7 => (1 << 32) + 1,
        8 => 1u64 << r.gen_range(0..64),
        _ => bits(r),
    }
}

pub fn profile(name: &str, r: &mut StdRng) -> Prof {
    let mut p = Prof {
        kind: pick(r, &['A', 'A', 'A', 'P', '8']),
        markets: 1,
        decoys: false,
        caps: (pick(r, &[1, 2, 3, 4, 6, 10, 20]), pick(r, &[1, 2, 3, 4, 6, 10, 20])),
        qcap: pick(r, &[5, 6, 7, 8, 12, 16, 32, 64]),
        tick: 1,
        min: 1,
        base: 0,
        step: 1,
        levels: pick(r, &[1, 2, 3, 4, 8]),
        unit: 1,
        owners: pick(r, &[1, 2, 3, 5]),
        len: r.gen_range(20..60),
        w_new: 60,
        w_cancel: 8,
        w_mass: 4,
        w_consume: 6,
        w_confuse: 0,
        w_life: 0,
        w_round: 0,
        small_ml: 0.25,
        opts: 0.25,
        stb: [3, 1, 1],
        wild: 0.02,
        eager: 0.9,
        read: 0.1,
        side_bias: 0.5,
        cross: 0.5,
        drain: r.gen_bool(0.2),
        steady: false,
        client: 0.0,
        aged: pick(r, &[0.0, 0.3]),
        cheap: 0.0,
    };
    // magnitudes: tick, price, quantity
    let t = r.gen_range(0..6);
    p.tick = match t {
        0 => 1,
        1 => 1 << r.gen_range(0..34),
        2 => pick(r, &[3, 7, 10, 1000, 1_000_000, 4_294_967_297]),
        3 => 1 << 32,
        4 => (bits(r) >> 8).max(1),
        _ => 1 << 31,
    };
    let maxt = u64::MAX / p.tick;
    p.base = match r.gen_range(0..4) {
        0 => r.gen_range(1..=maxt.min(4)),
        1 => ((1u64 << 32) / p.tick.min(1 << 32)).clamp(1, maxt),
        2 => r.gen_range(1..=maxt.min(1000)),
        _ => bits(r).clamp(1, maxt),
    };
    p.step = match r.gen_range(0..3) {
        0 => 1,
        1 => (p.base / 10).max(1),
        _ => (bits(r) % (p.base / 2 + 1)).max(1),
    };
    // so that a unit is worth a few (or a few thousand) units of quote
    let price = (p.base as u128 * p.tick as u128).max(1);
    let worth = |r: &mut StdRng, hi: u128| ((r.gen_range(1..hi) << 32) / price).clamp(1, 1 << 58) as u64;
    p.unit = match r.gen_range(0..10) {
        0 => 1,
        1 => r.gen_range(1..50),
        2 => 1_000_000,
        3 => 1 << r.gen_range(0..60),
        4 | 5 => worth(r, 4_000_000),
        6 | 7 => worth(r, 3000),
        _ => worth(r, 40),
    };
    p.min = match r.gen_range(0..20) {
        0..=7 => 1,
        8..=12 => (p.unit / 2).max(1),
        13..=17 => p.unit,
        _ => p.unit.saturating_mul(3),
    };
    match name {
        "book" => {}
        "match" => {
            p.caps = (20, 20);
            p.qcap = pick(r, &[32, 64]);
            p.levels = pick(r, &[1, 2, 3, 5]);
            p.small_ml = 0.3;
            p.owners = pick(r, &[2, 3, 5, 8]);
        }
        "extreme" => {
            p.wild = 0.5;
            p.tick = pick(r, &[1, 1, 1, 2, 3, 1 << 32, 1 << 63, u64::MAX, 12345]);
            p.base = (u64::MAX / p.tick).min(bits(r)).max(1);
            p.min = pick(r, &[1, 1, 2, 1000, 1 << 33, u64::MAX]);
            p.unit = bits(r).max(1);
            p.w_mass = 8;
        }
        "queue" => {
            p.qcap = pick(r, &[5, 5, 6, 7, 8, 9, 13]);
            p.eager = pick(r, &[0.0, 0.05, 0.3, 0.95]);
            p.w_consume = pick(r, &[4, 12, 25]);
            p.len = r.gen_range(40..110);
            p.w_cancel = 3;
            p.w_mass = 2;
            p.cross = 0.65;
        }
        "full" => {
            p.caps = (pick(r, &[1, 2, 3, 4, 5]), pick(r, &[1, 2, 3, 4, 5]));
            p.cross = 0.12;
            p.levels = pick(r, &[2, 3, 6]);
            p.qcap = pick(r, &[5, 6, 8, 32]);
            p.eager = pick(r, &[0.4, 0.95]);
        }
        "self" => {
            p.owners = pick(r, &[1, 2, 2, 3]);
            p.stb = [1, 2, 1];
            p.cross = 0.65;
            p.qcap = pick(r, &[6, 12, 32]);
        }
        "cancel" => {
            p.w_cancel = 35;
            p.w_mass = 25;
            p.cross = 0.25;
            p.caps = (pick(r, &[2, 4, 10, 20]), pick(r, &[1, 3, 10, 20]));
        }
        "world" => {
            p.markets = pick(r, &[1, 2, 2, 3]);
            p.decoys = true;
            p.w_confuse = 40;
            p.w_life = 12;
            p.caps = (pick(r, &[1, 2, 4]), pick(r, &[1, 2, 4]));
            p.qcap = pick(r, &[5, 6, 8]);
            p.w_new = 30;
            p.w_consume = 8;
            p.drain = true;
            p.len = r.gen_range(20..50);
        }
        "life" => {
            p.markets = pick(r, &[1, 2]);
            p.decoys = true;
            p.w_confuse = 3;
            p.w_life = 10;
            p.caps = (pick(r, &[1, 2, 4]), pick(r, &[1, 2, 4]));
            p.qcap = pick(r, &[5, 6, 8]);
            p.w_new = 20;
            p.w_consume = 12;
            p.w_cancel = 12;
            p.w_mass = 8;
            p.drain = true;
            p.len = r.gen_range(5..30);
        }
        "store" => {
            p.caps = (pick(r, &[8, 16, 40]), pick(r, &[8, 16, 40]));
            p.cheap = pick(r, &[0.0, 0.7, 1.0]);
            p.cross = pick(r, &[0.05, 0.3]);
            p.levels = pick(r, &[2, 8, 30]);
            p.w_cancel = 25;
            p.len = r.gen_range(60..140);
            p.tick = pick(r, &[1, 1, 1 << 20]);
            p.base = bits(r).clamp(1, u64::MAX / p.tick);
            p.min = 1;
            p.unit = pick(r, &[1, 1000]);
        }
        // more than 256 orders on a side
        "large" => {
            p.caps = (pick(r, &[262, 280, 300]), pick(r, &[262, 280, 300]));
            p.qcap = 300;
            p.cross = 0.02;
            p.levels = pick(r, &[3, 40]);
            p.owners = 3;
            p.side_bias = pick(r, &[0.01, 0.99]);
            p.w_cancel = 2;
            p.w_mass = 0;
            p.w_consume = 1;
            p.eager = 0.02;
            p.small_ml = 0.1;
            p.opts = 0.02;
            p.read = 0.01;
            p.wild = 0.0;
            p.len = 460;
            p.drain = true;
            p.steady = true;
        }
        // more than 256 queued events
        "longqueue" => {
            p.caps = (20, 20);
            p.qcap = pick(r, &[257, 300, 320]);
            p.cross = 0.5;
            p.levels = 2;
            p.opts = 0.05;
            p.small_ml = 0.02;
            p.stb = [8, 1, 0];
            p.wild = 0.0;
            p.eager = pick(r, &[0.0, 0.02]);
            p.w_consume = 1;
            p.read = 0.01;
            p.len = 900;
        }
        "round" => {
            p.w_round = 300;
            p.len = 60;
            p.read = 0.3;
        }
        "entry" => {
            p.kind = 'A';
            p.w_cancel = 20;
            p.w_mass = 20;
            p.w_consume = 15;
            p.markets = pick(r, &[1, 2]);
            p.decoys = true;
            p.w_life = 4;
            p.w_confuse = 4;
            p.drain = true;
        }
        "readers" => {
            p.read = 0.8;
            p.w_round = 10;
            p.caps = (pick(r, &[1, 3, 8, 20]), pick(r, &[1, 3, 8, 20]));
        }
        x => panic!("no profile {}", x),
    }
    p.base = p.base.max(1);
    p
}

struct Mk {
    ac: [usize; 4],
    p: Prof,
    ids: Vec<u128>, // every id ever issued
}

pub struct Gen<'a, C: Cb> {
    r: StdRng,
    w: World,
    s: &'a mut Sink,
    pr: Prof,
    mk: Vec<Mk>,
    fresh: Vec<[usize; 4]>,
    odd: Vec<usize>,
    wallets: Vec<usize>,
    nonce: i64,
    last: &'static str,
    _c: std::marker::PhantomData<C>,
}

fn fits_q<C: Cb>(len: usize) -> bool {
    let h = EventQueue::<C>::compute_allocation_size(0);
    let e = EventQueue::<C>::compute_allocation_size(1) - h;
    len >= h + 5 * e && (len - h) % e == 0
}
pub fn fits_s<C: Cb>(len: usize) -> bool {
    let h = Slab::<C>::compute_allocation_size(1);
    let e = Slab::<C>::compute_allocation_size(2) - h;
    len >= h && (len - h) % e == 0
}
fn fits_m(len: usize) -> bool {
    len == 8 + MarketState::LEN
}

pub fn mulq(b: u128, p: u128, up: bool) -> u128 {
    let x = b.saturating_mul(p);
    if up && (x & 0xffff_ffff) != 0 {
        (x >> 32) + 1
    } else {
        x >> 32
    }
}

impl<'a, C: Cb> Gen<'a, C>
where
    <C as CallbackInfo>::CallbackId: PartialEq,
{
    pub fn run(s: &'a mut Sink, r: StdRng, pr: Prof, id: u64) {
        let mut g = Gen::<C> {
            r,
            w: World { accs: vec![] },
            s,
            pr,
            mk: vec![],
            fresh: vec![],
            odd: vec![],
            wallets: vec![],
            nonce: 0,
            last: "",
            _c: Default::default(),
        };
        g.setup();
        let v = json!({"op":"init","full":C::FULL,"w":g.w.all_json::<C>(),"id":id,"kind":g.pr.kind.to_string()});
        g.s.line(&v);
        g.history();
    }

    fn add(&mut self, own: bool, want: &'static str, n: usize, len: usize, lam: u64) -> usize {
        let id = self.w.accs.len() as u32 + 1;
        self.w.accs.push(Acc::new(id, own, want, n, len, lam));
        self.w.accs.len() - 1
    }
    fn add_typed(&mut self, own: bool, want: &'static str, n: usize) -> usize {
        let mut n = n;
        let len = loop {
            let len = match want {
                "m" => 8 + MarketState::LEN,
                "q" => EventQueue::<C>::compute_allocation_size(n),
                _ => Slab::<C>::compute_allocation_size(n),
            };
            let k = [fits_m(len) && want != "m", fits_q::<C>(len) && want != "q", fits_s::<C>(len) && want != "s"];
            if k.iter().any(|x| *x) && want != "m" {
                n += 1;
                continue;
            }
            break len;
        };
        let extra = self.r.gen_range(0..5);
        self.add(own, want, n, len, rent_min(len) + extra)
    }
    fn add_quad(&mut self) -> [usize; 4] {
        let p = self.pr.clone();
        [
            self.add_typed(true, "m", 0),
            self.add_typed(true, "q", p.qcap),
            self.add_typed(true, "s", p.caps.0),
            self.add_typed(true, "s", p.caps.1),
        ]
    }

    fn setup(&mut self) {
        let p = self.pr.clone();
        let k = self.add(false, "x", 0, 0, 1000);
        self.wallets.push(k);
        for _ in 0..p.markets {
            let q = self.add_quad();
            self.fresh.push(q);
        }
        if p.decoys {
            let w = self.add(true, "x", 0, 16, 5);
            self.wallets.push(w);
            // odd accounts: wrong size, no rent, foreign
            for _ in 0..self.r.gen_range(1..4) {
                let want = pick(&mut self.r, &["m", "q", "s"]);
                let k = match self.r.gen_range(0..4) {
                    0 => {
                        let n = if want == "q" { p.qcap } else { p.caps.0 };
                        self.add_typed(false, want, n)
                    }
                    1 => {
                        let n = if want == "q" { p.qcap } else { p.caps.0 };
                        let k = self.add_typed(true, want, n);
                        let len = self.w.accs[k].len;
                        self.w.accs[k].lam = rent_min(len) - 1;
                        k
                    }
                    2 => {
                        let n = self.r.gen_range(0..5);
                        if want == "q" {
                            self.add_typed(true, "q", n)
                        } else {
                            self.add(true, "x", 0, self.odd_len_hint(want, 0), 1_000_000)
                        }
                    }
                    _ => {
                        let mut d = 1;
                        loop {
                            let len = self.odd_len_hint(want, d);
                            if !fits_m(len) && !fits_q::<C>(len) && !fits_s::<C>(len) {
                                break self.add(true, "x", 0, len, 1_000_000);
                            }
                            d += 1;
                        }
                    }
                };
                self.odd.push(k);
            }
        }
    }
    fn odd_len_hint(&self, want: &str, d: usize) -> usize {
        match want {
            "m" => 8 + MarketState::LEN + d * 8 - if d == 0 { 8 } else { 0 },
            "q" => EventQueue::<C>::compute_allocation_size(self.pr.qcap) + d * 8,
            _ => {
                if d == 0 {
                    Slab::<C>::compute_allocation_size(1) - 8
                } else {
                    Slab::<C>::compute_allocation_size(self.pr.caps.0) + d * 8
                }
            }
        }
    }

    // ------------------------------------------------------------ running

    /// run one instruction, record it, return its outcome
    fn exec(&mut self, op: Op) -> Res {
        let j = op.json();
        self.s.pending(&j);
        let before = self.w.clone();
        let res;
        let mut eq = true;
        let mut diff = String::new();
        if self.pr.kind == 'A' {
            let first_entry = self.r.gen_bool(0.7);
            let mut w2 = self.w.clone();
            // the library call knows nothing of accounts' write permissions beyond what we grant
            let (a, b);
            if first_entry {
                a = entry(&mut self.w, &op);
                b = direct::<C>(&mut w2, &op);
            } else {
                a = direct::<C>(&mut self.w, &op);
                b = entry(&mut w2, &op);
            }
            let same = a.ok() == b.ok() && a.sum == b.sum && (a.k != "err" || b.k != "err" || a.code == b.code);
            if !same {
                eq = false;
                diff = format!(
                    "entrypoint and library function differ in outcome ({} {} / {} {})",
                    a.k,
                    if a.k == "err" { &a.code } else { "" },
                    b.k,
                    if b.k == "err" { &b.code } else { "" }
                );
            } else if self.w.accs != w2.accs {
                eq = false;
                diff = "entrypoint and library function leave different accounts".into();
            }
            res = a;
        } else {
            res = direct::<C>(&mut self.w, &op);
        }
        self.record(j, &before, &res, eq, &diff);
        res
    }

    fn record(&mut self, mut j: Value, before: &World, res: &Res, eq: bool, diff: &str) {
        let o = j.as_object_mut().unwrap();
        o.insert("r".into(), res.json());
        o.insert("chg".into(), changes::<C>(before, &self.w));
        o.insert("eq".into(), json!(eq));
        o.insert("diff".into(), json!(diff));
        self.s.line(&j);
    }
    fn env(&mut self, before: World) {
        let v = json!({"op":"env","add":[],"chg":changes::<C>(&before, &self.w)});
        self.s.line(&v);
    }

    fn view(&self, i: usize) -> View {
        self.w.view::<C>(i)
    }
    fn book(&self, m: usize) -> (Vec<Order>, Vec<Order>) {
        let ac = self.mk[m].ac;
        let f = |i| match self.view(i) {
            View::S { os, .. } => os,
            _ => vec![],
        };
        (f(ac[2]), f(ac[3]))
    }
    fn queue_len(&self, m: usize) -> usize {
        match self.view(self.mk[m].ac[1]) {
            View::E { ev } => ev.len(),
            _ => 0,
        }
    }

    // ------------------------------------------------------------ histories

    fn create(&mut self, q: [usize; 4]) {
        let mut p = self.pr.clone();
        if self.r.gen_bool(0.05) {
            p.min = edge(&mut self.r);
        }
        if self.r.gen_bool(0.03) {
            p.tick = edge(&mut self.r);
        }
        let res = self.exec(Op::Create { ac: q.to_vec(), min: p.min, tick: p.tick });
        if res.ok() {
            self.fresh.retain(|x| *x != q);
            self.mk.push(Mk { ac: q, p, ids: vec![] });
            if self.r.gen_bool(self.pr.aged) {
                self.age(q[1]);
            }
        }
    }
    /// a market that has issued many ids before: the sequence number of its fresh queue is moved on
    fn age(&mut self, i: usize) {
        let n = match self.r.gen_range(0..8) {
            0 => (1u64 << 8) - 3,
            1 => (1u64 << 16) - 3,
            2 | 3 => (1u64 << 32) - self.r.gen_range(1..6),
            4 => (1u64 << 31) - 2,
            5 => (1u64 << 63) - 1_000_000,
            6 => (1u64 << self.r.gen_range(8..62)) - self.r.gen_range(0..4),
            _ => bits(&mut self.r) >> 2,
        };
        if self.w.accs[i].data()[24..32] == [0; 8] {
            self.w.accs[i].data_mut()[24..32].copy_from_slice(&n.to_le_bytes());
            self.s.line(&json!({"op":"env","add":[],"chg":[],"aged":n.to_string()}));
        }
    }

    fn history(&mut self) {
        let p = self.pr.clone();
        while !self.fresh.is_empty() && (self.mk.len() < p.markets) {
            let q = self.fresh[0];
            if p.decoys && self.r.gen_bool(0.3) {
                self.confused_create();
            }
            self.create(q);
            if self.fresh.contains(&q) {
                // refused for its parameters: once more with good ones
                let res = self.exec(Op::Create { ac: q.to_vec(), min: p.min, tick: p.tick });
                self.fresh.retain(|x| *x != q);
                if res.ok() {
                    self.mk.push(Mk { ac: q, p: p.clone(), ids: vec![] });
                } else {
                    return;
                }
            }
        }
        if self.mk.is_empty() {
            return;
        }
        if p.decoys {
            self.copies();
        }
        for _ in 0..p.len {
            self.step();
        }
        if p.drain {
            self.drain();
        }
    }

    /// foreign-owned and look-alike copies of a market's accounts
    fn copies(&mut self) {
        let before = self.w.clone();
        for _ in 0..self.r.gen_range(0..3) {
            let m = self.r.gen_range(0..self.mk.len());
            let k = self.mk[m].ac[self.r.gen_range(0..4)];
            // the bytes of an account under another key, not owned by the program
            let mut a = self.w.accs[k].clone();
            let tmp = Acc::new(self.w.accs.len() as u32 + 1, false, a.want, a.n, 8, 0);
            a.key = tmp.key;
            a.owner = tmp.owner;
            self.w.accs.push(a);
            self.odd.push(self.w.accs.len() - 1);
        }
        if self.w.accs.len() != before.accs.len() {
            let add: Vec<Value> = (before.accs.len()..self.w.accs.len()).map(|i| self.w.view_json::<C>(i)).collect();
            let v = json!({"op":"env","add":add,"chg":[]});
            self.s.line(&v);
        }
    }

    fn step(&mut self) {
        let p = self.pr.clone();
        let m = self.r.gen_range(0..self.mk.len());
        let ql = self.queue_len(m);
        if ql * 2 > p.qcap && self.r.gen_bool(p.eager) {
            self.consume(m);
        }
        let tot = p.w_new + p.w_cancel + p.w_mass + p.w_consume + p.w_confuse + p.w_life + p.w_round;
        let mut x = self.r.gen_range(0..tot);
        let mut hit = |w: u32| {
            if x < w {
                x = u32::MAX;
                true
            } else {
                if x != u32::MAX {
                    x -= w;
                }
                false
            }
        };
        if hit(p.w_new) {
            let op = self.gen_new(m);
            self.run_new(m, op);
        } else if hit(p.w_cancel) {
            let op = self.gen_cancel(m);
            self.exec(op);
        } else if hit(p.w_mass) {
            let op = self.gen_mass(m);
            self.exec(op);
        } else if hit(p.w_consume) {
            self.consume(m);
        } else if hit(p.w_confuse) {
            self.confused(m);
        } else if hit(p.w_life) {
            self.life(m);
        } else {
            self.round();
        }
        if self.r.gen_bool(p.read) {
            self.read(m);
        }
    }

    fn run_new(&mut self, m: usize, op: Op) -> Res {
        let res = self.exec(op);
        if let Some(Sum { id: Some(id), .. }) = res.sum {
            self.mk[m].ids.push(id);
        }
        res
    }

    fn consume(&mut self, m: usize) {
        let l = self.queue_len(m) as u64;
        let n = match self.r.gen_range(0..10) {
            0 => 0,
            1 => 1,
            2 => l,
            3 => l + 1,
            4 => l.saturating_sub(1),
            5 => edge(&mut self.r),
            6 => self.pr.qcap as u64,
            _ => self.r.gen_range(0..=l),
        };
        let ac = self.mk[m].ac;
        self.exec(Op::Consume { ac: ac[..2].to_vec(), n });
    }

    fn round(&mut self) {
        let r = &mut self.r;
        let tick = match r.gen_range(0..4) {
            0 => edge(r),
            1 => bits(r),
            2 => r.gen_range(1..20),
            _ => self.pr.tick,
        }
        .max(1);
        let p = match r.gen_range(0..5) {
            0 => edge(r),
            1 => bits(r),
            2 => u64::MAX - r.gen_range(0..3),
            3 => (bits(r) / tick).saturating_mul(tick).saturating_add(r.gen_range(0..3)),
            _ => (u64::MAX / tick).saturating_mul(tick).wrapping_add(r.gen_range(0..3)).wrapping_sub(1),
        };
        let s = if r.gen() { Side::Bid } else { Side::Ask };
        let mut j = json!({"op":"round","tick":num(tick),"p":num(p),"s":if s == Side::Bid {"B"} else {"A"},"ok":false,"out":[]});
        self.s.pending(&j);
        j = round_json(tick, p, s);
        self.s.line(&j);
    }

    fn read(&mut self, m: usize) {
        let ac = self.mk[m].ac;
        match (self.view(ac[0]), self.view(ac[1]), self.view(ac[2]), self.view(ac[3])) {
            (View::M { .. }, View::E { .. }, View::S { .. }, View::S { .. }) => {}
            _ => return,
        }
        let mut probes = vec![];
        for _ in 0..self.r.gen_range(1..8) {
            probes.push(self.any_id(m));
        }
        if self.r.gen_bool(self.pr.client) {
            let mut ns = vec![pick(&mut self.r, &[0, 1, 2, 3]), self.r.gen_range(0..12)];
            ns.push(pick(&mut self.r, &[4, 5, 64, 1000]));
            let v = ts_json::<C>(&self.w, &ac, &probes, &ns);
            self.s.line(&v);
            return;
        }
        let acj: Vec<usize> = ac.iter().map(|i| i + 1).collect();
        self.s.pending(&json!({"op":"readfail","ac":acj,"code":"crash"}));
        let v = read_json::<C>(&self.w, &ac, &probes);
        self.s.line(&v);
    }

    // ------------------------------------------------------------ orders

    fn price(&mut self, m: usize, side: Side, own: &[Order], opp: &[Order]) -> u64 {
        let p = self.mk[m].p.clone();
        let r = &mut self.r;
        let tick = p.tick.max(1);
        let maxt = u64::MAX / tick;
        if r.gen_bool(p.wild) {
            let x = edge(r);
            return if r.gen_bool(0.85) { (x / tick).max(1) * tick } else { x };
        }
        let to = |k: u128| (k.clamp(1, maxt as u128) as u64) * tick;
        // best of the other side, worst/best of the own side
        let best = |os: &[Order], s: Side| {
            if s == Side::Bid { os.last() } else { os.first() }.map(|o| split(o.id).0)
        };
        let ob = best(opp, side.opposite());
        let cross = r.gen_bool(p.cross);
        let roll = r.gen_range(0..100);
        let mut x = if roll < 4 {
            // the extremes
            pick(r, &[tick, maxt * tick, 0, tick])
        } else if p.cheap > 0.0 && r.gen_bool(p.cheap) {
            to(bits(r) as u128 / tick as u128)
        } else if let (Some(b), true) = (ob, cross) {
            let k = (b / tick) as u128;
            let far = match r.gen_range(0..5) {
                0 | 1 => 0,
                2 => 1,
                3 => p.step as u128,
                _ => p.step as u128 * p.levels as u128,
            };
            match side {
                Side::Bid => to(k + far),
                Side::Ask => to(k.saturating_sub(far)),
            }
        } else if roll < 20 && !own.is_empty() {
            let o = if r.gen() { &own[0] } else { &own[own.len() - 1] };
            let k = (split(o.id).0 / tick) as u128;
            to((k + r.gen_range(0..3)).saturating_sub(1))
        } else {
            // a grid around the base price, bids below, asks above
            let j = r.gen_range(0..p.levels) as u128 * p.step as u128;
            let k = p.base as u128;
            match side {
                Side::Bid => to(k.saturating_sub(j + if cross { 0 } else { 1 })),
                Side::Ask => to(k + j),
            }
        };
        if r.gen_bool(0.02) {
            x = x.wrapping_add(pick(r, &[1, tick / 2, u64::MAX]));
        }
        x
    }

    fn gen_new(&mut self, m: usize) -> Op {
        let side = if self.r.gen_bool(self.pr.side_bias) { Side::Bid } else { Side::Ask };
        if !self.pr.steady && self.r.gen_bool(0.1) {
            self.pr.side_bias = pick(&mut self.r, &[0.1, 0.3, 0.5, 0.5, 0.7, 0.9]);
        }
        let (bids, asks) = self.book(m);
        let (own, mut opp) = match side {
            Side::Bid => (bids, asks),
            Side::Ask => (asks, bids),
        };
        let p = self.price(m, side, &own, &opp);
        if side == Side::Ask {
            opp.reverse(); // best first
        }
        let pr = self.mk[m].p.clone();
        let r = &mut self.r;
        // what would be met within the limit
        let met: Vec<(u64, u64)> = opp
            .iter()
            .map(|o| (split(o.id).0, o.b))
            .filter(|(q, _)| match side {
                Side::Bid => *q <= p,
                Side::Ask => *q >= p,
            })
            .collect();
        let wild = r.gen_bool(pr.wild);
        // base
        let j = if met.is_empty() { 0 } else { r.gen_range(1..=met.len().min(6)) };
        let sum: u128 = met[..j].iter().map(|x| x.1 as u128).sum();
        let near = |r: &mut StdRng, x: u128, min: u64| -> u64 {
            let d = match r.gen_range(0..9) {
                0..=2 => 0i128,
                3 => 1,
                4 => -1,
                5 => min as i128,
                6 => -(min as i128),
                7 => min as i128 - 1,
                _ => 1 - (min as i128),
            };
            (x as i128).saturating_add(d).clamp(0, u64::MAX as i128) as u64
        };
        let mb = if wild {
            edge(r)
        } else {
            match r.gen_range(0..20) {
                0..=8 if j > 0 => near(r, sum, pr.min),
                9 => u64::MAX,
                10 => near(r, pr.min as u128, 1),
                11 => pr.min,
                12 if j > 0 => (sum / 2) as u64,
                _ => pr.unit.saturating_mul(r.gen_range(1..30)),
            }
        };
        // quote
        let up = side == Side::Bid;
        let mut left = mb as u128;
        let mut val = 0u128;
        for (q, b) in met[..j].iter() {
            let t = (*b as u128).min(left);
            val += mulq(t, *q as u128, up);
            left -= t;
        }
        let mq = if wild && r.gen() {
            edge(r)
        } else {
            match r.gen_range(0..20) {
                0..=4 if j > 0 => near(r, val, 1),
                5..=6 => near(r, val + mulq(left, p as u128, up), 1),
                7 => near(r, mulq(pr.min as u128, p as u128, up), 1),
                8 => near(r, mulq(mb as u128, p as u128, up), 1),
                9 => mulq(pr.unit as u128 * r.gen_range(1..20u128), p as u128, false).min(u64::MAX as u128) as u64,
                10 => edge(r),
                11 if j > 0 => (val / 2) as u64,
                _ => u64::MAX,
            }
        };
        let ml = if r.gen_bool(pr.small_ml) {
            let k = if r.gen() { j as u64 } else { met.len() as u64 };
            match r.gen_range(0..6) {
                0 if k > 0 => k,
                1 => k + 1,
                2 if k > 1 || r.gen_bool(0.2) => k.saturating_sub(1),
                3 => 1,
                4 if r.gen_bool(0.3) => 0,
                _ => r.gen_range(1..4),
            }
        } else {
            match r.gen_range(0..8) {
                0 => 1u64 << r.gen_range(6..64),
                1 => (1u64 << r.gen_range(6..64)) + r.gen_range(0..3),
                2 => u64::MAX - r.gen_range(0..3),
                3 | 4 => 1000,
                5 => 64,
                _ => u64::MAX,
            }
        };
        let owner = r.gen_range(1..=pr.owners);
        self.nonce += 1;
        // whole callback infos are equal only if the nonces are, too
        let nonce = if pr.kind == 'A' && r.gen_bool(0.8) { 0 } else { self.nonce };
        let po = r.gen_bool(pr.opts * 0.4);
        let pa = !r.gen_bool(pr.opts * if met.is_empty() { 0.2 } else { 0.7 });
        let s = pr.stb;
        let k = r.gen_range(0..s[0] + s[1] + s[2]);
        let stb = if k < s[0] {
            'D'
        } else if k < s[0] + s[1] {
            'C'
        } else {
            'A'
        };
        Op::New {
            ac: self.mk[m].ac.to_vec(),
            x: NewP { s: side, p, mb, mq, ml, c: (owner, nonce), po, pa, stb },
        }
    }

    /// an id: resting, gone, of another market, or made up
    fn any_id(&mut self, m: usize) -> u128 {
        let (b, a) = self.book(m);
        let rest: Vec<u128> = b.iter().chain(a.iter()).map(|o| o.id).collect();
        let r = &mut self.r;
        let some = if rest.is_empty() { self.mk[m].ids.choose(r).copied() } else { rest.choose(r).copied() };
        match (r.gen_range(0..12), some) {
            (0..=5, Some(id)) => id,
            (6, _) if !self.mk[m].ids.is_empty() => *self.mk[m].ids.choose(r).unwrap(),
            (7, Some(id)) => id ^ (1u128 << r.gen_range(0..128)),
            (8, Some(id)) => !id,
            (8, None) => pick(r, &[0, u128::MAX]),
            (9, Some(id)) => id.wrapping_add(pick(r, &[1, 1u128 << 64, u128::MAX, 1u128 << 63])),
            (10, _) => pick(r, &[0, u128::MAX, 1u128 << 63, 1u128 << 127]),
            (11, _) => ((bits(r) as u128) << 64) | bits(r) as u128,
            _ => {
                let o = r.gen_range(0..self.mk.len());
                self.mk[o].ids.last().copied().unwrap_or(7)
            }
        }
    }
    fn gen_cancel(&mut self, m: usize) -> Op {
        let id = self.any_id(m);
        Op::Cancel { ac: self.mk[m].ac.to_vec(), id }
    }
    fn gen_mass(&mut self, m: usize) -> Op {
        let (b, a) = self.book(m);
        let mut ids: Vec<u128> = b.iter().chain(a.iter()).map(|o| o.id).collect();
        ids.shuffle(&mut self.r);
        let n = match self.r.gen_range(0..8) {
            0 => 0,
            1 => ids.len(),
            2 => 1,
            _ => self.r.gen_range(0..=ids.len().min(8)),
        };
        ids.truncate(n);
        if self.r.gen_bool(0.15) && !ids.is_empty() {
            let x = *ids.choose(&mut self.r).unwrap();
            let at = self.r.gen_range(0..=ids.len());
            ids.insert(at, x);
        }
        if self.r.gen_bool(0.2) {
            let x = self.any_id(m);
            let at = self.r.gen_range(0..=ids.len());
            ids.insert(at, x);
        }
        Op::Mass { ac: self.mk[m].ac.to_vec(), ids }
    }

    // ------------------------------------------------------------ accounts

    fn any_op(&mut self, m: usize) -> Op {
        match self.r.gen_range(0..12) {
            0..=3 => self.gen_new(m),
            4 | 5 => self.gen_cancel(m),
            6 | 7 => self.gen_mass(m),
            8 | 9 => Op::Consume { ac: self.mk[m].ac[..2].to_vec(), n: self.r.gen_range(0..3) },
            10 => {
                let t = *self.wallets.choose(&mut self.r).unwrap();
                let mut ac = self.mk[m].ac.to_vec();
                ac.push(t);
                Op::Close { ac }
            }
            _ => Op::Create { ac: self.mk[m].ac.to_vec(), min: self.pr.min, tick: self.pr.tick },
        }
    }

    /// an operation with some accounts exchanged
    fn confused(&mut self, m: usize) {
        let mut op = self.any_op(m);
        let n = op.ac().len();
        if self.r.gen_bool(0.25) {
            // one of the accounts has fallen into foreign hands
            let i = op.ac()[self.r.gen_range(0..n.min(4))];
            let before = self.w.clone();
            let old = self.w.accs[i].owner;
            self.w.accs[i].owner = if old == program_id() {
                foreign(self.r.gen_range(0..224))
            } else {
                program_id()
            };
            self.env(before);
            let res = self.exec(op);
            if let Some(Sum { id: Some(id), .. }) = res.sum {
                self.mk[m].ids.push(id);
            }
            let before = self.w.clone();
            self.w.accs[i].owner = old;
            self.env(before);
            return;
        }
        for _ in 0..self.r.gen_range(1..3) {
            let k = self.r.gen_range(0..n);
            let other = match self.r.gen_range(0..4) {
                0 => {
                    let o = self.r.gen_range(0..self.mk.len());
                    self.mk[o].ac[k.min(3)]
                }
                1 => self.mk[m].ac[self.r.gen_range(0..4)],
                2 if !self.odd.is_empty() => *self.odd.choose(&mut self.r).unwrap(),
                _ => self.r.gen_range(0..self.w.accs.len()),
            };
            if self.r.gen_bool(0.25) && n >= 4 {
                op.ac_mut().swap(2, 3);
            } else {
                op.ac_mut()[k] = other;
            }
        }
        let res = self.exec(op);
        if let Some(Sum { id: Some(id), .. }) = res.sum {
            self.mk[m].ids.push(id);
        }
    }
    fn confused_create(&mut self) {
        let q = *self.fresh.choose(&mut self.r).unwrap();
        let mut ac = q.to_vec();
        let k = self.r.gen_range(0..4);
        ac[k] = if !self.odd.is_empty() && self.r.gen_bool(0.6) {
            *self.odd.choose(&mut self.r).unwrap()
        } else {
            self.r.gen_range(0..self.w.accs.len())
        };
        let (mut min, mut tick) = (self.pr.min, self.pr.tick);
        match self.r.gen_range(0..8) {
            0 => min = 0,
            1 => tick = 0,
            _ => {}
        }
        let res = self.exec(Op::Create { ac: ac.clone(), min, tick });
        if res.ok() {
            let q2 = [ac[0], ac[1], ac[2], ac[3]];
            self.fresh.retain(|x| !x.iter().any(|i| q2.contains(i)));
            let mut p = self.pr.clone();
            p.min = min;
            p.tick = tick;
            self.mk.push(Mk { ac: q2, p, ids: vec![] });
            if self.fresh.is_empty() {
                let before = self.w.clone();
                let q = self.add_quad();
                self.fresh.push(q);
                self.added(&before);
            }
        }
    }
    fn added(&mut self, before: &World) {
        let add: Vec<Value> = (before.accs.len()..self.w.accs.len()).map(|i| self.w.view_json::<C>(i)).collect();
        let v = json!({"op":"env","add":add,"chg":[]});
        self.s.line(&v);
    }

    fn life(&mut self, m: usize) {
        match self.r.gen_range(0..6) {
            0 => {
                self.drain_market(m);
            }
            1 | 2 => {
                let t = *self.wallets.choose(&mut self.r).unwrap();
                let mut ac = self.mk[m].ac.to_vec();
                ac.push(t);
                self.exec(Op::Close { ac });
            }
            3 => {
                let (min, tick) = (self.pr.min, self.pr.tick);
                let ac = self.mk[m].ac.to_vec();
                self.exec(Op::Create { ac, min, tick });
            }
            4 => {
                // closed accounts are purged and allocated afresh, zeroed
                let ac = self.mk[m].ac;
                if !ac.iter().all(|i| matches!(self.view(*i), View::D)) {
                    return;
                }
                let before = self.w.clone();
                for i in ac {
                    let len = self.w.accs[i].len;
                    let a = &mut self.w.accs[i];
                    a.buf.iter_mut().for_each(|x| *x = 0);
                    a.lam = rent_min(len) + 1;
                }
                self.env(before);
                let p = self.pr.clone();
                let res = self.exec(Op::Create { ac: ac.to_vec(), min: p.min, tick: p.tick });
                if res.ok() {
                    self.mk[m].ids.clear();
                }
            }
            _ => {
                if self.mk.len() < 4 {
                    let before = self.w.clone();
                    let q = self.add_quad();
                    self.fresh.push(q);
                    self.added(&before);
                    self.confused_create();
                    if self.fresh.contains(&q) {
                        self.create(q);
                    }
                    self.fresh.clear();
                }
            }
        }
    }

    fn drain_market(&mut self, m: usize) {
        let ac = self.mk[m].ac;
        if !matches!(self.view(ac[0]), View::M { .. }) {
            return;
        }
        let t = *self.wallets.choose(&mut self.r).unwrap();
        let mut cl = ac.to_vec();
        cl.push(t);
        if self.r.gen() {
            self.exec(Op::Close { ac: cl.clone() });
        }
        let cons = |g: &mut Self| {
            let n = pick(&mut g.r, &[u64::MAX, g.pr.qcap as u64, 1000]);
            g.exec(Op::Consume { ac: ac[..2].to_vec(), n });
        };
        let canc = |g: &mut Self| {
            let (b, a) = g.book(m);
            let mut ids: Vec<u128> = b.iter().chain(a.iter()).map(|o| o.id).collect();
            ids.shuffle(&mut g.r);
            let half = ids.len() / 2;
            for id in ids.drain(..half.min(3)) {
                g.exec(Op::Cancel { ac: ac.to_vec(), id });
            }
            while !ids.is_empty() {
                let n = ids.len().min(20);
                let part: Vec<u128> = ids.drain(..n).collect();
                let res = g.exec(Op::Mass { ac: ac.to_vec(), ids: part.clone() });
                if !res.ok() {
                    for id in part {
                        g.exec(Op::Cancel { ac: ac.to_vec(), id });
                    }
                }
            }
        };
        let order = self.r.gen_bool(0.5);
        if order {
            cons(self);
        } else {
            canc(self);
        }
        if self.r.gen() {
            self.exec(Op::Close { ac: cl.clone() });
        }
        if order {
            canc(self);
        } else {
            cons(self);
        }
        if self.r.gen_bool(0.3) {
            self.read(m);
        }
        let res = self.exec(Op::Close { ac: cl });
        if res.ok() {
            for _ in 0..self.r.gen_range(0..5) {
                let op = self.any_op(m);
                self.exec(op);
            }
        }
    }
    fn drain(&mut self) {
        for m in 0..self.mk.len() {
            self.drain_market(m);
        }
        self.last = "drained";
    }
}

pub fn history(s: &mut Sink, name: &str, seed: u64, id: u64) {
    let mut h = 0xcbf29ce484222325u64;
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = StdRng::seed_from_u64(h ^ seed.wrapping_mul(0x9E3779B97F4A7C15) ^ id.wrapping_mul(0xD1B54A32D192ED03));
    // "ts-NAME": the history of NAME, with dumps for the TypeScript client in place of reads
    let ts = name.strip_prefix("ts-");
    let mut p = profile(ts.unwrap_or(name), &mut r);
    if ts.is_some() {
        p.client = 1.0;
        p.read = if p.len > 200 { 0.01 } else { 0.3 };
    }
    match p.kind {
        'A' => Gen::<[u8; 32]>::run(s, r, p, id),
        'P' => Gen::<C40>::run(s, r, p, id),
        _ => Gen::<C8>::run(s, r, p, id),
    }
}
