//! A miniature runtime: accounts, atomic execution of one instruction against the real program, and
//! the projection of the accounts' bytes to the state of the specification.
use asset_agnostic_orderbook::error::AoError;
use asset_agnostic_orderbook::instruction::{
    self, cancel_order, close_market, consume_events, create_market, mass_cancel_orders, new_order,
};
use asset_agnostic_orderbook::state::critbit::{NodeHandle, Slab};
use asset_agnostic_orderbook::state::event_queue::{EventQueue, EventRef};
use asset_agnostic_orderbook::state::market_state::MarketState;
use asset_agnostic_orderbook::state::orderbook::CallbackInfo;
use asset_agnostic_orderbook::state::{
    get_side_from_order_id, AccountTag, OrderSummary, SelfTradeBehavior, Side,
};
use asset_agnostic_orderbook::utils;
use borsh::BorshDeserialize;
use bytemuck::{Pod, Zeroable};
use serde_json::{json, Value};
use solana_program::account_info::AccountInfo;
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn program_id() -> Pubkey {
    asset_agnostic_orderbook::id()
}

/// someone else's id, which differs from the program's in one byte
pub fn foreign(k: usize) -> Pubkey {
    let mut b = program_id().to_bytes();
    b[(k * 7) % 32] ^= 1 << (k % 8);
    Pubkey::new_from_array(b)
}
fn rent() -> Rent {
    Rent {
        lamports_per_byte_year: 1,
        exemption_threshold: 2.0,
        burn_percent: 50,
    }
}
pub fn rent_min(len: usize) -> u64 {
    rent().minimum_balance(len)
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut Rent) = rent() };
        0
    }
}

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn install() {
    set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = format!("{}", i));
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

// ---------------------------------------------------------------- numbers

pub fn num128(mut x: u128) -> Value {
    let mut v = vec![];
    while x > 0 {
        v.push((x & 16383) as u64);
        x >>= 14;
    }
    json!(v)
}
pub fn num(x: u64) -> Value {
    num128(x as u128)
}
pub fn unnum(v: &Value) -> u128 {
    let mut r = 0u128;
    for (i, d) in v.as_array().unwrap().iter().enumerate() {
        r |= (d.as_u64().unwrap() as u128) << (14 * i);
    }
    r
}

// ------------------------------------------------------- callback info types

pub trait Cb: CallbackInfo + PartialEq {
    /// is the callback identity the whole info?
    const FULL: bool;
    fn mk(owner: i64, nonce: i64) -> Self;
    fn rd(&self) -> (i64, i64);
}

fn pat(o: i64, n: i64, i: usize) -> u8 {
    ((o.wrapping_mul(131) + n.wrapping_mul(31) + (i as i64) * 7) & 0xff) as u8
}
fn bad_cb(b: &[u8]) -> (i64, i64) {
    let mut h = 7i64;
    for x in b {
        h = (h * 31 + *x as i64) % 1_000_003;
    }
    (-1, h)
}

impl Cb for [u8; 32] {
    const FULL: bool = true;
    fn mk(o: i64, n: i64) -> Self {
        let mut r = [0u8; 32];
        r[..4].copy_from_slice(&(o as u32).to_le_bytes());
        r[4..8].copy_from_slice(&(n as u32).to_le_bytes());
        for i in 8..32 {
            r[i] = pat(o, n, i);
        }
        r
    }
    fn rd(&self) -> (i64, i64) {
        let o = u32::from_le_bytes(self[..4].try_into().unwrap()) as i64;
        let n = u32::from_le_bytes(self[4..8].try_into().unwrap()) as i64;
        if o < 1 << 30 && n < 1 << 30 && *self == Self::mk(o, n) {
            (o, n)
        } else {
            bad_cb(self)
        }
    }
}

#[derive(Clone, Copy, Pod, Zeroable, PartialEq)]
#[repr(C)]
pub struct C40 {
    id: [u8; 32],
    tail: u64,
}
impl CallbackInfo for C40 {
    type CallbackId = [u8; 32];
    fn as_callback_id(&self) -> &[u8; 32] {
        &self.id
    }
}
impl Cb for C40 {
    const FULL: bool = false;
    fn mk(o: i64, n: i64) -> Self {
        C40 {
            id: <[u8; 32]>::mk(o, 0),
            tail: n as u64,
        }
    }
    fn rd(&self) -> (i64, i64) {
        let (o, z) = self.id.rd();
        if o < 0 || z != 0 || self.tail >= 1 << 30 {
            bad_cb(bytemuck::bytes_of(self))
        } else {
            (o, self.tail as i64)
        }
    }
}

#[derive(Clone, Copy, Pod, Zeroable, PartialEq)]
#[repr(C)]
pub struct C8 {
    id: u32,
    tail: u32,
}
impl CallbackInfo for C8 {
    type CallbackId = u32;
    fn as_callback_id(&self) -> &u32 {
        &self.id
    }
}
impl Cb for C8 {
    const FULL: bool = false;
    fn mk(o: i64, n: i64) -> Self {
        C8 {
            id: o as u32,
            tail: n as u32,
        }
    }
    fn rd(&self) -> (i64, i64) {
        if self.id < 1 << 30 && self.tail < 1 << 30 {
            (self.id as i64, self.tail as i64)
        } else {
            bad_cb(bytemuck::bytes_of(self))
        }
    }
}

// ---------------------------------------------------------------- accounts

#[derive(Clone, PartialEq)]
pub struct Acc {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub lam: u64,
    pub buf: Vec<u64>,
    pub len: usize,
    pub want: &'static str,
    pub n: usize,
}
impl Acc {
    pub fn new(id: u32, own: bool, want: &'static str, n: usize, len: usize, lam: u64) -> Acc {
        // keys differ in as little as one byte, anywhere
        let mut k = [7u8; 32];
        k[(id as usize * 11) % 32] = (8 + id % 240) as u8;
        if id >= 240 {
            k[(id as usize * 13 + 5) % 32] ^= (id / 240) as u8;
        }
        Acc {
            key: Pubkey::new_from_array(k),
            owner: if own {
                program_id()
            } else {
                foreign(id as usize)
            },
            lam,
            buf: vec![0; len / 8 + 1],
            len,
            want,
            n,
        }
    }
    pub fn data(&self) -> &[u8] {
        &bytemuck::cast_slice(&self.buf)[..self.len]
    }
    pub fn data_mut(&mut self) -> &mut [u8] {
        let l = self.len;
        &mut bytemuck::cast_slice_mut(&mut self.buf)[..l]
    }
    fn tag(&self) -> u64 {
        self.buf[0]
    }
}

#[derive(Clone)]
pub struct World {
    pub accs: Vec<Acc>,
}

#[derive(Clone, Debug)]
pub struct Order {
    pub id: u128,
    pub b: u64,
    pub c: (i64, i64),
}
#[derive(Clone, Debug)]
pub enum View {
    U,
    M { q: usize, b: usize, a: usize, min: u64, tick: u64 },
    E { ev: Vec<Value> },
    S { bids: bool, os: Vec<Order> },
    D,
    X,
}

fn id2(k: [u64; 2]) -> (u64, u64) {
    (k[1], k[0])
}
pub fn split(id: u128) -> (u64, u64) {
    ((id >> 64) as u64, id as u64)
}
fn side_s(s: u8) -> String {
    match s {
        0 => "B".into(),
        1 => "A".into(),
        x => format!("?{}", x),
    }
}

pub fn event_json<C: Cb>(e: EventRef<'_, C>) -> Value {
    match e {
        EventRef::Fill(f) => {
            let (p, l) = id2(f.event.maker_order_id);
            let (m, t) = (f.maker_callback_info.rd(), f.taker_callback_info.rd());
            json!({"k":"F","s":side_s(f.event.taker_side),"p":num(p),"l":num(l),"b":num(f.event.base_size),
                "q":num(f.event.quote_size),"m":[m.0,m.1],"t":[t.0,t.1]})
        }
        EventRef::Out(o) => {
            let (p, l) = id2(o.event.order_id);
            let m = o.callback_info.rd();
            json!({"k":"O","s":side_s(o.event.side),"p":num(p),"l":num(l),"b":num(o.event.base_size),
                "q":num(0),"m":[m.0,m.1],"t":[0,0]})
        }
    }
}

fn cb_of<C: Cb>(slab: &Slab<'_, C>, id: u128) -> Option<(u64, (i64, i64))> {
    let h: Option<NodeHandle> = slab.find_by_key(id);
    h.map(|h| {
        (
            slab.leaf_nodes[h as usize].base_quantity,
            slab.get_callback_info(h).rd(),
        )
    })
}

impl World {
    pub fn idx(&self, k: &Pubkey) -> usize {
        self.accs.iter().position(|a| a.key == *k).map(|i| i + 1).unwrap_or(0)
    }

    pub fn view<C: Cb>(&self, i: usize) -> View {
        let r = catch_unwind(AssertUnwindSafe(|| self.view_inner::<C>(i)));
        r.unwrap_or(View::X)
    }

    fn view_inner<C: Cb>(&self, i: usize) -> View {
        let a = &self.accs[i];
        if a.len < 8 {
            return View::U;
        }
        let t = a.tag();
        if t == AccountTag::Uninitialized as u64 {
            View::U
        } else if t == AccountTag::Disabled as u64 {
            View::D
        } else if t == AccountTag::Market as u64 && a.len == 8 + MarketState::LEN {
            let mut c = a.clone();
            let m = *MarketState::from_buffer(c.data_mut(), AccountTag::Market).unwrap();
            View::M {
                q: self.idx(&m.event_queue),
                b: self.idx(&m.bids),
                a: self.idx(&m.asks),
                min: m.min_base_order_size,
                tick: m.tick_size,
            }
        } else if t == AccountTag::EventQueue as u64 {
            let mut c = a.clone();
            let q = EventQueue::<C>::from_buffer(c.data_mut(), AccountTag::EventQueue).unwrap();
            let ev = q.iter().take(a.n + 2).map(event_json).collect();
            View::E { ev }
        } else if t == AccountTag::Bids as u64 || t == AccountTag::Asks as u64 {
            let bids = t == AccountTag::Bids as u64;
            let tag = if bids { AccountTag::Bids } else { AccountTag::Asks };
            let mut c = a.clone();
            let mut c2 = a.clone();
            let look = Slab::<C>::from_buffer(c2.data_mut(), tag).unwrap();
            let slab = Slab::<C>::from_buffer(c.data_mut(), tag).unwrap();
            let os = slab
                .into_iter(true)
                .take(2 * a.n + 2)
                .map(|l| {
                    let id = l.order_id();
                    let c = cb_of(&look, id).map(|x| x.1).or_else(|| {
                        (0..look.leaf_nodes.len())
                            .find(|h| look.leaf_nodes[*h].order_id() == id)
                            .map(|h| look.get_callback_info(h as u32).rd())
                    });
                    Order { id, b: l.base_quantity, c: c.unwrap_or((-2, 0)) }
                })
                .collect();
            View::S { bids, os }
        } else {
            View::X
        }
    }

    pub fn view_json<C: Cb>(&self, i: usize) -> Value {
        let a = &self.accs[i];
        let own = if a.owner == program_id() { "P" } else { "F" };
        match self.view::<C>(i) {
            View::U => json!({"own":own,"lam":a.lam,"t":"U","want":a.want,"n":a.n,"need":rent_min(a.len)}),
            View::D => json!({"own":own,"lam":a.lam,"t":"D"}),
            View::X => json!({"own":own,"lam":a.lam,"t":"X"}),
            View::M { q, b, a: aa, min, tick } => {
                json!({"own":own,"lam":a.lam,"t":"M","q":q,"b":b,"a":aa,"min":num(min),"tick":num(tick)})
            }
            View::E { ev } => json!({"own":own,"lam":a.lam,"t":"E","n":a.n,"ev":ev}),
            View::S { bids, os } => {
                let os: Vec<Value> = os
                    .iter()
                    .map(|o| {
                        let (p, l) = split(o.id);
                        json!({"p":num(p),"l":num(l),"b":num(o.b),"c":[o.c.0,o.c.1]})
                    })
                    .collect();
                json!({"own":own,"lam":a.lam,"t":if bids {"B"} else {"A"},"n":a.n,"os":os})
            }
        }
    }
    pub fn all_json<C: Cb>(&self) -> Value {
        Value::Array((0..self.accs.len()).map(|i| self.view_json::<C>(i)).collect())
    }
}

// -------------------------------------------------------------- instructions

#[derive(Clone, Debug)]
pub struct NewP {
    pub s: Side,
    pub p: u64,
    pub mb: u64,
    pub mq: u64,
    pub ml: u64,
    pub c: (i64, i64),
    pub po: bool,
    pub pa: bool,
    pub stb: char,
}
/// account lists are 0-based indices into the world
#[derive(Clone, Debug)]
pub enum Op {
    Create { ac: Vec<usize>, min: u64, tick: u64 },
    New { ac: Vec<usize>, x: NewP },
    Cancel { ac: Vec<usize>, id: u128 },
    Mass { ac: Vec<usize>, ids: Vec<u128> },
    Consume { ac: Vec<usize>, n: u64 },
    Close { ac: Vec<usize> },
}
impl Op {
    pub fn ac(&self) -> &Vec<usize> {
        match self {
            Op::Create { ac, .. }
            | Op::New { ac, .. }
            | Op::Cancel { ac, .. }
            | Op::Mass { ac, .. }
            | Op::Consume { ac, .. }
            | Op::Close { ac } => ac,
        }
    }
    pub fn ac_mut(&mut self) -> &mut Vec<usize> {
        match self {
            Op::Create { ac, .. }
            | Op::New { ac, .. }
            | Op::Cancel { ac, .. }
            | Op::Mass { ac, .. }
            | Op::Consume { ac, .. }
            | Op::Close { ac } => ac,
        }
    }
    pub fn json(&self) -> Value {
        let ac: Vec<usize> = self.ac().iter().map(|i| i + 1).collect();
        let cap = |x: u64| x.min(1_000_000_000);
        let jid = |id: &u128| {
            let (p, l) = split(*id);
            json!({"p":num(p),"l":num(l)})
        };
        match self {
            Op::Create { min, tick, .. } => json!({"op":"create","ac":ac,"min":num(*min),"tick":num(*tick)}),
            Op::New { x, .. } => json!({"op":"new","ac":ac,"s":if x.s == Side::Bid {"B"} else {"A"},
                "p":num(x.p),"mb":num(x.mb),"mq":num(x.mq),"ml":cap(x.ml),"c":[x.c.0,x.c.1],
                "po":x.po,"pa":x.pa,"stb":x.stb.to_string()}),
            Op::Cancel { id, .. } => json!({"op":"cancel","ac":ac,"ids":[jid(id)]}),
            Op::Mass { ids, .. } => json!({"op":"mass","ac":ac,"ids":ids.iter().map(jid).collect::<Vec<_>>()}),
            Op::Consume { n, .. } => json!({"op":"consume","ac":ac,"n":cap(*n)}),
            Op::Close { .. } => json!({"op":"close","ac":ac}),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sum {
    pub id: Option<u128>,
    pub tb: u64,
    pub tq: u64,
    pub tp: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Res {
    pub k: String,
    pub code: String,
    pub sum: Option<Sum>,
}
impl Res {
    pub fn ok(&self) -> bool {
        self.k == "ok"
    }
    pub fn json(&self) -> Value {
        let (id, tb, tq, tp) = match &self.sum {
            Some(s) => (s.id, s.tb, s.tq, s.tp),
            None => (None, 0, 0, 0),
        };
        let (p, l) = split(id.unwrap_or(0));
        json!({"k":self.k,"code":self.code,"posted":id.is_some(),"p":num(p),"l":num(l),
            "tb":num(tb),"tq":num(tq),"tp":num(tp)})
    }
}

fn code(e: &ProgramError) -> String {
    let names: [(AoError, &str); 9] = [
        (AoError::OrderNotFound, "OrderNotFound"),
        (AoError::WouldSelfTrade, "WouldSelfTrade"),
        (AoError::EventQueueFull, "EventQueueFull"),
        (AoError::SlabOutOfSpace, "SlabOutOfSpace"),
        (AoError::InvalidLimitPrice, "InvalidLimitPrice"),
        (AoError::MarketStillActive, "MarketStillActive"),
        (AoError::NumericalOverflow, "NumericalOverflow"),
        (AoError::AccountTagMismatch, "AccountTagMismatch"),
        (AoError::NoOperations, "NoOperations"),
    ];
    if let ProgramError::Custom(n) = e {
        for (k, s) in names {
            if k as u32 == *n {
                return s.to_string();
            }
        }
    }
    format!("{:?}", e)
}

fn sum_of(s: OrderSummary) -> Sum {
    Sum {
        id: s.posted_order_id,
        tb: s.total_base_qty,
        tq: s.total_quote_qty,
        tp: s.total_base_qty_posted,
    }
}

fn params<C>(x: &NewP, callback_info: C) -> new_order::Params<C> {
    new_order::Params {
        max_base_qty: x.mb,
        max_quote_qty: x.mq,
        limit_price: x.p,
        side: x.s,
        match_limit: x.ml,
        callback_info,
        post_only: x.po,
        post_allowed: x.pa,
        self_trade_behavior: match x.stb {
            'C' => SelfTradeBehavior::CancelProvide,
            'A' => SelfTradeBehavior::AbortTransaction,
            _ => SelfTradeBehavior::DecrementTake,
        },
    }
}

fn infos<'a>(accs: &'a mut [Acc], writable: &[bool]) -> Vec<AccountInfo<'a>> {
    accs.iter_mut()
        .zip(writable)
        .map(|(a, w)| {
            let len = a.len;
            AccountInfo::new(
                &a.key,
                false,
                *w,
                &mut a.lam,
                &mut bytemuck::cast_slice_mut(&mut a.buf)[..len],
                &a.owner,
                false,
                0,
            )
        })
        .collect()
}

/// the accounts an instruction is given, as they were
type Before = Vec<(usize, Acc)>;
fn keep(w: &World, ac: &[usize]) -> Before {
    let mut v: Vec<usize> = ac.to_vec();
    v.sort_unstable();
    v.dedup();
    v.into_iter().map(|i| (i, w.accs[i].clone())).collect()
}

/// The runtime's own rules on what a successful instruction may have changed
fn legal(before: &Before, after: &[Acc], writable: &[bool]) -> bool {
    let mut s0 = 0u128;
    let mut s1 = 0u128;
    for (i, b) in before {
        let (a, w) = (&after[*i], writable[*i]);
        s0 += b.lam as u128;
        s1 += a.lam as u128;
        let changed = b.data() != a.data();
        if !w && (changed || a.lam != b.lam) {
            return false;
        }
        if changed && b.owner != program_id() {
            return false;
        }
        if a.lam < b.lam && b.owner != program_id() {
            return false;
        }
    }
    s0 == s1
}

fn settle(
    w: &mut World,
    before: Before,
    writable: &[bool],
    r: std::thread::Result<Result<Option<Sum>, ProgramError>>,
) -> Res {
    let mut res = match r {
        Ok(Ok(sum)) => Res { k: "ok".into(), code: "".into(), sum },
        Ok(Err(e)) => Res { k: "err".into(), code: code(&e), sum: None },
        Err(_) => Res { k: "panic".into(), code: last_panic(), sum: None },
    };
    if res.ok() && !legal(&before, &w.accs, writable) {
        res = Res { k: "runtime".into(), code: "".into(), sum: None };
    }
    if !res.ok() {
        for (i, a) in before {
            w.accs[i] = a;
        }
    }
    res
}

/// Call the operation's library function on the world's accounts
pub fn direct<C: Cb>(w: &mut World, op: &Op) -> Res
where
    <C as CallbackInfo>::CallbackId: PartialEq,
{
    let before = keep(w, op.ac());
    let ac = op.ac().clone();
    let mut writable = vec![false; w.accs.len()];
    let market_writable = matches!(op, Op::Create { .. } | Op::Close { .. });
    for (k, i) in ac.iter().enumerate() {
        if k > 0 || market_writable {
            writable[*i] = true;
        }
    }
    let r = {
        let inf = infos(&mut w.accs, &writable);
        let a: Vec<&AccountInfo> = ac.iter().map(|i| &inf[*i]).collect();
        let pid = program_id();
        catch_unwind(AssertUnwindSafe(|| match op {
            Op::Create { min, tick, .. } => create_market::process::<C>(
                &pid,
                create_market::Accounts { market: a[0], event_queue: a[1], bids: a[2], asks: a[3] },
                create_market::Params { min_base_order_size: *min, tick_size: *tick },
            )
            .map(|_| None),
            Op::New { x, .. } => new_order::process::<C>(
                &pid,
                new_order::Accounts { market: a[0], event_queue: a[1], bids: a[2], asks: a[3] },
                params(x, C::mk(x.c.0, x.c.1)),
            )
            .map(|s| Some(sum_of(s))),
            Op::Cancel { id, .. } => cancel_order::process::<C>(
                &pid,
                cancel_order::Accounts { market: a[0], event_queue: a[1], bids: a[2], asks: a[3] },
                cancel_order::Params { order_id: *id },
            )
            .map(|s| Some(sum_of(s))),
            Op::Mass { ids, .. } => mass_cancel_orders::process::<C>(
                &pid,
                mass_cancel_orders::Accounts { market: a[0], event_queue: a[1], bids: a[2], asks: a[3] },
                mass_cancel_orders::Params { order_ids: ids.clone() },
            )
            .map(|s| Some(sum_of(s))),
            Op::Consume { n, .. } => consume_events::process::<C>(
                &pid,
                consume_events::Accounts { market: a[0], event_queue: a[1] },
                consume_events::Params { number_of_entries_to_consume: *n },
            )
            .map(|_| None),
            Op::Close { .. } => close_market::process::<C>(
                &pid,
                close_market::Accounts {
                    market: a[0],
                    event_queue: a[1],
                    bids: a[2],
                    asks: a[3],
                    lamports_target_account: a[4],
                },
                close_market::Params {},
            )
            .map(|_| None),
        }))
    };
    settle(w, before, &writable, r)
}

fn build(w: &World, op: &Op, reg: Pubkey) -> Instruction {
    let k: Vec<&Pubkey> = op.ac().iter().map(|i| &w.accs[*i].key).collect();
    match op {
        Op::Create { min, tick, .. } => instruction::create_market(
            create_market::Accounts { market: k[0], event_queue: k[1], bids: k[2], asks: k[3] },
            reg,
            create_market::Params { min_base_order_size: *min, tick_size: *tick },
        ),
        Op::New { x, .. } => instruction::new_order(
            new_order::Accounts { market: k[0], event_queue: k[1], bids: k[2], asks: k[3] },
            reg,
            params(x, Pubkey::new_from_array(<[u8; 32]>::mk(x.c.0, x.c.1))),
        ),
        Op::Cancel { id, .. } => instruction::cancel_order(
            cancel_order::Accounts { market: k[0], event_queue: k[1], bids: k[2], asks: k[3] },
            reg,
            cancel_order::Params { order_id: *id },
        ),
        Op::Mass { ids, .. } => instruction::mass_cancel_orders(
            mass_cancel_orders::Accounts { market: k[0], event_queue: k[1], bids: k[2], asks: k[3] },
            reg,
            mass_cancel_orders::Params { order_ids: ids.clone() },
        ),
        Op::Consume { n, .. } => instruction::consume_events(
            consume_events::Accounts { market: k[0], event_queue: k[1] },
            reg,
            consume_events::Params { number_of_entries_to_consume: *n },
        ),
        Op::Close { .. } => instruction::close_market(
            close_market::Accounts {
                market: k[0],
                event_queue: k[1],
                bids: k[2],
                asks: k[3],
                lamports_target_account: k[4],
            },
            reg,
            close_market::Params {},
        ),
    }
}

/// Build the instruction with the public builder and run it through the entrypoint
pub fn entry(w: &mut World, op: &Op) -> Res {
    let regk = Pubkey::new_from_array([5; 32]);
    let built = catch_unwind(AssertUnwindSafe(|| build(w, op, regk)));
    let ix = match built {
        Ok(ix) => ix,
        Err(_) => return Res { k: "panic".into(), code: last_panic(), sum: None },
    };
    let mut writable = vec![false; w.accs.len()];
    let mut order: Vec<Option<usize>> = vec![];
    let mut reg_writable = false;
    for m in &ix.accounts {
        if m.pubkey == regk {
            reg_writable |= m.is_writable;
            order.push(None);
        } else {
            let i = w.idx(&m.pubkey);
            if i == 0 {
                return Res { k: "err".into(), code: "UnknownAccount".into(), sum: None };
            }
            if m.is_writable {
                writable[i - 1] = true;
            }
            order.push(Some(i - 1));
        }
    }
    let before = keep(w, &order.iter().flatten().copied().collect::<Vec<_>>());
    let mut reg_data = vec![0xAAu8; 64];
    let mut reg_lam = 1u64;
    let pid = program_id();
    let r = {
        let inf = infos(&mut w.accs, &writable);
        let reg = AccountInfo::new(&regk, false, reg_writable, &mut reg_lam, &mut reg_data, &pid, false, 0);
        let a: Vec<AccountInfo> = order
            .iter()
            .map(|o| match o {
                Some(i) => inf[*i].clone(),
                None => reg.clone(),
            })
            .collect();
        catch_unwind(AssertUnwindSafe(|| {
            asset_agnostic_orderbook::entrypoint::process_instruction(&ix.program_id, &a, &ix.data)
        }))
    };
    let r2 = match r {
        Ok(Ok(())) => {
            let mut s: &[u8] = &reg_data;
            match <Option<OrderSummary>>::deserialize(&mut s) {
                Ok(s) if reg_writable => Ok(Ok(s.map(sum_of))),
                _ => Ok(Err(ProgramError::Custom(9999))),
            }
        }
        Ok(Err(e)) => Ok(Err(e)),
        Err(e) => Err(e),
    };
    settle(w, before, &writable, r2)
}

/// accounts whose projection may have changed
pub fn changes<C: Cb>(before: &World, after: &World) -> Value {
    let mut v = vec![];
    for i in 0..after.accs.len() {
        if before.accs[i] != after.accs[i] {
            v.push(json!([i + 1, after.view_json::<C>(i)]));
        }
    }
    Value::Array(v)
}

// ------------------------------------------------------------------- readers

fn opt(p: Option<u64>) -> Value {
    match p {
        Some(p) => json!([num(p)]),
        None => json!([]),
    }
}

/// Everything the read-only helpers say about a market
pub fn read_json<C: Cb>(w: &World, ac: &[usize], probes: &[u128]) -> Value
where
    <C as CallbackInfo>::CallbackId: PartialEq,
{
    let acj: Vec<usize> = ac.iter().map(|i| i + 1).collect();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut c = w.clone();
        let spread = {
            let wr = vec![true; c.accs.len()];
            let inf = infos(&mut c.accs, &wr);
            utils::get_spread::<C>(&inf[ac[2]], &inf[ac[3]])
        };
        let mut b = w.accs[ac[2]].clone();
        let mut a = w.accs[ac[3]].clone();
        let bids = Slab::<C>::from_buffer(b.data_mut(), AccountTag::Bids).unwrap();
        let asks = Slab::<C>::from_buffer(a.data_mut(), AccountTag::Asks).unwrap();
        let price = |s: &Slab<C>, h: Option<NodeHandle>| opt(h.map(|h| s.leaf_nodes[h as usize].price()));
        let (bb, wb) = (price(&bids, bids.find_max()), price(&bids, bids.find_min()));
        let (ba, wa) = (price(&asks, asks.find_min()), price(&asks, asks.find_max()));
        let mut look = vec![];
        let mut sides = vec![];
        for id in probes {
            let (p, l) = split(*id);
            let s = get_side_from_order_id(*id);
            let t = if s == Side::Bid { "B" } else { "A" };
            let f = cb_of(if s == Side::Bid { &bids } else { &asks }, *id);
            look.push(match f {
                Some((b, c)) => json!({"s":t,"p":num(p),"l":num(l),"found":true,"b":num(b),"c":[c.0,c.1]}),
                None => json!({"s":t,"p":num(p),"l":num(l),"found":false,"b":[],"c":[0,0]}),
            });
        }
        let list = |idx: usize, tag: AccountTag, asc: bool| {
            let mut x = w.accs[ac[idx]].clone();
            let cap = 2 * x.n + 2;
            let s = Slab::<C>::from_buffer(x.data_mut(), tag).unwrap();
            let v: Vec<Value> = s
                .into_iter(asc)
                .take(cap)
                .map(|l| {
                    let (p, lo) = split(l.order_id());
                    json!({"p":num(p),"l":num(lo),"b":num(l.base_quantity)})
                })
                .collect();
            Value::Array(v)
        };
        for (idx, tag, t) in [(2usize, AccountTag::Bids, "B"), (3, AccountTag::Asks, "A")] {
            let mut x = w.accs[ac[idx]].clone();
            let s = Slab::<C>::from_buffer(x.data_mut(), tag).unwrap();
            for l in s.into_iter(true).take(64) {
                let g = if get_side_from_order_id(l.order_id()) == Side::Bid { "B" } else { "A" };
                sides.push(json!({"s":t,"t":g}));
            }
        }
        let mut qa = w.accs[ac[1]].clone();
        let qn = qa.n as u64;
        let q = EventQueue::<C>::from_buffer(qa.data_mut(), AccountTag::EventQueue).unwrap();
        let len = q.len();
        let mut peek = vec![];
        for i in 0..len.min(qn + 2) {
            match q.peek_at(i) {
                Some(e) => peek.push(event_json(e)),
                None => break,
            }
        }
        let over = [len, len + 1, len + qn, u64::MAX]
            .iter()
            .filter(|i| q.peek_at(**i).is_some())
            .count();
        json!({"op":"read","ac":acj,"sb":opt(spread.0),"sa":opt(spread.1),"bb":bb,"ba":ba,"wb":wb,"wa":wa,
            "asc":list(2,AccountTag::Bids,true),"asc2":list(3,AccountTag::Asks,true),
            "desc":list(2,AccountTag::Bids,false),"desc2":list(3,AccountTag::Asks,false),
            "peek":peek,"over":over,"len":len.min(1_000_000),"empty":q.is_empty(),"look":look,"sides":sides})
    }));
    r.unwrap_or_else(|_| json!({"op":"readfail","ac":acj,"code":last_panic()}))
}

pub fn round_json(tick: u64, p: u64, s: Side) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| utils::round_price(tick, p, s)));
    json!({"op":"round","tick":num(tick),"p":num(p),"s":if s == Side::Bid {"B"} else {"A"},
        "ok":r.is_ok(),"out":num(r.unwrap_or(0))})
}

// ------------------------------------------------------ for the TypeScript client

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// the bytes of a market's accounts, for the TypeScript client
pub fn ts_json<C: Cb>(w: &World, ac: &[usize], probes: &[u128], ns: &[u64]) -> Value {
    let acj: Vec<usize> = ac.iter().map(|i| i + 1).collect();
    let cb = std::mem::size_of::<C>();
    let kind = match cb {
        32 => "A",
        40 => "P",
        _ => "8",
    };
    let word = |i: usize| num(u64::from_le_bytes(w.accs[ac[1]].data()[8 * i..8 * i + 8].try_into().unwrap()));
    let sz: Vec<(&str, u64)> = ns.iter().filter(|n| **n > 0).flat_map(|n| [("q", *n), ("s", *n)]).chain([("m", 0)]).collect();
    let szx: Vec<usize> = sz
        .iter()
        .map(|(k, n)| match *k {
            "q" => EventQueue::<C>::compute_allocation_size(*n as usize),
            "s" => Slab::<C>::compute_allocation_size(*n as usize),
            _ => 8 + MarketState::LEN,
        })
        .collect();
    json!({"op":"tsraw","ac":acj,"cb":cb,"kind":kind,
        "keys":ac.iter().map(|i| hex(&w.accs[*i].key.to_bytes())).collect::<Vec<_>>(),
        "data":ac.iter().map(|i| hex(&w.accs[*i].data()[..w.accs[*i].len])).collect::<Vec<_>>(),
        "qh":[word(0),word(1),word(2),word(3)],
        "probes":probes.iter().map(|p| format!("{:x}", p)).collect::<Vec<_>>(),
        "ns":ns,"sz":sz,"szx":szx})
}
