//! Just enough of a runtime to run the program's instructions on plain buffers
#![allow(dead_code)]
pub use asset_agnostic_orderbook::error::AoError;
pub use asset_agnostic_orderbook::instruction::{
    cancel_order, close_market, consume_events, create_market, mass_cancel_orders, new_order,
};
pub use asset_agnostic_orderbook::state::critbit::Slab;
pub use asset_agnostic_orderbook::state::event_queue::{EventQueue, EventRef};
pub use asset_agnostic_orderbook::state::market_state::MarketState;
pub use asset_agnostic_orderbook::state::{AccountTag, OrderSummary, SelfTradeBehavior, Side};
pub use solana_program::account_info::AccountInfo;
pub use solana_program::program_error::ProgramError;
pub use solana_program::pubkey::Pubkey;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type C = [u8; 32];
pub const BIG: u64 = u64::MAX;
pub const ONE: u64 = 1 << 32;

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default() };
        0
    }
}
pub fn setup() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|_| {}));
}

#[derive(Clone, PartialEq, Debug)]
pub struct Acc {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub lam: u64,
    pub buf: Vec<u64>,
    pub len: usize,
}
impl Acc {
    pub fn new(k: u8, len: usize) -> Acc {
        Acc {
            key: Pubkey::new_from_array([k; 32]),
            owner: asset_agnostic_orderbook::id(),
            lam: 1_000_000_000_000,
            buf: vec![0; len / 8 + 1],
            len,
        }
    }
    pub fn data(&mut self) -> &mut [u8] {
        let l = self.len;
        &mut bytemuck::cast_slice_mut(&mut self.buf)[..l]
    }
}

/// the accounts: market, event queue, bids, asks, and a wallet (per market)
#[derive(Clone, PartialEq, Debug)]
pub struct World {
    pub a: Vec<Acc>,
}
pub type Out = Result<Option<OrderSummary>, String>;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Fill { taker: u8, id: u128, base: u64, quote: u64, maker_cb: u8, taker_cb: u8 },
    Out { side: u8, id: u128, base: u64, cb: u8 },
}
#[derive(Clone)]
pub struct O {
    pub side: Side,
    pub price: u64,
    pub base: u64,
    pub quote: u64,
    pub limit: u64,
    pub owner: u8,
    pub post_only: bool,
    pub post: bool,
    pub stb: SelfTradeBehavior,
}
pub fn bid(price: u64, base: u64) -> O {
    O { side: Side::Bid, price, base, quote: BIG, limit: 1000, owner: 1, post_only: false, post: true, stb: SelfTradeBehavior::DecrementTake }
}
pub fn ask(price: u64, base: u64) -> O {
    O { side: Side::Ask, ..bid(price, base) }
}

fn infos<'a>(a: &'a mut [Acc]) -> Vec<AccountInfo<'a>> {
    a.iter_mut()
        .map(|a| {
            let l = a.len;
            AccountInfo::new(&a.key, false, true, &mut a.lam, &mut bytemuck::cast_slice_mut(&mut a.buf)[..l], &a.owner, false, 0)
        })
        .collect()
}

impl World {
    /// `n` markets; market i uses accounts 5i .. 5i+4
    pub fn new(n: usize, qcap: usize, bcap: usize, acap: usize) -> World {
        setup();
        let mut a = vec![];
        for i in 0..n as u8 {
            a.push(Acc::new(10 * i + 1, 8 + MarketState::LEN));
            a.push(Acc::new(10 * i + 2, EventQueue::<C>::compute_allocation_size(qcap)));
            a.push(Acc::new(10 * i + 3, Slab::<C>::compute_allocation_size(bcap)));
            a.push(Acc::new(10 * i + 4, Slab::<C>::compute_allocation_size(acap)));
            a.push(Acc::new(10 * i + 5, 0));
        }
        World { a }
    }
    pub fn market(qcap: usize, bcap: usize, acap: usize, min: u64, tick: u64) -> World {
        let mut w = World::new(1, qcap, bcap, acap);
        w.create(&[0, 1, 2, 3], min, tick).unwrap();
        w
    }
    /// run atomically: an error or a panic changes nothing
    pub fn run<F>(&mut self, f: F) -> Out
    where
        F: FnOnce(&Pubkey, &[AccountInfo]) -> Result<Option<OrderSummary>, ProgramError>,
    {
        let before = self.a.clone();
        let r = {
            let inf = infos(&mut self.a);
            let pid = asset_agnostic_orderbook::id();
            catch_unwind(AssertUnwindSafe(|| f(&pid, &inf)))
        };
        let r = match r {
            Ok(Ok(s)) => Ok(s),
            Ok(Err(e)) => Err(format!("{:?}", e)),
            Err(_) => Err("panic".to_string()),
        };
        if r.is_err() {
            self.a = before;
        }
        r
    }
    pub fn create(&mut self, ac: &[usize; 4], min: u64, tick: u64) -> Out {
        let ac = *ac;
        self.run(|p, i| {
            create_market::process::<C>(
                p,
                create_market::Accounts { market: &i[ac[0]], event_queue: &i[ac[1]], bids: &i[ac[2]], asks: &i[ac[3]] },
                create_market::Params { min_base_order_size: min, tick_size: tick },
            )
            .map(|_| None)
        })
    }
    pub fn new_order_on(&mut self, ac: &[usize; 4], o: O) -> Out {
        let ac = *ac;
        self.run(|p, i| {
            new_order::process::<C>(
                p,
                new_order::Accounts { market: &i[ac[0]], event_queue: &i[ac[1]], bids: &i[ac[2]], asks: &i[ac[3]] },
                new_order::Params {
                    max_base_qty: o.base,
                    max_quote_qty: o.quote,
                    limit_price: o.price,
                    side: o.side,
                    match_limit: o.limit,
                    callback_info: [o.owner; 32],
                    post_only: o.post_only,
                    post_allowed: o.post,
                    self_trade_behavior: o.stb,
                },
            )
            .map(Some)
        })
    }
    pub fn order(&mut self, o: O) -> OrderSummary {
        self.try_order(o).unwrap()
    }
    pub fn try_order(&mut self, o: O) -> Result<OrderSummary, String> {
        self.new_order_on(&[0, 1, 2, 3], o).map(|s| s.unwrap())
    }
    pub fn cancel(&mut self, id: u128) -> Out {
        self.cancel_on(&[0, 1, 2, 3], id)
    }
    pub fn cancel_on(&mut self, ac: &[usize; 4], id: u128) -> Out {
        let ac = *ac;
        self.run(|p, i| {
            cancel_order::process::<C>(
                p,
                cancel_order::Accounts { market: &i[ac[0]], event_queue: &i[ac[1]], bids: &i[ac[2]], asks: &i[ac[3]] },
                cancel_order::Params { order_id: id },
            )
            .map(Some)
        })
    }
    pub fn mass(&mut self, ids: &[u128]) -> Out {
        self.mass_on(&[0, 1, 2, 3], ids)
    }
    pub fn mass_on(&mut self, ac: &[usize; 4], ids: &[u128]) -> Out {
        let ac = *ac;
        let ids = ids.to_vec();
        self.run(|p, i| {
            mass_cancel_orders::process::<C>(
                p,
                mass_cancel_orders::Accounts { market: &i[ac[0]], event_queue: &i[ac[1]], bids: &i[ac[2]], asks: &i[ac[3]] },
                mass_cancel_orders::Params { order_ids: ids },
            )
            .map(Some)
        })
    }
    pub fn consume(&mut self, n: u64) -> Out {
        self.consume_on(&[0, 1], n)
    }
    pub fn consume_on(&mut self, ac: &[usize; 2], n: u64) -> Out {
        let ac = *ac;
        self.run(|p, i| {
            consume_events::process::<C>(
                p,
                consume_events::Accounts { market: &i[ac[0]], event_queue: &i[ac[1]] },
                consume_events::Params { number_of_entries_to_consume: n },
            )
            .map(|_| None)
        })
    }
    pub fn close(&mut self) -> Out {
        self.close_on(&[0, 1, 2, 3, 4])
    }
    pub fn close_on(&mut self, ac: &[usize; 5]) -> Out {
        let ac = *ac;
        self.run(|p, i| {
            close_market::process::<C>(
                p,
                close_market::Accounts {
                    market: &i[ac[0]],
                    event_queue: &i[ac[1]],
                    bids: &i[ac[2]],
                    asks: &i[ac[3]],
                    lamports_target_account: &i[ac[4]],
                },
                close_market::Params {},
            )
            .map(|_| None)
        })
    }
    pub fn events(&self) -> Vec<Ev> {
        let mut a = self.a[1].clone();
        let q = EventQueue::<C>::from_buffer(a.data(), AccountTag::EventQueue).unwrap();
        let j = |k: [u64; 2]| ((k[1] as u128) << 64) | k[0] as u128;
        q.iter()
            .map(|e| match e {
                EventRef::Fill(f) => Ev::Fill {
                    taker: f.event.taker_side,
                    id: j(f.event.maker_order_id),
                    base: f.event.base_size,
                    quote: f.event.quote_size,
                    maker_cb: f.maker_callback_info[0],
                    taker_cb: f.taker_callback_info[0],
                },
                EventRef::Out(o) => Ev::Out { side: o.event.side, id: j(o.event.order_id), base: o.event.base_size, cb: o.callback_info[0] },
            })
            .collect()
    }
    /// (id, base) ascending by id
    pub fn book(&self, side: Side) -> Vec<(u128, u64)> {
        self.book_on(side, 0)
    }
    pub fn book_on(&self, side: Side, m: usize) -> Vec<(u128, u64)> {
        let (k, t) = if side == Side::Bid { (2, AccountTag::Bids) } else { (3, AccountTag::Asks) };
        let mut a = self.a[5 * m + k].clone();
        Slab::<C>::from_buffer(a.data(), t).unwrap().into_iter(true).map(|l| (l.order_id(), l.base_quantity)).collect()
    }
    /// owners (first byte of the callback info) of the resting orders, ascending by id
    pub fn owners(&self, side: Side) -> Vec<u8> {
        let (k, t) = if side == Side::Bid { (2, AccountTag::Bids) } else { (3, AccountTag::Asks) };
        let mut a = self.a[k].clone();
        let s = Slab::<C>::from_buffer(a.data(), t).unwrap();
        self.book(side).iter().map(|(id, _)| s.get_callback_info(s.find_by_key(*id).unwrap())[0]).collect()
    }
}
