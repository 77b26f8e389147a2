//! Serialized books for the wasm readers
#![allow(dead_code)]
pub use dex_wasm::{find_l2_depth, find_max, find_min};

pub const HEADER: usize = 65;

/// `leaves` are (key, base), ascending; the i-th is put in slot i and the inner nodes in the slots after them
pub fn book(leaves: &[(u128, u64)], cb: usize) -> (Vec<u8>, u64) {
    let slot = (cb + 25).max(32);
    let n = leaves.len();
    let mut d = vec![0u8; HEADER + (2 * n + 2) * slot];
    for (i, (k, q)) in leaves.iter().enumerate() {
        let o = HEADER + i * slot;
        d[o] = 2;
        d[o + 1..o + 17].copy_from_slice(&k.to_le_bytes());
        for b in 0..cb {
            d[o + 17 + b] = (b as u8).wrapping_mul(37).wrapping_add(101);
        }
        d[o + 17 + cb..o + 25 + cb].copy_from_slice(&q.to_le_bytes());
    }
    let mut next = n as u32;
    let root = if n == 0 { 0 } else { put(&mut d, leaves, 0, n, &mut next, slot) };
    d[0] = 3;
    d[1..9].copy_from_slice(&(next as u64).to_le_bytes());
    d[21..25].copy_from_slice(&root.to_le_bytes());
    d[25..33].copy_from_slice(&(n as u64).to_le_bytes());
    (d, slot as u64)
}

fn put(d: &mut [u8], l: &[(u128, u64)], a: usize, b: usize, next: &mut u32, slot: usize) -> u32 {
    if b - a == 1 {
        return a as u32;
    }
    let len = (l[a].0 ^ l[b - 1].0).leading_zeros();
    let bit = (1u128 << 127) >> len;
    let m = (a..b).find(|i| l[*i].0 & bit != 0).unwrap();
    let me = *next;
    *next += 1;
    let x = put(d, l, a, m, next, slot);
    let y = put(d, l, m, b, next, slot);
    let o = HEADER + me as usize * slot;
    d[o] = 1;
    d[o + 1..o + 5].copy_from_slice(&len.to_le_bytes());
    d[o + 5..o + 21].copy_from_slice(&l[a].0.to_le_bytes());
    d[o + 21..o + 25].copy_from_slice(&x.to_le_bytes());
    d[o + 25..o + 29].copy_from_slice(&y.to_le_bytes());
    me
}

pub fn key(price: u64, seq: u64) -> u128 {
    (price as u128) << 64 | seq as u128
}
