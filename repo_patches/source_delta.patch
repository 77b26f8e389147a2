From 50f0655ff5b9b06f87ea64ddca466088be15ec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 01/10] fix: mass_cancel_orders builder encodes the
 MassCancelOrders tag

It encoded the CloseMarket tag, so the built instruction never cancelled
anything (and was parsed as a request to close the market).
---
 program/src/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/program/src/instruction.rs b/program/src/instruction.rs
index 4861b63..d31c959 100644
--- a/program/src/instruction.rs
+++ b/program/src/instruction.rs
@@ -215,7 +215,7 @@ pub fn mass_cancel_orders(
 ) -> Instruction {
     let mut i = accounts.get_instruction(
         crate::id(),
-        AgnosticOrderbookInstruction::CloseMarket as u8,
+        AgnosticOrderbookInstruction::MassCancelOrders as u8,
         params,
     );
     i.accounts.push(AccountMeta {
-- 
2.43.0


From ca60a9aae2a616c5cc1a339891e2b6e5d5e10d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 02/10] fix: Slab::remove_by_key on a one-leaf tree with
 another key

When the root is a leaf which doesn't hold the searched key, the walk went
on with the uninitialized child handle 0, so that a stale leaf in slot 0
with that key was taken for a member of the tree (index out of bounds).
---
 program/src/state/critbit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/program/src/state/critbit.rs b/program/src/state/critbit.rs
index 336b0a0..91f9a58 100644
--- a/program/src/state/critbit.rs
+++ b/program/src/state/critbit.rs
@@ -367,6 +367,10 @@ impl<'a, C> Slab<'a, C> {
             self.header.leaf_count = 0;
             return Some((leaf_copy, self.get_callback_info(parent_h)));
         }
+        if matches!(Node::from_handle(parent_h), Node::Leaf) {
+            // The only order in the tree isn't the one we are looking for
+            return None;
+        }
         loop {
             match Node::from_handle(child_h) {
                 Node::Inner => {
-- 
2.43.0


From bdf17d24ebcfb64a60db60c593c38ee853e1eb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 03/10] fix: round_price overflow when rounding large ask
 prices up

limit_price + tick_size - 1 overflowed for prices close to u64::MAX even
when the rounded price fits.
---
 program/src/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/program/src/utils.rs b/program/src/utils.rs
index 753c0db..8f324c0 100644
--- a/program/src/utils.rs
+++ b/program/src/utils.rs
@@ -56,7 +56,10 @@ pub fn round_price(tick_size: u64, limit_price: u64, side: Side) -> u64 {
         // Round down
         Side::Bid => tick_size * (limit_price / tick_size),
         // Round up
-        Side::Ask => tick_size * ((limit_price + tick_size - 1) / tick_size),
+        Side::Ask => match limit_price % tick_size {
+            0 => limit_price,
+            remainder => limit_price + (tick_size - remainder),
+        },
     }
 }
 
-- 
2.43.0


From 27bd3f1257926936851eb59b8e5184491054e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 04/10] fix: create_market accepts bids and asks accounts of
 invalid size

A slab account whose size isn't that of a whole number of orders made every
later instruction on the market, close_market included, panic. Validate the
size at creation, as is done for the event queue.
---
 program/src/processor/create_market.rs |  2 ++
 program/src/state/critbit.rs           | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/program/src/processor/create_market.rs b/program/src/processor/create_market.rs
index 4df4a09..29bd573 100644
--- a/program/src/processor/create_market.rs
+++ b/program/src/processor/create_market.rs
@@ -91,6 +91,8 @@ pub fn process<'a, 'b: 'a, C: Pod>(
     }
 
     EventQueue::<C>::check_buffer_size(&accounts.event_queue.data.borrow()).unwrap();
+    Slab::<C>::check_buffer_size(&accounts.bids.data.borrow())?;
+    Slab::<C>::check_buffer_size(&accounts.asks.data.borrow())?;
 
     let mut market_data = accounts.market.data.borrow_mut();
 
diff --git a/program/src/state/critbit.rs b/program/src/state/critbit.rs
index 91f9a58..509181b 100644
--- a/program/src/state/critbit.rs
+++ b/program/src/state/critbit.rs
@@ -3,7 +3,7 @@ use crate::error::AoError;
 use crate::state::AccountTag;
 use borsh::{BorshDeserialize, BorshSerialize};
 use bytemuck::{Pod, Zeroable};
-use solana_program::program_error::ProgramError;
+use solana_program::{entrypoint::ProgramResult, msg, program_error::ProgramError};
 // A Slab contains the data for a slab header and two type-split arrays of inner nodes and leaves arranger in a critbit tree
 // whose leaves contain data referencing an order of the orderbook.
 
@@ -132,6 +132,21 @@ impl<'slab, C> Slab<'slab, C> {
             + (desired_order_capacity.checked_sub(1).unwrap())
                 * (LeafNode::LEN + InnerNode::LEN + std::mem::size_of::<C>())
     }
+
+    pub(crate) fn check_buffer_size(buffer: &[u8]) -> ProgramResult {
+        let leaf_size = LeafNode::LEN + std::mem::size_of::<C>();
+        let min_size = 8 + SlabHeader::LEN + leaf_size;
+        let account_len = buffer.len();
+        if account_len < min_size {
+            msg!("The slab account is too small!");
+            return Err(ProgramError::InvalidAccountData);
+        }
+        if (account_len - min_size) % (leaf_size + InnerNode::LEN) != 0 {
+            msg!("Slab account size is invalid!");
+            return Err(ProgramError::InvalidAccountData);
+        }
+        Ok(())
+    }
 }
 
 impl<'a, C: Pod> Slab<'a, C> {
-- 
2.43.0


From 62652d42ed955da9701ca45fb963d72ba0ecfb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 05/10] fix: wasm find_l2_depth truncates the last price level

The walk stopped as soon as the last level was opened, leaving out the other
orders at that price. Same termination rule as the client's getL2DepthJS.
---
 js/wasm/src/critbit.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/js/wasm/src/critbit.rs b/js/wasm/src/critbit.rs
index adc7beb..87120cf 100644
--- a/js/wasm/src/critbit.rs
+++ b/js/wasm/src/critbit.rs
@@ -385,12 +385,8 @@ impl<'a> Slab<'a> {
         }
         let mut result = Vec::with_capacity(2 * depth);
         let mut search_stack = vec![root.unwrap()];
-        while result.len() != 2 * depth {
-            let current = search_stack.pop();
-            if current.is_none() {
-                break;
-            }
-            let node = self.get_node(current.unwrap()).unwrap();
+        while let Some(current) = search_stack.pop() {
+            let node = self.get_node(current).unwrap();
             match node {
                 Node::Inner(ref inner) => {
                     search_stack.push(inner.children[increasing as usize]);
@@ -401,6 +397,10 @@ impl<'a> Slab<'a> {
                     if result.last().map(|p| p == &leaf_price).unwrap_or(false) {
                         let idx = result.len() - 2;
                         result[idx] += leaf.base_quantity;
+                    } else if result.len() == 2 * depth {
+                        // The price has changed and we have enough levels. The above branch is hit even
+                        // if we already have `depth` levels, so that the last one is complete.
+                        break;
                     } else {
                         result.push(leaf.base_quantity);
                         result.push(leaf_price);
-- 
2.43.0


From a25cb3f80bff247723cf2540d7a02a756de39573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 06/10] fix: parseFill ignores the event queue's head

It parsed the slots 0..count of the ring, which are only the queued events
as long as the head is at slot 0.
---
 js/src/event_queue.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/event_queue.ts b/js/src/event_queue.ts
index 396195a..b91d8e9 100644
--- a/js/src/event_queue.ts
+++ b/js/src/event_queue.ts
@@ -266,7 +266,7 @@ export class EventQueue {
       ? Math.min(limit, this.header.count.toNumber())
       : this.header.count.toNumber();
     return [...Array(n).keys()]
-      .map((e) => this.parseEvent(e))
+      .map((e) => this.peekAt(e))
       .filter((e) => e instanceof EventFill);
   }
 
-- 
2.43.0


From 46b64d29f2df61861b6bc4a49e1983734c90eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 07/10] fix: mass_cancel_orders aborts on totals that do not
 fit 64 bits

---
 program/src/processor/mass_cancel_orders.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/program/src/processor/mass_cancel_orders.rs b/program/src/processor/mass_cancel_orders.rs
index 1faee75..fc9966f 100644
--- a/program/src/processor/mass_cancel_orders.rs
+++ b/program/src/processor/mass_cancel_orders.rs
@@ -100,10 +100,12 @@ where
     for order_id in params.order_ids {
         let slab = order_book.get_tree(get_side_from_order_id(order_id));
         let (leaf_node, _) = slab.remove_by_key(order_id).ok_or(AoError::OrderNotFound)?;
-        total_base_qty = total_base_qty.checked_add(leaf_node.base_quantity).unwrap();
+        total_base_qty = total_base_qty
+            .checked_add(leaf_node.base_quantity)
+            .ok_or(AoError::NumericalOverflow)?;
         total_quote_qty = fp32_mul_floor(leaf_node.base_quantity, leaf_node.price())
             .and_then(|n| n.checked_add(total_quote_qty))
-            .unwrap();
+            .ok_or(AoError::NumericalOverflow)?;
     }
 
     let order_summary = OrderSummary {
-- 
2.43.0


From e198ba563cbc689125ce1139cd8ac086de70bcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 08/10] fix: wasm find_l2_depth aborts on a large depth

---
 js/wasm/src/critbit.rs | 2 ++
 js/wasm/src/lib.rs     | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/js/wasm/src/critbit.rs b/js/wasm/src/critbit.rs
index 87120cf..12f1040 100644
--- a/js/wasm/src/critbit.rs
+++ b/js/wasm/src/critbit.rs
@@ -383,6 +383,8 @@ impl<'a> Slab<'a> {
         if root.is_none() {
             return vec![];
         }
+        // There are at most as many price levels as orders
+        let depth = depth.min(self.header.leaf_count as usize);
         let mut result = Vec::with_capacity(2 * depth);
         let mut search_stack = vec![root.unwrap()];
         while let Some(current) = search_stack.pop() {
diff --git a/js/wasm/src/lib.rs b/js/wasm/src/lib.rs
index 8dc28fb..a6dc729 100644
--- a/js/wasm/src/lib.rs
+++ b/js/wasm/src/lib.rs
@@ -47,5 +47,5 @@ pub fn find_l2_depth(
         callback_info_len as usize,
         slot_size as usize,
     );
-    slab.find_l2_depth(depth as usize, increasing)
+    slab.find_l2_depth(depth.min(usize::MAX as u64) as usize, increasing)
 }
-- 
2.43.0


From c6ea191847b9522cf1bc2842cd6038bdc4093882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 09/10] fix: the client's account tags are not the program's

The program tags accounts 1 << 7 and up; the client's enum still had 1 to 4.
---
 js/src/market_state.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/js/src/market_state.ts b/js/src/market_state.ts
index f6cc42e..6e43aa5 100644
--- a/js/src/market_state.ts
+++ b/js/src/market_state.ts
@@ -10,10 +10,10 @@ import BN from "bn.js";
 /** @enum {number} */
 export enum AccountTag {
   Initialized = 0,
-  Market = 1,
-  EventQueue = 2,
-  Bids = 3,
-  Asks = 4,
+  Market = 128,
+  EventQueue = 129,
+  Bids = 130,
+  Asks = 131,
 }
 
 /** @enum {number} */
-- 
2.43.0


From a0faa87d283ee3b80cbbdeeac0c8820ec3cdcef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 10/10] fix: the client's Slab.orderCapacity is one short

It was the number of inner nodes, one less than the number of orders the slab was allocated for and can hold.
---
 js/src/slab.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/slab.ts b/js/src/slab.ts
index c416a06..916b8a7 100644
--- a/js/src/slab.ts
+++ b/js/src/slab.ts
@@ -172,7 +172,7 @@ export class Slab {
       callbackInfoBufferOffset
     );
     let callbackInfoBuffer = arg.buffer.slice(callbackInfoBufferOffset);
-    this.orderCapacity = Math.floor(capacity);
+    this.orderCapacity = Math.floor(capacity) + 1;
     this.leafBuffer = leavesBuffer;
     this.innerNodeBuffer = innerNodeBuffer;
     this.callbackInfoBuffer = callbackInfoBuffer;
-- 
2.43.0

