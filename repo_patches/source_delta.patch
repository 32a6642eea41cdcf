From 9ae97f98ca785b536d87bfa4feda7257fc79990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 01/23] fix: check arithmetic inside method receivers and
 arguments in checked_math

checked_math!((a + b).abs()), (a + b).pow(2), a.pow(n + m) and
a.pow(2).method() evaluated the inner arithmetic unchecked: it wrapped (or
panicked, depending on overflow-checks) instead of yielding None.
---
 lib/checked_math/src/transform/checked.rs | 71 +++++++++++++++++++++--
 1 file changed, 66 insertions(+), 5 deletions(-)

diff --git a/lib/checked_math/src/transform/checked.rs b/lib/checked_math/src/transform/checked.rs
index 85c3947..1b9e912 100644
--- a/lib/checked_math/src/transform/checked.rs
+++ b/lib/checked_math/src/transform/checked.rs
@@ -1,6 +1,9 @@
 use proc_macro_error::abort;
 use quote::quote;
-use syn::{spanned::Spanned, BinOp, Expr, ExprBinary, ExprUnary, Ident, Lit, UnOp};
+use syn::{
+    spanned::Spanned, BinOp, Expr, ExprBinary, ExprCall, ExprMethodCall, ExprUnary, Ident, Lit,
+    UnOp,
+};
 
 pub fn transform_expr_or_panic(expr: Expr) -> proc_macro2::TokenStream {
     match expr {
@@ -39,6 +42,12 @@ pub fn transform_expr(mut expr: Expr) -> proc_macro2::TokenStream {
     match expr {
         Expr::Unary(unary) => transform_unary(unary),
         Expr::Binary(binary) => transform_binary(binary),
+        // Arithmetic inside the receiver or the arguments needs to be checked as well
+        Expr::MethodCall(ref mc)
+            if contains_math(&mc.receiver) || mc.args.iter().any(contains_math) =>
+        {
+            transform_method_call_on_math(mc.clone())
+        }
         Expr::MethodCall(ref mut mc) => {
             if mc.method == "pow" {
                 mc.method = syn::Ident::new("checked_pow", mc.method.span());
@@ -54,12 +63,9 @@ pub fn transform_expr(mut expr: Expr) -> proc_macro2::TokenStream {
         }
         Expr::Call(c) => {
             let f = c.func.clone();
-            let name = quote!(#f).to_string();
             if c.args.is_empty() {
                 quote! { Some(#c) }
-            } else if (name == "I80F48 :: from" || name == "I80F48 :: from_num")
-                && c.args.len() == 1
-            {
+            } else if is_i80f48_conversion(&c) {
                 let expr = transform_expr(c.args[0].clone());
                 quote! { (#expr).map(|v| #f(v)) }
             } else {
@@ -98,6 +104,61 @@ pub fn transform_expr(mut expr: Expr) -> proc_macro2::TokenStream {
     }
 }
 
+fn is_i80f48_conversion(call: &ExprCall) -> bool {
+    let f = &call.func;
+    let name = quote!(#f).to_string();
+    (name == "I80F48 :: from" || name == "I80F48 :: from_num") && call.args.len() == 1
+}
+
+/// Does evaluating the expression involve arithmetic that this macro would transform?
+fn contains_math(expr: &Expr) -> bool {
+    match expr {
+        Expr::Binary(binary) => matches!(
+            binary.op,
+            BinOp::Add(_)
+                | BinOp::Sub(_)
+                | BinOp::Mul(_)
+                | BinOp::Div(_)
+                | BinOp::Rem(_)
+                | BinOp::Shl(_)
+                | BinOp::Shr(_)
+        ),
+        Expr::Cast(c) => contains_math(&c.expr),
+        Expr::Unary(unary) => matches!(unary.op, UnOp::Neg(_)) || contains_math(&unary.expr),
+        Expr::Paren(p) => contains_math(&p.expr),
+        Expr::Group(g) => contains_math(&g.expr),
+        Expr::MethodCall(mc) => {
+            mc.method == "pow" || mc.method == "abs" || contains_math(&mc.receiver)
+        }
+        Expr::Call(c) => is_i80f48_conversion(c) && contains_math(&c.args[0]),
+        _ => false,
+    }
+}
+
+fn transform_method_call_on_math(mc: ExprMethodCall) -> proc_macro2::TokenStream {
+    let (method, turbofish) = (&mc.method, &mc.turbofish);
+    if method == "pow" && mc.args.len() == 1 {
+        let receiver = transform_expr(*mc.receiver.clone());
+        let arg = transform_expr(mc.args[0].clone());
+        quote! {
+            {
+                match (#receiver, #arg) {
+                    (Some(left), Some(right)) => left.checked_pow(right),
+                    _ => None
+                }
+            }
+        }
+    } else if method == "abs" && mc.args.is_empty() {
+        let receiver = transform_expr(*mc.receiver.clone());
+        quote! { (#receiver).and_then(|v| v.checked_abs()) }
+    } else if mc.args.is_empty() {
+        let receiver = transform_expr(*mc.receiver.clone());
+        quote! { (#receiver).map(|v| v.#method #turbofish ()) }
+    } else {
+        abort!(mc, "method calls with arguments are not supported");
+    }
+}
+
 fn transform_unary(unary: ExprUnary) -> proc_macro2::TokenStream {
     let expr = transform_expr(*unary.expr);
     let op = unary.op;
-- 
2.43.0


From 6fc090328a303ba2998b181722a67f3308f79a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 02/23] fix: lower the deposit index of every bank when
 socializing a token loss

The loop stopped at the bank that absorbed the last of the loss, so banks after
it kept the old deposit index and their depositors did not share the loss.
---
 programs/mango-v4/src/instructions/token_liq_bankruptcy.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs b/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
index 430b3b0..f919084 100644
--- a/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
+++ b/programs/mango-v4/src/instructions/token_liq_bankruptcy.rs
@@ -265,9 +265,6 @@ pub fn token_liq_bankruptcy(
                 liqee_liab_active =
                     bank.deposit_with_dusting(liqee_liab, amount_for_bank, now_ts)?;
                 amount_to_credit -= amount_for_bank;
-                if amount_to_credit <= 0 {
-                    break;
-                }
             }
         }
 
-- 
2.43.0


From 336d78d714366d2a812d4ec94434e08e6d475f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 03/23] fix: start a new settle limit window before settling
 perp fees

---
 programs/mango-v4/src/instructions/perp_settle_fees.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/mango-v4/src/instructions/perp_settle_fees.rs b/programs/mango-v4/src/instructions/perp_settle_fees.rs
index 87449f5..e606926 100644
--- a/programs/mango-v4/src/instructions/perp_settle_fees.rs
+++ b/programs/mango-v4/src/instructions/perp_settle_fees.rs
@@ -50,6 +50,9 @@ pub fn perp_settle_fees(ctx: Context<PerpSettleFees>, max_settle_amount: u64) ->
     // Calculate PnL
     let pnl = perp_position.unsettled_pnl(&perp_market, oracle_price)?;
 
+    // Apply pnl settle limits
+    let now_ts: u64 = Clock::get()?.unix_timestamp.try_into().unwrap();
+    perp_position.update_settle_limit(&perp_market, now_ts);
     let settleable_pnl = perp_position.apply_pnl_settle_limit(&perp_market, pnl);
 
     if !settleable_pnl.is_negative() || !perp_market.fees_accrued.is_positive() {
-- 
2.43.0


From 744f0c67b58e8ce3fb1944ee9787d87bbe95893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 04/23] fix: check that the dao account of a fee buyback is not
 frozen

The constraint on dao_account tested the user's account a second time, so
fees could be bought back from, and MNGO paid to, a frozen dao account.
---
 .../mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs b/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs
index 6b28381..b6362fa 100644
--- a/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs
+++ b/programs/mango-v4/src/accounts_ix/account_buyback_fees_with_mngo.rs
@@ -22,7 +22,7 @@ pub struct AccountBuybackFeesWithMngo<'info> {
     #[account(
         mut,
         has_one = group,
-        constraint = account.load()?.is_operational() @ MangoError::AccountIsFrozen,
+        constraint = dao_account.load()?.is_operational() @ MangoError::AccountIsFrozen,
         address = group.load()?.buyback_fees_swap_mango_account
     )]
     pub dao_account: AccountLoader<'info, MangoAccountFixed>,
-- 
2.43.0


From 1c2934ce249de93904e232a401326c4f2da009ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:18 +0000
Subject: [PATCH 05/23] fix: settle funding before force-closing perp positions

perp_force_close_position changed base positions without settling their
funding first, so the funding owed or earned on the closed lots was lost.
---
 programs/mango-v4/src/instructions/perp_force_close_position.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/programs/mango-v4/src/instructions/perp_force_close_position.rs b/programs/mango-v4/src/instructions/perp_force_close_position.rs
index 1f4aa13..52296eb 100644
--- a/programs/mango-v4/src/instructions/perp_force_close_position.rs
+++ b/programs/mango-v4/src/instructions/perp_force_close_position.rs
@@ -42,6 +42,8 @@ pub fn perp_force_close_position(ctx: Context<PerpForceClosePosition>) -> Result
     )?;
     let quote_transfer = I80F48::from(base_transfer * perp_market.base_lot_size) * oracle_price;
 
+    account_a_perp_position.settle_funding(&perp_market);
+    account_b_perp_position.settle_funding(&perp_market);
     account_a_perp_position.record_trade(&mut perp_market, -base_transfer, quote_transfer);
     account_b_perp_position.record_trade(&mut perp_market, base_transfer, -quote_transfer);
 
-- 
2.43.0


From 6abfdd568df1f0e4f3ff383ca2aef15527fa2237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:13 +0000
Subject: [PATCH 06/23] fix: price perp positions in assets_and_liabs by their
 settle token

The settle token's index was used as a position in the list of the account's
token infos, so that another token's price was used (or none found) unless the
account's positions happened to be in the order of the token indexes.
---
 programs/mango-v4/src/health/cache.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/programs/mango-v4/src/health/cache.rs b/programs/mango-v4/src/health/cache.rs
index 5c92525..6752859 100644
--- a/programs/mango-v4/src/health/cache.rs
+++ b/programs/mango-v4/src/health/cache.rs
@@ -773,9 +773,8 @@ impl HealthCache {
         }
 
         for perp_info in self.perp_infos.iter() {
-            let quote_price = self.token_infos[perp_info.settle_token_index as usize]
-                .prices
-                .oracle;
+            let settle_token_index = self.token_info_index(perp_info.settle_token_index).unwrap();
+            let quote_price = self.token_infos[settle_token_index].prices.oracle;
             let quote_position_value = perp_info.quote * quote_price;
             if perp_info.quote.is_negative() {
                 liabs -= quote_position_value;
-- 
2.43.0


From d9ce88b828b65348c0b9f7849b386f5ab164fca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:45 +0000
Subject: [PATCH 07/23] fix: stable price update no longer panics while price
 and delay price are both zero

---
 programs/mango-v4/src/state/stable_price.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/state/stable_price.rs b/programs/mango-v4/src/state/stable_price.rs
index c70caa1..2d729c8 100644
--- a/programs/mango-v4/src/state/stable_price.rs
+++ b/programs/mango-v4/src/state/stable_price.rs
@@ -175,7 +175,10 @@ impl StablePriceModel {
         //
         self.stable_price = {
             let prev_stable_price = self.stable_price;
-            let fraction = if delay_price >= prev_stable_price {
+            let fraction = if delay_price == prev_stable_price {
+                // also before there was a nonzero price, when both are zero
+                1.0
+            } else if delay_price > prev_stable_price {
                 prev_stable_price / delay_price
             } else {
                 delay_price / prev_stable_price
-- 
2.43.0


From 4d6b80b95a25233f3faf18f2f35e58a0d4fce999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 08/23] fix: event for a removed perp order slot no longer
 blocks the event queue

An account can be shrunk below the slot of an order that was cancelled while its
fill or out event is still pending. Processing that event then indexed out of the
account's orders section and the queue could never be consumed again.
---
 programs/mango-v4/src/state/mango_account.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/programs/mango-v4/src/state/mango_account.rs b/programs/mango-v4/src/state/mango_account.rs
index c146b23..0b811f7 100644
--- a/programs/mango-v4/src/state/mango_account.rs
+++ b/programs/mango-v4/src/state/mango_account.rs
@@ -1300,6 +1300,12 @@ impl<
         // the pending maker lots.
         pa.adjust_maker_lots(side, -quantity_filled);
 
+        // The order may have been cancelled early and its (then free) slot removed by
+        // shrinking the account before this event is processed.
+        if maker_slot >= self.header().perp_oo_count() {
+            return Ok(realized_pnl);
+        }
+
         let oo = self.perp_order_mut_by_raw_index(maker_slot);
         let is_active = oo.is_active_for_market(perp_market_index);
 
@@ -1356,6 +1362,12 @@ impl<
         let pa = self.perp_position_mut(perp_market_index)?;
         pa.adjust_maker_lots(side, -quantity);
 
+        // The slot may have been removed by shrinking the account since the event was
+        // created. Then there's no order to clear.
+        if slot >= self.header().perp_oo_count() {
+            return Ok(());
+        }
+
         let oo = self.perp_order_mut_by_raw_index(slot);
         let is_active = oo.is_active_for_market(perp_market_index);
 
-- 
2.43.0


From 2224f024e6da31da12b2c10f8754da083f6eb952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:51 +0000
Subject: [PATCH 09/23] fix: fills feed no longer dies when the event queue's
 head is at the start of the ring

The sequence number of the head was read from the event before it, which
underflowed for head 0: on a fresh market, and each time the ring wrapped.
---
 .../src/fill_event_filter.rs                  | 42 ++++++++-----------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/bin/service-mango-fills/src/fill_event_filter.rs b/bin/service-mango-fills/src/fill_event_filter.rs
index 127b9f3..ca516f2 100644
--- a/bin/service-mango-fills/src/fill_event_filter.rs
+++ b/bin/service-mango-fills/src/fill_event_filter.rs
@@ -25,14 +25,19 @@ use std::{
 use crate::metrics::MetricU64;
 use anchor_lang::AccountDeserialize;
 use mango_v4::state::{
-    AnyEvent, EventQueue, EventQueueHeader, EventType, FillEvent as PerpFillEvent,
-    OutEvent as PerpOutEvent, QueueHeader, MAX_NUM_EVENTS,
+    AnyEvent, EventQueue, EventQueueHeader, EventType, FillEvent as PerpFillEvent, QueueHeader,
+    MAX_NUM_EVENTS,
 };
 use service_mango_fills::*;
 
 // couldn't compile the correct struct size / math on m1, fixed sizes resolve this issue
 type EventQueueEvents = [AnyEvent; MAX_NUM_EVENTS as usize];
 
+// the events before head (wherever that is in the ring) have the seq_nums up to this one
+fn head_seq_num(header: &EventQueueHeader) -> u64 {
+    header.seq_num - header.count() as u64
+}
+
 #[allow(clippy::too_many_arguments)]
 fn publish_changes_perp(
     slot: u64,
@@ -41,7 +46,7 @@ fn publish_changes_perp(
     header: &EventQueueHeader,
     events: &EventQueueEvents,
     prev_seq_num: u64,
-    prev_head: usize,
+    (prev_head, prev_head_seq_num): (usize, u64),
     prev_events: &EventQueueEvents,
     fill_update_sender: &async_channel::Sender<FillEventFilterMessage>,
     metric_events_new: &mut MetricU64,
@@ -167,25 +172,8 @@ fn publish_changes_perp(
 
     let head = header.head();
 
-    let head_seq_num = if events[head - 1].event_type == EventType::Fill as u8 {
-        let event: PerpFillEvent = bytemuck::cast(events[head - 1]);
-        event.seq_num + 1
-    } else if events[head - 1].event_type == EventType::Out as u8 {
-        let event: PerpOutEvent = bytemuck::cast(events[head - 1]);
-        event.seq_num + 1
-    } else {
-        0
-    };
-
-    let prev_head_seq_num = if prev_events[prev_head - 1].event_type == EventType::Fill as u8 {
-        let event: PerpFillEvent = bytemuck::cast(prev_events[prev_head - 1]);
-        event.seq_num + 1
-    } else if prev_events[prev_head - 1].event_type == EventType::Out as u8 {
-        let event: PerpOutEvent = bytemuck::cast(prev_events[prev_head - 1]);
-        event.seq_num + 1
-    } else {
-        0
-    };
+    // the seq_num of the oldest event that wasn't consumed yet
+    let head_seq_num = head_seq_num(header);
 
     // publish a head update event if the head changed (events were consumed)
     if head != prev_head {
@@ -563,7 +551,10 @@ pub async fn init(
                             }
 
                             seq_num_cache.insert(evq_pk_string.clone(), event_queue.header.seq_num);
-                            head_cache.insert(evq_pk_string.clone(), event_queue.header.head());
+                            head_cache.insert(
+                                evq_pk_string.clone(),
+                                (event_queue.header.head(), head_seq_num(&event_queue.header)),
+                            );
                             perp_events_cache.insert(evq_pk_string.clone(), event_queue.buf);
                         } else {
                             let inner_data = &account.data()[5..&account.data().len() - 7];
@@ -607,7 +598,10 @@ pub async fn init(
                             }
 
                             seq_num_cache.insert(evq_pk_string.clone(), seq_num);
-                            head_cache.insert(evq_pk_string.clone(), header.head as usize);
+                            head_cache.insert(
+                                evq_pk_string.clone(),
+                                (header.head as usize, seq_num.saturating_sub(count)),
+                            );
                             serum_events_cache.insert(evq_pk_string.clone(), events.to_vec());
                         }
                     }
-- 
2.43.0


From d9bc4e19d0b8d0333f8c95079a5abd4a2d1f97e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:17 +0000
Subject: [PATCH 10/23] fix: orderbook feed publishes book updates that only
 add or only remove orders

---
 bin/service-mango-orderbook/src/orderbook_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/service-mango-orderbook/src/orderbook_filter.rs b/bin/service-mango-orderbook/src/orderbook_filter.rs
index 26faccb..bb65410 100644
--- a/bin/service-mango-orderbook/src/orderbook_filter.rs
+++ b/bin/service-mango-orderbook/src/orderbook_filter.rs
@@ -222,7 +222,7 @@ fn publish_changes(
         metric_level_updates.increment();
     }
 
-    if !book_additions.is_empty() && !book_removals.is_empty() {
+    if !book_additions.is_empty() || !book_removals.is_empty() {
         orderbook_update_sender
             .try_send(OrderbookFilterMessage::BookUpdate(BookUpdate {
                 market: mkt.0.to_string(),
-- 
2.43.0


From 9fc6321028f9c7402115bf5f2e1755ee1f04a2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:17 +0000
Subject: [PATCH 11/23] fix: orderbook feed reprices the asks too when the
 oracle changes

The oracle's version was recorded while looking at the bids, so the asks (and
other markets with the same oracle) looked unchanged until their next write.
---
 bin/service-mango-orderbook/src/orderbook_filter.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/service-mango-orderbook/src/orderbook_filter.rs b/bin/service-mango-orderbook/src/orderbook_filter.rs
index bb65410..1be6175 100644
--- a/bin/service-mango-orderbook/src/orderbook_filter.rs
+++ b/bin/service-mango-orderbook/src/orderbook_filter.rs
@@ -325,12 +325,13 @@ pub async fn init(
                     let side_pk = if side == 0 { mkt.1.bids } else { mkt.1.asks };
                     let other_side_pk = if side == 0 { mkt.1.asks } else { mkt.1.bids };
                     let oracle_pk = mkt.1.oracle;
+                    // each bookside depends on the oracle and follows its updates separately
+                    let side_oracle_key = format!("{}-{}", side_pk, oracle_pk);
                     let last_side_write_version = last_write_versions
                         .get(&side_pk.to_string())
                         .unwrap_or(&(0, 0));
-                    let last_oracle_write_version = last_write_versions
-                        .get(&oracle_pk.to_string())
-                        .unwrap_or(&(0, 0));
+                    let last_oracle_write_version =
+                        last_write_versions.get(&side_oracle_key).unwrap_or(&(0, 0));
 
                     match (
                         chain_cache.account(&side_pk),
@@ -338,7 +339,6 @@ pub async fn init(
                     ) {
                         (Ok(side_info), Ok(oracle_info)) => {
                             let side_pk_string = side_pk.to_string();
-                            let oracle_pk_string = oracle_pk.to_string();
 
                             if !side_info
                                 .is_newer_than(last_side_write_version.0, last_side_write_version.1)
@@ -355,7 +355,7 @@ pub async fn init(
                                 (side_info.slot, side_info.write_version),
                             );
                             last_write_versions.insert(
-                                oracle_pk_string.clone(),
+                                side_oracle_key,
                                 (oracle_info.slot, oracle_info.write_version),
                             );
 
-- 
2.43.0


From d4b32ad349f830d0cb884cacbeb9326e096d4a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:17 +0000
Subject: [PATCH 12/23] fix: orderbook feed keeps count of orders that look the
 same

Orders are compared by price, size and owner. With several equal ones, adding or
removing one of them was never published.
---
 .../src/orderbook_filter.rs                   | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/bin/service-mango-orderbook/src/orderbook_filter.rs b/bin/service-mango-orderbook/src/orderbook_filter.rs
index 1be6175..c21a772 100644
--- a/bin/service-mango-orderbook/src/orderbook_filter.rs
+++ b/bin/service-mango-orderbook/src/orderbook_filter.rs
@@ -102,15 +102,21 @@ fn publish_changes(
         )
     }
 
+    // orders that look the same can be on the book several times, so each only has one peer
+    let mut unmatched_orders: Vec<&Order> = current_orders.iter().collect();
     for prev_order in previous_orders.iter() {
-        let peer = current_orders.iter().find(|order| prev_order == *order);
+        let peer = unmatched_orders
+            .iter()
+            .position(|order| prev_order == *order);
 
         match peer {
             None => {
                 debug!("R {:?}", prev_order);
                 book_removals.push(prev_order.clone());
             }
-            _ => continue,
+            Some(index) => {
+                unmatched_orders.remove(index);
+            }
         }
     }
 
@@ -152,18 +158,9 @@ fn publish_changes(
         }
     }
 
-    for current_order in current_orders {
-        let peer = previous_orders.iter().find(|order| current_order == *order);
-
-        match peer {
-            Some(_) => {
-                continue;
-            }
-            None => {
-                debug!("A {:?}", current_order);
-                book_additions.push(current_order.clone())
-            }
-        }
+    for current_order in unmatched_orders {
+        debug!("A {:?}", current_order);
+        book_additions.push(current_order.clone())
     }
 
     match maybe_other_orders {
-- 
2.43.0


From 9f746f3b37b160c10d9761dfb87dd9b16f2437b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:33 +0000
Subject: [PATCH 13/23] fix: fills feed revoked fills twice when a fork undid
 more events than the queue holds

---
 bin/service-mango-fills/src/fill_event_filter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/service-mango-fills/src/fill_event_filter.rs b/bin/service-mango-fills/src/fill_event_filter.rs
index ca516f2..d906724 100644
--- a/bin/service-mango-fills/src/fill_event_filter.rs
+++ b/bin/service-mango-fills/src/fill_event_filter.rs
@@ -145,7 +145,8 @@ fn publish_changes_perp(
     }
 
     // in case queue size shrunk due to a fork we need revoke all previous fills
-    for seq_num in header.seq_num..prev_seq_num {
+    // (only events that were still in the old queue)
+    for seq_num in max(start_seq_num, header.seq_num)..prev_seq_num {
         let idx = (seq_num % MAX_NUM_EVENTS as u64) as usize;
         debug!(
             "found dropped event {} idx {} seq_num {} header seq num {} old seq num {} slot {} write_version {}",
-- 
2.43.0


From e2fc37542b179893307f85cf3704ff5043cc0a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:36 +0000
Subject: [PATCH 14/23] fix: a further bank keeps its token's fallback oracle

---
 programs/mango-v4/src/state/bank.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/state/bank.rs b/programs/mango-v4/src/state/bank.rs
index 827f8ca..221f12e 100644
--- a/programs/mango-v4/src/state/bank.rs
+++ b/programs/mango-v4/src/state/bank.rs
@@ -377,7 +377,7 @@ impl Bank {
             maint_weight_shift_duration_inv: existing_bank.maint_weight_shift_duration_inv,
             maint_weight_shift_asset_target: existing_bank.maint_weight_shift_asset_target,
             maint_weight_shift_liab_target: existing_bank.maint_weight_shift_liab_target,
-            fallback_oracle: existing_bank.oracle,
+            fallback_oracle: existing_bank.fallback_oracle,
             deposit_limit: existing_bank.deposit_limit,
             zero_util_rate: existing_bank.zero_util_rate,
             platform_liquidation_fee: existing_bank.platform_liquidation_fee,
-- 
2.43.0


From 7b1d423b7e9ab0596a0a1d57f944345b8a5c48fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:54 +0000
Subject: [PATCH 15/23] fix: triggering a conditional swap whose sell token
 takes no deposits

---
 .../mango-v4/src/instructions/token_conditional_swap_trigger.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/instructions/token_conditional_swap_trigger.rs b/programs/mango-v4/src/instructions/token_conditional_swap_trigger.rs
index 1d25846..133b0be 100644
--- a/programs/mango-v4/src/instructions/token_conditional_swap_trigger.rs
+++ b/programs/mango-v4/src/instructions/token_conditional_swap_trigger.rs
@@ -441,7 +441,7 @@ fn action(
             post_liqee_buy_token,
             post_liqee_sell_token,
             I80F48::MAX, // other liqors might not have reduce-only related restrictions
-            I80F48::MIN,
+            -I80F48::from(u64::MAX), // not I80F48::MIN, which can't be negated
             buy_bank,
             sell_bank,
         );
-- 
2.43.0


From 3e53d1bcf22a4b2c904eab8feeccac67596af267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:59 +0000
Subject: [PATCH 16/23] fix: max_borrow_for_health_ratio failed for native
 prices below one and with spot orders

---
 programs/mango-v4/src/health/client.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/programs/mango-v4/src/health/client.rs b/programs/mango-v4/src/health/client.rs
index efc6c75..46907fd 100644
--- a/programs/mango-v4/src/health/client.rs
+++ b/programs/mango-v4/src/health/client.rs
@@ -465,15 +465,18 @@ impl HealthCache {
         // At most withdraw all deposits plus enough borrows to bring health to zero
         // (ensure this works with zero asset weight)
         let limit = token_balance.max(I80F48::ZERO)
-            + self.health(health_type).max(I80F48::ZERO) / token.init_scaled_liab_weight;
+            + self.health(health_type).max(I80F48::ZERO) / token.liab_weighted_price(health_type);
         if limit <= 0 {
             return Ok(I80F48::ZERO);
         }
+        // Note that this is just an estimate. Rounding, and serum3 reserved funds that offset borrows,
+        // can move the actual zero point further to the right.
+        let right_bound = scan_right_until_less_than(limit, min_fn_value, fn_value_after_borrow)?;
 
         binary_search(
             I80F48::ZERO,
             target_fn(self),
-            limit,
+            right_bound,
             min_fn_value,
             I80F48::ONE,
             fn_value_after_borrow,
-- 
2.43.0


From 340503787ac97b5df8ef4e44b0865b6127e0685b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:59 +0000
Subject: [PATCH 17/23] fix: max_perp_for_health_ratio panicked with open
 orders or a moved settle token price

---
 programs/mango-v4/src/health/client.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/programs/mango-v4/src/health/client.rs b/programs/mango-v4/src/health/client.rs
index 46907fd..1e6c658 100644
--- a/programs/mango-v4/src/health/client.rs
+++ b/programs/mango-v4/src/health/client.rs
@@ -394,13 +394,19 @@ impl HealthCache {
             let zero_health_amount = case1_start_i80f48
                 - start_health / (final_health_slope * base_lot_size * I80F48::from_num(0.99))
                 + I80F48::ONE;
-            let zero_health_ratio = health_ratio_after_trade_trunc(zero_health_amount)?;
-            assert!(zero_health_ratio <= 0);
+            // Note that this is just an estimate. Open perp orders and differing asset and liab prices
+            // for the settle token can move the actual zero point further to the right.
+            let open_orders_lots = perp_info.bids_base_lots + perp_info.asks_base_lots;
+            let right_bound = scan_right_until_less_than(
+                zero_health_amount + I80F48::from(open_orders_lots),
+                min_ratio,
+                health_ratio_after_trade_trunc,
+            )?;
 
             binary_search(
                 case1_start_i80f48,
                 case1_start_ratio,
-                zero_health_amount,
+                right_bound,
                 min_ratio,
                 I80F48::ONE,
                 health_ratio_after_trade_trunc,
-- 
2.43.0


From 6f3bf969ec69904bdefb8c9a57f0768818f70524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:59 +0000
Subject: [PATCH 18/23] fix: max_swap_source_for_health_fn panicked on rounding
 noise around the maximum

---
 programs/mango-v4/src/health/client.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/programs/mango-v4/src/health/client.rs b/programs/mango-v4/src/health/client.rs
index 1e6c658..b3a3d72 100644
--- a/programs/mango-v4/src/health/client.rs
+++ b/programs/mango-v4/src/health/client.rs
@@ -567,6 +567,9 @@ fn binary_search(
 /// distinct maximums with non-maximal values between them.
 ///
 /// If the maximum isn't just a single point, it returns the rightmost value.
+///
+/// Close to the maximum `fun` may be flat enough that neighboring values differ by rounding noise only,
+/// so the assumption can't be asserted exactly.
 fn find_maximum(
     mut left: I80F48,
     mut right: I80F48,
@@ -583,14 +586,12 @@ fn find_maximum(
         //println!("it {left} {left_value}; {mid} {mid_value}; {right} {right_value}");
         if left_value > mid_value {
             // max must be between left and mid
-            assert!(mid_value >= right_value);
             right = mid;
             right_value = mid_value;
             mid = half * (left + mid);
             mid_value = fun(mid)?
         } else if mid_value <= right_value {
             // max must be between mid and right
-            assert!(left_value <= mid_value);
             left = mid;
             left_value = mid_value;
             mid = half * (mid + right);
@@ -600,7 +601,6 @@ fn find_maximum(
             let leftmid = half * (left + mid);
             let leftmid_value = fun(leftmid)?;
             //println!("lm {leftmid} {leftmid_value}");
-            assert!(leftmid_value >= left_value);
             if leftmid_value > mid_value {
                 // max between left and mid
                 right = mid;
@@ -613,7 +613,6 @@ fn find_maximum(
             let rightmid = half * (mid + right);
             let rightmid_value = fun(rightmid)?;
             //println!("rm {rightmid} {rightmid_value}");
-            assert!(rightmid_value >= right_value);
             if rightmid_value >= mid_value {
                 // max between mid and right
                 left = mid;
-- 
2.43.0


From 36d7a6cc2ac5f611fa691d5fdab64c26ae0d251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:59 +0000
Subject: [PATCH 19/23] fix: max_swap_source_for_health_ratio_with_limits was
 negative once a limit was exceeded

---
 programs/mango-v4/src/health/client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/mango-v4/src/health/client.rs b/programs/mango-v4/src/health/client.rs
index b3a3d72..59dbc5f 100644
--- a/programs/mango-v4/src/health/client.rs
+++ b/programs/mango-v4/src/health/client.rs
@@ -79,8 +79,9 @@ impl HealthCache {
         let potential_target = potential_target_unlimited
             .min(available_deposits.saturating_add(-target_pos.min(I80F48::ZERO)));
 
+        // Both limits may already be exceeded
         let source = potential_source.min(potential_target.saturating_div(price));
-        Ok(source)
+        Ok(source.max(I80F48::ZERO))
     }
 
     /// Verifies neither the net borrow or deposit limits
-- 
2.43.0


From a7d03f13661b4777bd92893ee3ce0804a555d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:47 +0000
Subject: [PATCH 20/23] fix: client health cache never used the fallback
 oracles it fetched

---
 lib/client/src/health_cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/client/src/health_cache.rs b/lib/client/src/health_cache.rs
index 8f666c0..a8590da 100644
--- a/lib/client/src/health_cache.rs
+++ b/lib/client/src/health_cache.rs
@@ -16,6 +16,7 @@ pub async fn new(
 ) -> anyhow::Result<HealthCache> {
     let active_token_len = account.active_token_positions().count();
     let active_perp_len = account.active_perp_positions().count();
+    let active_serum3_len = account.active_serum3_orders().count();
 
     let fallback_keys = context
         .derive_fallback_oracle_keys(fallback_config, account_fetcher)
@@ -44,7 +45,7 @@ pub async fn new(
         begin_perp: active_token_len * 2,
         begin_serum3: active_token_len * 2 + active_perp_len * 2,
         now: None,
-        begin_fallback_oracles: metas.len(),
+        begin_fallback_oracles: active_token_len * 2 + active_perp_len * 2 + active_serum3_len,
         usdc_oracle_index: metas
             .iter()
             .position(|m| m.pubkey == pyth_mainnet_usdc_oracle::ID),
-- 
2.43.0


From 2d88f84c0a56dcee1b2d92de1f5cbf3a90aacfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:47 +0000
Subject: [PATCH 21/23] fix: client group context failed or mixed up tokens
 when a fallback oracle account was missing

---
 lib/client/src/context.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/client/src/context.rs b/lib/client/src/context.rs
index 3071bd0..6d57859 100644
--- a/lib/client/src/context.rs
+++ b/lib/client/src/context.rs
@@ -299,17 +299,23 @@ impl MangoGroupContext {
             .iter()
             .map(|tup| tup.1.fallback_oracle)
             .collect();
-        let fallback_oracle_accounts = fetch_multiple_accounts(rpc, &fallback_keys[..]).await?;
-        for (index, (_, bank)) in bank_tuples.iter().enumerate() {
+        // note that accounts that don't exist are missing from the result
+        let fallback_oracle_accounts = fetch_multiple_accounts(rpc, &fallback_keys[..])
+            .await?
+            .into_iter()
+            .collect::<HashMap<_, _>>();
+        for (_, bank) in bank_tuples.iter() {
             let token = tokens.get_mut(&bank.token_index).unwrap();
             token.closed &=
                 bank.native_deposits() == 0 && bank.native_borrows() == 0 && bank.reduce_only == 1;
             token.name = bank.name().into();
             token.decimals = bank.mint_decimals;
             token.oracle_config = bank.oracle_config;
-            let (key, acc_info) = fallback_oracle_accounts[index].clone();
-            token.fallback_context.quote_key =
-                get_fallback_quote_key(&KeyedAccountSharedData::new(key, acc_info));
+            if let Some(acc_info) = fallback_oracle_accounts.get(&bank.fallback_oracle) {
+                token.fallback_context.quote_key = get_fallback_quote_key(
+                    &KeyedAccountSharedData::new(bank.fallback_oracle, acc_info.clone()),
+                );
+            }
         }
         assert!(tokens.values().all(|t| t.decimals != u8::MAX));
 
-- 
2.43.0


From f5f3f1567460703df0b7b48fe0c2a3c02d5853db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:47 +0000
Subject: [PATCH 22/23] fix: client changed_significantly panicked when one
 listing replaced another

---
 lib/client/src/context.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/client/src/context.rs b/lib/client/src/context.rs
index 6d57859..7fc45e5 100644
--- a/lib/client/src/context.rs
+++ b/lib/client/src/context.rs
@@ -614,7 +614,7 @@ impl MangoGroupContext {
             return true;
         }
         for (&ti, old) in self.tokens.iter() {
-            if old != other.token(ti) {
+            if other.tokens.get(&ti) != Some(old) {
                 return true;
             }
         }
@@ -623,7 +623,7 @@ impl MangoGroupContext {
             return true;
         }
         for (&mi, old) in self.serum3_markets.iter() {
-            if old != other.serum3(mi) {
+            if other.serum3_markets.get(&mi) != Some(old) {
                 return true;
             }
         }
@@ -632,7 +632,7 @@ impl MangoGroupContext {
             return true;
         }
         for (&pi, old) in self.perp_markets.iter() {
-            if old != other.perp(pi) {
+            if other.perp_markets.get(&pi) != Some(old) {
                 return true;
             }
         }
-- 
2.43.0


From da731d66eab932e9690fbc1d43593bf44efed267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:47 +0000
Subject: [PATCH 23/23] fix: client left out fallback oracles that are another
 token's main oracle

---
 lib/client/src/context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/client/src/context.rs b/lib/client/src/context.rs
index 7fc45e5..5167a1a 100644
--- a/lib/client/src/context.rs
+++ b/lib/client/src/context.rs
@@ -468,7 +468,7 @@ impl MangoGroupContext {
         let fallback_oracles: Vec<Pubkey> = fallbacks
             .into_iter()
             .unique()
-            .filter(|key| !oracles.contains(key) && key != &Pubkey::default())
+            .filter(|key| key != &Pubkey::default())
             .collect();
         let fallbacks_len = fallback_oracles.len();
 
@@ -550,7 +550,7 @@ impl MangoGroupContext {
         let fallback_oracles: Vec<Pubkey> = fallbacks
             .into_iter()
             .unique()
-            .filter(|key| !oracles.contains(key) && key != &Pubkey::default())
+            .filter(|key| key != &Pubkey::default())
             .collect();
         let fallbacks_len = fallback_oracles.len();
 
-- 
2.43.0

