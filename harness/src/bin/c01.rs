//! C01: limit order book: online reference-model monitor over random and hostile histories.
use rqmon::*;
use std::collections::BTreeMap;
use RustQuant_trading::limit_order_book::Book;
use RustQuant_trading::{order::Order, order_book::OrderBook, order_lifespan::*, order_side::OrderSide, order_type::OrderType};

#[derive(Clone, Debug)]
enum Op {
    Add(u64, bool, u64, u64, u64),
    Cancel(u64),
    Market(u64, bool),
}

/// Specification: orders in arrival order, nothing clever.
#[derive(Default, Clone)]
struct Model {
    live: Vec<(u64, bool, u64, u64)>, // id, buy, remaining, price (arrival order)
    added: u128,
    filled: u128,
    cancelled: u128,
}
impl Model {
    fn market(&mut self, shares: u64, buy: bool) -> (bool, Vec<(u64, u64)>) {
        let mut left = shares;
        let mut out: Vec<(u64, u64)> = vec![];
        while left > 0 {
            // best price on the opposite side, earliest arrival first
            let mut best: Option<usize> = None;
            for (i, o) in self.live.iter().enumerate() {
                if o.1 == buy {
                    continue;
                }
                match best {
                    None => best = Some(i),
                    Some(b) => {
                        let bp = self.live[b].3;
                        if (buy && o.3 < bp) || (!buy && o.3 > bp) {
                            best = Some(i)
                        }
                    }
                }
            }
            let Some(b) = best else { return (false, out) };
            let take = left.min(self.live[b].2);
            let price = self.live[b].3;
            self.live[b].2 -= take;
            left -= take;
            self.filled += take as u128;
            match out.last_mut() {
                Some(l) if l.0 == price => l.1 += take,
                _ => out.push((price, take)),
            }
            if self.live[b].2 == 0 {
                self.live.remove(b);
            }
        }
        (true, out)
    }
}

fn apply(c: &mut Ctx, book: &mut Book, m: &mut Model, op: &Op, hist: &dyn Fn() -> String) -> bool {
    match op {
        Op::Add(id, buy, sh, px, ts) => {
            let dup = m.live.iter().any(|o| o.0 == *id);
            let Some(r) = c.guard("add_order", || hist(), || book.add_order(*id, *buy, *sh, *px, *ts).is_ok()) else { return false };
            if !c.check(r != dup, "add_result", || format!("add ok={r} but id already live={dup}; {}", hist())) {
                return false;
            }
            if !dup {
                m.live.push((*id, *buy, *sh, *px));
                m.added += *sh as u128;
            }
        }
        Op::Cancel(id) => {
            let pos = m.live.iter().position(|o| o.0 == *id);
            let Some(r) = c.guard("cancel_order", || hist(), || book.cancel_order(*id).is_ok()) else { return false };
            if !c.check(r == pos.is_some(), "cancel_result", || format!("cancel ok={r}, live={}; {}", pos.is_some(), hist())) {
                return false;
            }
            if let Some(p) = pos {
                m.cancelled += m.live[p].2 as u128;
                m.live.remove(p);
            }
        }
        Op::Market(sh, buy) => {
            let Some((ok, fills)) = c.guard("market", || hist(), || book.execute_market_order(*sh, *buy)) else { return false };
            let (mok, mf) = m.market(*sh, *buy);
            // one entry per price level is the documented shape; empty fills carry no shares
            let mut agg: Vec<(u64, u64)> = vec![];
            let mut good_shape = true;
            for (p, q) in &fills {
                match agg.last_mut() {
                    Some(l) if l.0 == *p => l.1 = l.1.saturating_add(*q),
                    _ => agg.push((*p, *q)),
                }
            }
            good_shape &= agg.len() == fills.len();
            // a level without shares is named only if orders of no shares were taken there
            good_shape &= agg.iter().all(|x| x.1 > 0 || mf.iter().any(|m| m.0 == x.0));
            agg.retain(|x| x.1 > 0);
            let mf2: Vec<_> = mf.iter().copied().filter(|x| x.1 > 0).collect();
            c.count("fills", mf2.len() as u64);
            let f: u128 = fills.iter().map(|x| x.1 as u128).sum();
            let mut good = c.check(ok == mok, "market_complete_flag", || format!("flag={ok} want={mok}; {}", hist()));
            good &= c.check(f <= *sh as u128, "market_overfill", || format!("filled {f} of {sh}; {}", hist()));
            good &= c.check(good_shape, "market_report", || format!("fills={fills:?} want={mf:?}; {}", hist()));
            good &= c.check(agg == mf2, "market_fills", || format!("fills={agg:?} want={mf2:?}; {}", hist()));
            if !good {
                return false;
            }
        }
    }
    true
}

fn main() {
    let mut c = Ctx::new("C01", "random add/cancel/market histories over few or many price levels, sizes and reused ids; every call is compared with a price-time-priority model; at the end the book is rebuilt by replay and its whole content probed by unit fills, by one sweeping fill, and by cancelling every id. Non-trivial: a history with at least one fill or cancel.");
    c.assume("orders of zero shares occupy a queue slot but never produce a fill entry that counts");
    let runs = c.n(25000);
    let mut states = std::collections::HashSet::new();
    for run in 0..runs {
        let mut r = c.fork();
        let profile = run % 6;
        let nops = if run % 50 == 0 { 600 } else { r.us(3, 70) };
        let levels = [1u64, 2, 3, 8, 40, 1000][r.us(0, 5)];
        let maxsh = [1u64, 3, 10, 1000, 1 << 40][r.us(0, 4)];
        let zero_ok = r.chance(0.1);
        let base = match r.us(0, 9) { 0 => u64::MAX - levels, 1 => 0, _ => r.below(100000) };
        let ids = r.us(2, 60) as u64;
        let mut ops: Vec<Op> = vec![];
        let mut next = 0u64;
        for _ in 0..nops {
            let x = r.f();
            let (pa, pc) = match profile {
                0 => (0.6, 0.2),
                1 => (0.4, 0.1),
                2 => (0.5, 0.45),
                3 => (0.8, 0.1),
                _ => (0.55, 0.2),
            };
            if x < pa {
                let id = if profile == 5 { next += 1; if r.bool() { next } else { u64::MAX - next } } else { r.below(ids) };
                let sh = if zero_ok && r.chance(0.2) { 0 } else { 1 + r.below(maxsh) };
                ops.push(Op::Add(id, r.bool(), sh, base + r.below(levels), r.u64()));
            } else if x < pa + pc {
                ops.push(Op::Cancel(if profile == 5 { let k = 1 + r.below(next + 1); if r.bool() { k } else { u64::MAX - k } } else { r.below(ids) }));
            } else {
                let sh = match r.us(0, 5) {
                    0 => 0,
                    1 => maxsh * 7,
                    2 => u64::MAX,
                    _ => 1 + r.below(maxsh * 2),
                };
                ops.push(Op::Market(sh, r.bool()));
            }
        }
        let h = format!("{ops:?}");
        let hist = || h.chars().take(3000).collect::<String>();
        let mut book = Book::new();
        let mut m = Model::default();
        let mut ok = true;
        let mut acted = false;
        for op in &ops {
            let before = (m.filled, m.cancelled);
            if !apply(&mut c, &mut book, &mut m, op, &hist) {
                ok = false;
                break;
            }
            acted |= before != (m.filled, m.cancelled);
            c.count("operations", 1);
            let mut depth: BTreeMap<(bool, u64), Vec<u64>> = BTreeMap::new();
            for o in &m.live {
                depth.entry((o.1, o.3)).or_default().push(o.2);
            }
            if states.len() < 2_000_000 {
                let k = format!("{depth:?}");
                let mut hsh = 0u64;
                for b in k.bytes() {
                    hsh = hsh.wrapping_mul(0x100000001b3) ^ b as u64;
                }
                states.insert(hsh);
            }
        }
        if acted { c.case("history", &h) } else { c.trivial("history_trivial") }
        if !ok {
            continue;
        }
        // conservation on the oracle side, cross-checked by draining the real book below
        let resting: u128 = m.live.iter().map(|o| o.2 as u128).sum();
        if m.added != m.filled + m.cancelled + resting {
            println!("INCONCLUSIVE oracle bookkeeping");
            std::process::exit(2);
        }
        for probe in 0..3 {
            let mut b2 = Book::default();
            let mut m2 = Model::default();
            let mut good = true;
            for op in &ops {
                good &= apply(&mut c, &mut b2, &mut m2, op, &hist);
            }
            if !good {
                break;
            }
            match probe {
                0 => {
                    // sweep both sides
                    for buy in [true, false] {
                        apply(&mut c, &mut b2, &mut m2, &Op::Market(u64::MAX, buy), &hist);
                    }
                    // afterwards the book is empty: every id can be added and cancelled again
                    for id in 0..ids.min(20) {
                        apply(&mut c, &mut b2, &mut m2, &Op::Add(id, id % 2 == 0, 1, base, 0), &hist);
                    }
                }
                1 => {
                    // cancel everything in random order, live or not, twice
                    let mut all: Vec<u64> = m2.live.iter().map(|o| o.0).chain(0..5).collect();
                    r.shuffle(&mut all);
                    for id in all.iter().chain(all.clone().iter()) {
                        apply(&mut c, &mut b2, &mut m2, &Op::Cancel(*id), &hist);
                    }
                    for buy in [true, false] {
                        apply(&mut c, &mut b2, &mut m2, &Op::Market(5, buy), &hist);
                    }
                }
                _ => {
                    // small fills, then check which ids are still live by cancelling them
                    for k in 0..12u64 {
                        let sh = 1 + r.below(maxsh);
                        apply(&mut c, &mut b2, &mut m2, &Op::Market(sh, k % 2 == 0), &hist);
                    }
                    for o in m.live.iter() {
                        apply(&mut c, &mut b2, &mut m2, &Op::Cancel(o.0), &hist);
                    }
                }
            }
            c.count("probes", 1);
        }
    }
    c.count("distinct_book_states", states.len() as u64);

    // The simple order book keeps both sides as arrival-ordered queues.
    for _ in 0..c.n(200) {
        let mut r = c.fork();
        let mut b = OrderBook::new();
        let (mut bids, mut asks) = (vec![], vec![]);
        for k in 0..r.us(0, 40) as u64 {
            let side = if r.bool() { OrderSide::BID } else { OrderSide::ASK };
            let q = r.below(1000);
            let o = Order {
                id: k, symbol_id: 7, order_type: OrderType::Limit, order_side: side, price: r.range(1.0, 9.0), stop_price: 0.5,
                quantity: q, executed_quantity: q / 3, leaves_quantity: q - q / 3, time_in_force: OrderTimeInForce::GoodTillCancelled,
                timestamp: time::OffsetDateTime::UNIX_EPOCH,
            };
            c.check(o.symbol_id() == 7 && matches!(o.order_type(), OrderType::Limit) && *o.order_side() == side && !side != side && !!side == side && o.stop_price() == 0.5 && matches!(o.time_in_force(), OrderTimeInForce::GoodTillCancelled) && o.timestamp() == time::OffsetDateTime::UNIX_EPOCH && o.id() == k && o.quantity() == q && o.executed_quantity() == q / 3 && o.leaves_quantity() == q - q / 3 && o.price() == o.price, "order_getters", || format!("{o}"));
            if matches!(side, OrderSide::BID) { bids.push(k) } else { asks.push(k) }
            c.guard("insert_order", || format!("{k}"), || b.insert_order(o));
            c.check(b.len() == bids.len() + asks.len() && b.is_empty() == (b.len() == 0), "orderbook_len", || format!("len {} want {}+{}", b.len(), bids.len(), asks.len()));
        }
        let gb: Vec<u64> = b.bids.iter().map(|o| o.id).collect();
        let ga: Vec<u64> = b.asks.iter().map(|o| o.id).collect();
        c.check(gb == bids && ga == asks, "orderbook_queues", || format!("bids {gb:?} want {bids:?}; asks {ga:?} want {asks:?}"));
        c.check(b.is_empty() == (bids.is_empty() && asks.is_empty()), "orderbook_empty", || String::new());
        c.case("orderbook", &format!("{gb:?}|{ga:?}"));
    }
    c.finish()
}
