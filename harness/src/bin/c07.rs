//! C07: curves under mutation histories, against a model that interpolates its current nodes from scratch.
use rqmon::civil::*;
use rqmon::*;
use std::collections::BTreeMap;
use RustQuant_data::*;

struct Model { nodes: BTreeMap<i64, f64>, exp: bool }
impl Model {
    fn rate(&self, q: i64) -> Option<f64> {
        if let Some(v) = self.nodes.get(&q) { return Some(*v); }
        let (a, ya) = self.nodes.range(..q).next_back()?;
        let (b, yb) = self.nodes.range(q..).next()?;
        let w = (q - a) as f64 / (b - a) as f64;
        Some(if self.exp { (ya.ln() * (1.0 - w) + yb.ln() * w).exp() } else { ya + (yb - ya) * w })
    }
}

fn main() {
    let mut c = Ctx::new("C07", "random histories (set_rate, set_rates, shift, get_rate(s)_and_insert, clones) on linear and exponential curves of every curve type, built from vectors in any order, from node maps or empty; after each step queries at, between and outside the nodes. Non-trivial: a query strictly between two nodes after at least one mutation.");
    for round in 0..c.n(6000) {
        let mut r = c.fork();
        let exp = r.bool();
        let method = if exp { InterpolationMethod::Exponential } else { InterpolationMethod::Linear };
        let types = [CurveType::Flat, CurveType::Spot, CurveType::Forward, CurveType::Discount];
        let base = r.i(-10000, 40000);
        let span = *r.pick(&[10i64, 60, 800, 20000]);
        let val = |r: &mut Rng| if exp { r.logr(1e-4, 1.5) } else { r.range(-0.1, 0.2) };
        let n = if round % 17 == 0 { 0 } else { r.size(1, 9, 600) };
        let mut m = Model { nodes: BTreeMap::new(), exp };
        for _ in 0..n { let q = base + r.i(0, span); let v = val(&mut r); m.nodes.insert(q, v); }
        let ct = *r.pick(&types);
        let cv = if r.bool() {
            let mut l: Vec<_> = m.nodes.iter().map(|(a, b)| (*a, *b)).collect();
            r.shuffle(&mut l);
            c.guard("new", || format!("{l:?}"), || Curve::new(l.iter().map(|x| date(x.0)).collect(), l.iter().map(|x| x.1).collect(), ct, method))
        } else {
            c.guard("from_nodes", || String::new(), || Curve::from_nodes(m.nodes.iter().map(|(a, b)| (date(*a), *b)).collect(), ct, method))
        };
        let Some(cv) = cv else { continue };
        let Ok(mut cv) = cv else { c.violate("constructor_error", || "valid nodes refused".into()); continue };
        c.check(cv.interpolation_method() == method, "method", String::new);
        if round % 10 == 0 {
            let bad = c.guard("new_unequal", String::new, || Curve::new(vec![date(base), date(base + 1)], vec![0.01], ct, method).is_err());
            c.check(bad != Some(false), "unequal_lengths_accepted", String::new);
        }
        let mut hist = format!("{method:?} base={} n={n}", date(base));
        let mut mutated = false;
        let mut pinned: Option<(Curve, BTreeMap<i64, f64>)> = None;
        for step in 0..r.size(2, 12, 200) {
            let q = if !m.nodes.is_empty() && r.chance(0.4) { *r.pick(&m.nodes.keys().cloned().collect::<Vec<_>>()) } else { base + r.i(-span / 5, span + span / 5) };
            match r.below(6) {
                0 => { let v = val(&mut r); cv.set_rate(date(q), v); m.nodes.insert(q, v); mutated = true; hist.push_str(&format!(" set({},{v:.4})", date(q))); }
                1 => {
                    let l: Vec<(i64, f64)> = (0..r.size(0, 4, 100)).map(|_| (base + r.i(0, span), val(&mut r))).collect();
                    cv.set_rates(l.iter().map(|x| (date(x.0), x.1)).collect());
                    for x in &l { m.nodes.insert(x.0, x.1); }
                    mutated = true;
                    hist.push_str(&format!(" set_rates({})", l.len()));
                }
                2 => {
                    let s = if exp { r.range(0.0, 0.05) } else { r.range(-0.05, 0.05) };
                    cv.shift(s);
                    for v in m.nodes.values_mut() { *v += s; }
                    mutated = true;
                    hist.push_str(&format!(" shift({s:.4})"));
                }
                3 if !m.nodes.is_empty() => {
                    let want = m.rate(q);
                    let got = c.guard("get_rate_and_insert", || hist.clone(), || cv.get_rate_and_insert(date(q))).flatten();
                    same(&mut c, got, want, "get_rate_and_insert", &hist, q);
                    if let Some(g) = got { m.nodes.insert(q, g); }
                    hist.push_str(&format!(" insert({})", date(q)));
                }
                4 if !m.nodes.is_empty() => {
                    let l: Vec<i64> = (0..r.size(0, 4, 100)).map(|_| base + r.i(-3, span + 3)).collect();
                    let got = c.guard("get_rates_and_insert", || hist.clone(), || cv.get_rates_and_insert(l.iter().map(|x| date(*x)).collect())).unwrap_or_default();
                    c.check(got.len() == l.len(), "rates_and_insert_len", || hist.clone());
                    for (g, q) in got.iter().zip(&l) { let w = m.rate(*q); same(&mut c, *g, w, "get_rates_and_insert", &hist, *q); if let Some(g) = g { m.nodes.insert(*q, *g); } }
                    hist.push_str(&format!(" inserts({})", l.len()));
                }
                _ => { if pinned.is_none() { pinned = Some((cv.clone(), m.nodes.clone())); } }
            }
            // content
            let (ds, rs) = (cv.dates(), cv.rates());
            let ok = ds.iter().map(|d| z(*d)).eq(m.nodes.keys().cloned()) && rs.len() == m.nodes.len() && rs.iter().zip(m.nodes.values()).all(|(a, b)| num::close(*a, *b, 1e-12, 1e-12));
            c.check(ok, "nodes", || format!("{hist}: {ds:?} {rs:?} want {:?}", m.nodes));
            c.check(cv.len() == m.nodes.len() && cv.is_empty() == m.nodes.is_empty(), "len", || hist.clone());
            c.check(cv.first_date().map(|d| z(*d)) == m.nodes.keys().next().cloned() && cv.last_date().map(|d| z(*d)) == m.nodes.keys().next_back().cloned(), "first_last_date", || hist.clone());
            c.check(cv.first_rate().copied() == rs.first().copied() && cv.last_rate().copied() == rs.last().copied(), "first_last_rate", || hist.clone());
            if m.nodes.is_empty() { continue }
            // queries
            let (f, l) = (*m.nodes.keys().next().unwrap(), *m.nodes.keys().next_back().unwrap());
            let mut qs = vec![f, l, f - 1, l + 1, f + 1, l - 1];
            for _ in 0..8 { qs.push(r.i(f - 2, l + 2)); }
            qs.extend(m.nodes.keys());
            let got = c.guard("get_rates", || hist.clone(), || cv.get_rates(qs.iter().map(|x| date(*x)).collect())).unwrap_or_default();
            c.check(got.len() == qs.len(), "get_rates_len", || hist.clone());
            for (i, q) in qs.iter().enumerate() {
                let want = m.rate(*q);
                let one = c.guard("get_rate", || hist.clone(), || cv.get_rate(date(*q))).flatten();
                same(&mut c, one, want, "get_rate", &hist, *q);
                if let Some(g) = got.get(i) { same(&mut c, *g, want, "get_rates", &hist, *q); }
                let lo = if *q <= f { f } else if *q >= l { l } else { *m.nodes.range(..*q).next_back().unwrap().0 };
                let hi = if *q <= f { f } else if *q >= l { l } else { *m.nodes.range(*q..).next().unwrap().0 };
                if let Some((a, b)) = c.guard("get_brackets", || format!("{hist} {}", date(*q)), || cv.get_brackets(date(*q))) {
                    c.check(z(a) == lo && z(b) == hi, "get_brackets", || format!("{hist} at {}: got {a} {b} want {} {}", date(*q), date(lo), date(hi)));
                }
                if mutated && want.is_some() && !m.nodes.contains_key(q) { c.case(if exp { "between_nodes_exponential" } else { "between_nodes_linear" }, &format!("{hist} {step} {q}")) } else { c.trivial("at_or_outside_nodes") }
            }
        }
        // a clone taken earlier is not affected by later mutations of the original
        if let Some((old, nodes)) = pinned {
            let om = Model { nodes, exp };
            c.check(old.rates().iter().zip(om.nodes.values()).all(|(a, b)| num::close(*a, *b, 1e-12, 1e-12)) && old.len() == om.nodes.len(), "clone_nodes", || hist.clone());
            if !om.nodes.is_empty() {
                for _ in 0..6 { let q = base + r.i(0, span); let w = om.rate(q); let g = c.guard("clone_get_rate", || hist.clone(), || old.get_rate(date(q))).flatten(); same(&mut c, g, w, "clone_get_rate", &hist, q); }
            }
            c.count("clones_checked", 1);
        }
    }
    c.finish()
}

fn same(c: &mut Ctx, got: Option<f64>, want: Option<f64>, what: &str, hist: &str, q: i64) {
    match (got, want) {
        (Some(g), Some(w)) => { c.close(g, w, 1e-9, 1e-9, what, || format!("{hist} at {}", date(q))); }
        (None, None) => {}
        _ => c.violate(&format!("{what}:availability"), || format!("{hist} at {}: got {got:?} want {want:?}", date(q))),
    }
}
