//! C36: the tape as an object: recording, clearing, copying, joining, drawing, and variables as numbers.
use rqmon::*;
use std::collections::HashMap;
use RustQuant_autodiff::graphviz::graphviz;
use RustQuant_autodiff::*;

/// One step of a program over small integers: every value and every partial is an exact integer.
#[derive(Clone, Debug)]
enum Step { Add(usize, usize), Sub(usize, usize), Mul(usize, usize), AddC(usize, i64), SubC(usize, i64), CSub(i64, usize), MulC(usize, i64), Neg(usize), Square(usize), Abs(usize), Unused(i64) }
use Step::*;

fn program(g: &mut Rng) -> (Vec<i64>, Vec<Step>) {
    let long = g.chance(0.02);
    let n = if long { g.us(1, 90) } else { g.us(1, 5) };
    let inputs: Vec<i64> = (0..n).map(|_| g.i(-4, 4)).collect();
    let mut vals: Vec<i128> = inputs.iter().map(|x| *x as i128).collect();
    let mut steps = vec![];
    for _ in 0..if long { g.us(60, 220) } else { g.us(0, 14) } {
        let m = vals.len();
        let (i, j, k) = (g.us(0, m - 1), g.us(0, m - 1), g.i(-5, 5));
        let s = match g.below(11) { 0 => Add(i, j), 1 => Sub(i, j), 2 => Mul(i, j), 3 => AddC(i, k), 4 => SubC(i, k), 5 => CSub(k, i), 6 => MulC(i, k), 7 => Neg(i), 8 => Square(i), 9 if vals[i] != 0 => Abs(i), _ => Unused(k) };
        let v = eval(&s, &vals);
        if v.abs() > 10_000 { continue }
        vals.push(v);
        steps.push(s);
    }
    // derivatives stay exact in a double
    while long && truth(&inputs, &steps).1.iter().flatten().any(|x| x.abs() > 1 << 45) { let k = steps.len() - steps.len() / 4 - 1; steps.truncate(k); }
    (inputs, steps)
}
fn eval(s: &Step, v: &[i128]) -> i128 {
    match *s { Add(i, j) => v[i] + v[j], Sub(i, j) => v[i] - v[j], Mul(i, j) => v[i] * v[j], AddC(i, k) => v[i] + k as i128, SubC(i, k) => v[i] - k as i128, CSub(k, i) => k as i128 - v[i], MulC(i, k) => v[i] * k as i128, Neg(i) => -v[i], Square(i) => v[i] * v[i], Abs(i) => v[i].abs(), Unused(k) => k as i128 }
}
/// values, and the derivative of every value with respect to every value it is made from (integers).
fn truth(inputs: &[i64], steps: &[Step]) -> (Vec<i128>, Vec<Vec<i128>>) {
    let mut v: Vec<i128> = inputs.iter().map(|x| *x as i128).collect();
    for s in steps { let x = eval(s, &v); v.push(x) }
    let n = v.len();
    // d[a][b] = d value a / d value b
    let mut d = vec![vec![0i128; n]; n];
    for a in 0..n {
        d[a][a] = 1;
        if a < inputs.len() { continue }
        let terms: Vec<(usize, i128)> = match steps[a - inputs.len()] {
            Add(i, j) => vec![(i, 1), (j, 1)], Sub(i, j) => vec![(i, 1), (j, -1)], Mul(i, j) => vec![(i, v[j]), (j, v[i])],
            AddC(i, _) | SubC(i, _) => vec![(i, 1)], CSub(_, i) | Neg(i) => vec![(i, -1)], MulC(i, k) => vec![(i, k as i128)],
            Square(i) => vec![(i, v[i]), (i, v[i])], Abs(i) => vec![(i, v[i].signum())], Unused(_) => vec![],
        };
        for (p, w) in terms { for b in 0..a { let x = d[p][b]; d[a][b] += w * x; } }
    }
    (v, d)
}
fn run<'v>(g: &'v Graph, inputs: &[i64], steps: &[Step], many: bool) -> Vec<Variable<'v>> {
    let mut v: Vec<Variable> = if many { g.vars(&inputs.iter().map(|x| *x as f64).collect::<Vec<_>>()) } else { inputs.iter().map(|x| g.var(*x as f64)).collect() };
    for s in steps {
        let x = match *s { Add(i, j) => v[i] + v[j], Sub(i, j) => v[i] - v[j], Mul(i, j) => v[i] * v[j], AddC(i, k) => v[i] + k as f64, SubC(i, k) => v[i] - k as f64, CSub(k, i) => k as f64 - v[i], MulC(i, k) => v[i] * k as f64, Neg(i) => -v[i], Square(i) => v[i] * v[i], Abs(i) => v[i].abs(), Unused(k) => g.var(k as f64) };
        v.push(x);
    }
    v
}

/// A drawing, read back: labels of the nodes, and the edges with their weights.
#[derive(Debug, PartialEq, Clone)]
struct Drawing { nodes: Vec<(usize, Option<f64>)>, edges: Vec<(usize, usize, f64)> }
fn read(dot: &str) -> Option<Drawing> {
    let body = dot.trim().strip_prefix("digraph")?;
    let body = &body[body.find('{')? + 1..body.rfind('}')?];
    let (mut nodes, mut edges) = (vec![], vec![]);
    for line in body.split(";\n").map(str::trim).filter(|l| !l.is_empty()) {
        let Some(open) = line.find('[') else { continue };
        let (head, label) = (line[..open].trim(), &line[open..]);
        if head == "node" { continue }
        if let Some((a, b)) = head.split_once("->") {
            let w = label.rsplit_once(": ")?.1.trim_end_matches(']').trim_end_matches('"');
            edges.push((a.trim().parse().ok()?, b.trim().parse().ok()?, w.parse().ok()?));
        } else if let Ok(i) = head.parse::<usize>() {
            let val = match label.find("Value: ") { Some(k) => Some(label[k + 7..].split('"').next()?.parse().ok()?), None => None };
            nodes.push((i, val));
        }
    }
    edges.sort_by(|a: &(usize, usize, f64), b| (a.0, a.1).cmp(&(b.0, b.1)).then(a.2.total_cmp(&b.2)));
    nodes.sort_by_key(|n: &(usize, Option<f64>)| n.0);
    Some(Drawing { nodes, edges })
}
/// sum over all paths from `from` to `to` of the product of the edge weights
fn paths(d: &Drawing, from: usize, to: usize) -> f64 {
    let mut w: HashMap<usize, f64> = HashMap::from([(from, 1.0)]);
    for node in from + 1..=to {
        let s: f64 = d.edges.iter().filter(|e| e.1 == node).map(|e| e.2 * w.get(&e.0).copied().unwrap_or(0.0)).sum();
        w.insert(node, s);
    }
    w.get(&to).copied().unwrap_or(0.0)
}

fn main() {
    let mut c = Ctx::new("C36", "random programs of up to 14 (rarely 220) steps over up to 5 (rarely 90) small integer inputs (so values, derivatives and the two decimals of a drawing are exact) with shared subexpressions, repeated operands and unused variables; every drawing is read back and its path sums compared with the true derivatives between all pairs of vertices; graphs reused after clearing, copied, joined, created with and without capacity; variables compared, sorted and classified at signed zeros, subnormals, infinities and not-a-number. Non-trivial: the program has a step.");
    for _ in 0..c.n(3000) {
        let mut g = c.fork();
        let (inputs, steps) = program(&mut g);
        let (vals, d) = truth(&inputs, &steps);
        let h = || format!("inputs={inputs:?} steps={steps:?}");
        let (many, reserve) = (g.bool(), g.us(0, 40));
        let fresh = match g.below(3) { 0 => Graph::new(), 1 => Graph::default(), _ => Graph::with_capacity(reserve) };
        c.check(fresh.is_empty() && fresh.len() == 0, "new:empty", || h());
        let ok = c.guard("run", || h(), || {
            let mut out = vec![];
            let v = run(&fresh, &inputs, &steps, many);
            out.push(("recorded one vertex per input and more with steps", fresh.len() >= v.len() && !fresh.is_empty()));
            out.push(("values", v.iter().zip(&vals).all(|(a, b)| a.value() == *b as f64)));
            out.push(("graph", v.iter().all(|a| std::ptr::eq(a.graph(), &fresh))));
            let mut idx: Vec<usize> = v.iter().map(|a| a.index()).collect();
            out.push(("indices inside the graph", idx.iter().all(|i| *i < fresh.len())));
            idx.sort(); idx.dedup();
            out.push(("distinct vertices", idx.len() == v.len()));
            // the gradient with respect to every vertex, inputs and intermediates alike
            for a in 0..v.len() {
                let gr = v[a].accumulate();
                let all = gr.wrt(&v);
                out.push(("derivative with respect to every value", (0..v.len()).all(|b| all[b] == d[a][b] as f64)));
                out.push(("slices agree with single variables", gr.wrt(&v[..]) == all && v.iter().enumerate().all(|(b, x)| gr.wrt(x) == all[b])));
                out.push(("arrays agree", gr.wrt([v[a], v[0]]) == gr.wrt(&[v[a], v[0]]) && gr.wrt([v[a], v[0]]) == vec![all[a], all[0]]));
            }
            out
        });
        for (n, x) in ok.unwrap_or_default() { c.check(x, &format!("record:{n}"), || h()); }
        // drawing
        let shown = g.us(0, inputs.len());
        let draw = |gr: &Graph, v: &[Variable]| read(&graphviz(gr, v));
        // the vertices to mark: the first inputs, or any selection in any order
        let mut marked: Vec<usize> = if g.bool() { (0..shown).collect() } else { (0..vals.len()).filter(|_| g.chance(0.4)).collect() };
        if g.bool() { g.shuffle(&mut marked) }
        let got = c.guard("graphviz", || h(), || { let f = Graph::new(); let v = run(&f, &inputs, &steps, many); (draw(&f, &marked.iter().map(|i| v[*i]).collect::<Vec<_>>()), v.iter().map(|x| x.index()).collect::<Vec<_>>(), f.len()) });
        let mut edges = 0;
        if let Some((dr, idx, len)) = got {
            match dr {
                None => c.violate("graphviz:unreadable", || h()),
                Some(dr) => {
                    edges = dr.edges.len();
                    c.check(dr.nodes.iter().map(|n| n.0).collect::<Vec<_>>() == (0..len).collect::<Vec<_>>(), "graphviz:every vertex once", || format!("{} {dr:?}", h()));
                    for (i, val) in &dr.nodes {
                        let want = marked.iter().find(|k| idx[**k] == *i).map(|k| vals[*k] as f64);
                        c.check(*val == want, "graphviz:marked inputs carry their values", || format!("{} node {i}: {val:?} want {want:?}", h()));
                    }
                    c.check(dr.edges.iter().all(|e| e.0 < e.1 && e.1 < len), "graphviz:edges run forward", || format!("{} {dr:?}", h()));
                    for a in 0..idx.len() { for b in 0..a {
                        if idx.len() > 40 && (a + 1 < idx.len() || b % 9 > 0) { continue }
                        let p = paths(&dr, idx[b], idx[a]);
                        c.check(p == d[a][b] as f64, "graphviz:path sums are the derivatives", || format!("{} d{a}/d{b} drawn {p} want {}", h(), d[a][b]));
                    } }
                }
            }
        }
        // clearing and reuse: the graph after clear behaves like a new one
        let (in2, st2) = program(&mut g);
        let (_, d2) = truth(&in2, &st2);
        let r = c.guard("clear", || h(), || {
            let f = Graph::new();
            { let v = run(&f, &inputs, &steps, many); let _ = v[v.len() - 1].accumulate(); }
            let before = f.len();
            f.clear();
            let empty = f.is_empty() && f.len() == 0 && before > 0;
            let v = run(&f, &in2, &st2, many);
            let gr = v[v.len() - 1].accumulate().wrt(&v);
            let again = draw(&f, &v[..in2.len()]);
            let n = Graph::new();
            let w = run(&n, &in2, &st2, many);
            (empty, gr, again == draw(&n, &w[..in2.len()]), f.len() == n.len())
        });
        if let Some((empty, gr, same, len)) = r {
            c.check(empty, "clear:empties", || h());
            c.check(len, "clear:length after reuse", || h());
            c.check(same, "clear:drawing after reuse", || format!("{} then {in2:?} {st2:?}", h()));
            let want: Vec<f64> = d2[d2.len() - 1].iter().map(|x| *x as f64).collect();
            c.check(gr == want, "clear:gradient after reuse", || format!("{} then {in2:?} {st2:?}: {gr:?} want {want:?}", h()));
        }
        // zeroing: the vertices stay, their derivatives vanish, and what is recorded afterwards is whole
        let r = c.guard("zero", || h(), || {
            let f = Graph::new();
            let v = run(&f, &inputs, &steps, many);
            let (before, len) = (draw(&f, &[])?, f.len());
            f.zero();
            let after = draw(&f, &[])?;
            let same = f.len() == len && after.edges.len() == before.edges.len() && after.edges.iter().zip(&before.edges).all(|(a, b)| a.0 == b.0 && a.1 == b.1) && after.edges.iter().all(|e| e.2 == 0.0);
            let l = v[v.len() - 1];
            let gone = l.accumulate().wrt(&v).iter().enumerate().all(|(i, x)| *x == if i + 1 == v.len() { 1.0 } else { 0.0 });
            let z = l * 3.0 + v[0];
            let gr = z.accumulate();
            let fresh = gr.wrt(&l) == if v.len() == 1 { 4.0 } else { 3.0 } && (v.len() == 1 || gr.wrt(&v[0]) == 1.0);
            Some((same, gone, fresh))
        });
        match r {
            Some(Some((a, b, e))) => {
                c.check(a, "zero:keeps the vertices", || h());
                c.check(b, "zero:leaves derivatives", || h());
                c.check(e, "zero:later operations", || h());
            }
            Some(None) => c.violate("zero:unreadable drawing", || h()),
            None => {}
        }
        // copying: equal content, independent afterwards
        let r = c.guard("clone", || h(), || {
            let f = Graph::new();
            let v = run(&f, &inputs, &steps, many);
            let (len, dr) = (f.len(), draw(&f, &v));
            let k = f.clone();
            let same = k.len() == len && draw(&k, &v) == dr;
            let _ = run(&k, &in2, &st2, many);
            let grown = k.len() > len && f.len() == len && draw(&f, &v) == dr;
            k.clear();
            let l = v[v.len() - 1].accumulate().wrt(&v);
            (same, grown, f.len() == len && l == d[d.len() - 1].iter().map(|x| *x as f64).collect::<Vec<_>>())
        });
        if let Some((a, b, e)) = r {
            c.check(a, "clone:same content", || h());
            c.check(b, "clone:independent", || h());
            c.check(e, "clone:original unchanged", || h());
        }
        // joining: the disjoint union of the two recordings
        let r = c.guard("join", || h(), || {
            let (f, k) = (Graph::new(), Graph::new());
            let v = run(&f, &inputs, &steps, many);
            let w = run(&k, &in2, &st2, many);
            let j = f.join(&k);
            let (df, dk, dj) = (draw(&f, &[])?, draw(&k, &[])?, draw(&j, &[])?);
            let n = f.len();
            let mut want = df.edges.clone();
            want.extend(dk.edges.iter().map(|e| (e.0 + n, e.1 + n, e.2)));
            want.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)).then(a.2.total_cmp(&b.2)));
            let left = v[v.len() - 1].accumulate().wrt(&v) == d[d.len() - 1].iter().map(|x| *x as f64).collect::<Vec<_>>() && w[w.len() - 1].accumulate().wrt(&w) == d2[d2.len() - 1].iter().map(|x| *x as f64).collect::<Vec<_>>();
            Some((j.len() == n + k.len(), dj.nodes.len() == j.len(), dj.edges == want, left))
        });
        match r {
            Some(Some((a, b, e, f))) => {
                c.check(a && b, "join:holds both", || format!("{} with {in2:?} {st2:?}", h()));
                c.check(e, "join:edges of both", || format!("{} with {in2:?} {st2:?}", h()));
                c.check(f, "join:operands unchanged", || h());
            }
            Some(None) => c.violate("join:unreadable drawing", || h()),
            None => {}
        }
        if steps.is_empty() { c.trivial("no steps") } else { c.case(&format!("steps {} edges {}", steps.len() / 4, edges / 8), &h()) }
    }
    // variables as numbers
    let special = [0.0, -0.0, 1.0, -1.0, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 1e-310, -1e-310, 5e-324, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.5, 1.5, 2.5, -0.5, -2.5, 1e15 + 0.5];
    for _ in 0..c.n(3000) {
        let mut g = c.fork();
        let n = g.us(1, 12);
        let xs: Vec<f64> = (0..n).map(|_| if g.chance(0.5) { *g.pick(&special) } else { g.range(-3.0, 3.0) }).collect();
        let graph = Graph::new();
        let v = graph.vars(&xs);
        for (a, x) in v.iter().zip(&xs) {
            let h = || format!("{x:e}");
            c.check(a.is_finite() == x.is_finite() && a.is_infinite() == x.is_infinite() && a.is_nan() == x.is_nan() && a.is_normal() == x.is_normal() && a.is_subnormal() == x.is_subnormal(), "class", h);
            c.check(a.is_zero() == (*x == 0.0) && a.is_positive() == x.is_sign_positive() && a.is_negative() == x.is_sign_negative(), "sign", h);
            c.check(a.signum().to_bits() == x.signum().to_bits() || x.is_nan(), "signum", h);
            let mut r = *a;
            r.round();
            c.check((r.value() == x.round() || x.is_nan()) && a.value().to_bits() == x.to_bits(), "round", h);
            c.check(format!("{a}") == format!("{x:?}"), "display", h);
            for y in &special { c.check((*a == *y) == (*x == *y), "equals number", || format!("{x:e} {y:e}")); }
        }
        for i in 0..n { for j in 0..n {
            let (x, y) = (xs[i], xs[j]);
            let h = || format!("{x:e} against {y:e} (same vertex: {})", i == j);
            c.check((v[i] == v[j]) == (i == j && x == y), "equality is of the vertex", h);
            if !x.is_nan() && !y.is_nan() {
                let want = x.partial_cmp(&y).unwrap();
                c.check(v[i].cmp(&v[j]) == want && v[i].partial_cmp(&v[j]) == Some(want), "order", h);
                c.check((v[i] < v[j]) == (x < y) && (v[i] >= v[j]) == (x >= y), "order operators", h);
            }
        } }
        let twin = Graph::new();
        let t = twin.vars(&xs);
        c.check(v.iter().zip(&t).all(|(a, b)| a != b), "equality is of the graph", || format!("{xs:?}"));
        let clean: Vec<Variable> = v.iter().copied().filter(|a| !a.value().is_nan()).collect();
        let mut s = clean.clone();
        s.sort();
        let mut want: Vec<f64> = clean.iter().map(|a| a.value()).collect();
        want.sort_by(|a, b| a.partial_cmp(b).unwrap());
        c.check(s.iter().map(|a| a.value()).eq(want.iter().copied()), "sorting", || format!("{xs:?}"));
        if n > 1 { c.case("numbers", &format!("{xs:?}")) } else { c.trivial("single number") }
    }
    c.finish()
}
