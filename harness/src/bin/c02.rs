//! C02: reverse-mode tape against an independent forward-mode dual interpreter.
use rqmon::*;
use RustQuant_autodiff::overload::{Log, Max, Min, Powf, Powi};
use RustQuant_autodiff::*;

const UN: &[&str] = &[
    "neg", "abs", "acos", "acosh", "asin", "asinh", "atan", "atanh", "cbrt", "cos", "cosh", "exp", "exp2", "exp_m1", "ln", "ln_1p",
    "log10", "log2", "recip", "sin", "sinh", "sqrt", "tan", "tanh", "erf", "erfc",
];
const BIN: &[&str] = &["add", "sub", "mul", "div", "powf", "powi", "log", "min", "max"];

/// value, derivative by closed form; None outside the (open) domain of differentiability.
fn un(op: &str, x: f64) -> Option<(f64, f64)> {
    let fin = |v: f64, d: f64| if v.is_finite() && d.is_finite() { Some((v, d)) } else { None };
    match op {
        "neg" => fin(-x, -1.0),
        "abs" if x != 0.0 => fin(x.abs(), x.signum()),
        "acos" if x.abs() < 0.999 => fin(x.acos(), -1.0 / (1.0 - x * x).sqrt()),
        "acosh" if x > 1.001 => fin(x.acosh(), 1.0 / (x * x - 1.0).sqrt()),
        "asin" if x.abs() < 0.999 => fin(x.asin(), 1.0 / (1.0 - x * x).sqrt()),
        "asinh" => fin(x.asinh(), 1.0 / (x * x + 1.0).sqrt()),
        "atan" => fin(x.atan(), 1.0 / (x * x + 1.0)),
        "atanh" if x.abs() < 0.999 => fin(x.atanh(), 1.0 / (1.0 - x * x)),
        "cbrt" if x != 0.0 => { let c = x.cbrt(); fin(c, 1.0 / (3.0 * c * c)) }
        "cos" => fin(x.cos(), -x.sin()),
        "cosh" => fin(x.cosh(), x.sinh()),
        "exp" => fin(x.exp(), x.exp()),
        "exp2" => fin(x.exp2(), x.exp2() * std::f64::consts::LN_2),
        "exp_m1" => fin(x.exp_m1(), x.exp()),
        "ln" if x > 0.0 => fin(x.ln(), 1.0 / x),
        "ln_1p" if x > -0.999 => fin(x.ln_1p(), 1.0 / (1.0 + x)),
        "log10" if x > 0.0 => fin(x.log10(), 1.0 / (x * std::f64::consts::LN_10)),
        "log2" if x > 0.0 => fin(x.log2(), 1.0 / (x * std::f64::consts::LN_2)),
        "recip" if x != 0.0 => fin(1.0 / x, -1.0 / (x * x)),
        "sin" => fin(x.sin(), x.cos()),
        "sinh" => fin(x.sinh(), x.cosh()),
        "sqrt" if x > 0.0 => fin(x.sqrt(), 0.5 / x.sqrt()),
        "tan" if x.cos().abs() > 1e-3 => fin(x.tan(), 1.0 / (x.cos() * x.cos())),
        "tanh" => { let t = x.cosh(); if t.is_finite() { fin(x.tanh(), 1.0 / (t * t)) } else { fin(x.tanh(), 0.0) } }
        "erf" => fin(1.0 - num::erfc(x), 2.0 / std::f64::consts::PI.sqrt() * (-x * x).exp()),
        "erfc" => fin(num::erfc(x), -2.0 / std::f64::consts::PI.sqrt() * (-x * x).exp()),
        _ => None,
    }
}
fn apply_un<'v>(op: &str, x: Variable<'v>) -> Variable<'v> {
    match op {
        "neg" => -x, "abs" => x.abs(), "acos" => x.acos(), "acosh" => x.acosh(), "asin" => x.asin(), "asinh" => x.asinh(),
        "atan" => x.atan(), "atanh" => x.atanh(), "cbrt" => x.cbrt(), "cos" => x.cos(), "cosh" => x.cosh(), "exp" => x.exp(),
        "exp2" => x.exp2(), "exp_m1" => x.exp_m1(), "ln" => x.ln(), "ln_1p" => x.ln_1p(), "log10" => x.log10(), "log2" => x.log2(),
        "recip" => x.recip(), "sin" => x.sin(), "sinh" => x.sinh(), "sqrt" => x.sqrt(), "tan" => x.tan(), "tanh" => x.tanh(),
        "erf" => x.erf(), "erfc" => x.erfc(), _ => unreachable!(),
    }
}
/// value, d/dx, d/dy
fn bin(op: &str, x: f64, y: f64) -> Option<(f64, f64, f64)> {
    let fin = |v: f64, a: f64, b: f64| if v.is_finite() && a.is_finite() && b.is_finite() { Some((v, a, b)) } else { None };
    match op {
        "add" => fin(x + y, 1.0, 1.0),
        "sub" => fin(x - y, 1.0, -1.0),
        "mul" => fin(x * y, y, x),
        "div" if y != 0.0 => fin(x / y, 1.0 / y, -x / (y * y)),
        "powf" | "powi" if x > 1e-3 => { let p = x.powf(y); fin(p, y * x.powf(y - 1.0), p * x.ln()) }
        // log of x in base y
        "log" if x > 1e-3 && y > 1e-3 && (y - 1.0).abs() > 1e-3 => fin(x.ln() / y.ln(), 1.0 / (x * y.ln()), -x.ln() / (y * y.ln() * y.ln())),
        "min" if x != y => fin(x.min(y), (x < y) as u8 as f64, (y < x) as u8 as f64),
        "max" if x != y => fin(x.max(y), (x > y) as u8 as f64, (y > x) as u8 as f64),
        _ => None,
    }
}
fn apply_vv<'v>(op: &str, x: Variable<'v>, y: Variable<'v>, assign: bool) -> Variable<'v> {
    let mut z = x;
    match (op, assign) {
        ("add", true) => { z += y; z }
        ("sub", true) => { z -= y; z }
        ("mul", true) => { z *= y; z }
        ("div", true) => { z /= y; z }
        ("add", _) => x + y,
        ("sub", _) => x - y,
        ("mul", _) => x * y,
        ("div", _) => x / y,
        ("powf", _) => Powf::powf(&x, y),
        ("powi", _) => Powi::powi(&x, y),
        ("log", _) => Log::log(&x, y),
        ("min", _) => Min::min(&x, y),
        ("max", _) => Max::max(&x, y),
        _ => unreachable!(),
    }
}
fn apply_vc<'v>(op: &str, x: Variable<'v>, y: f64, assign: bool) -> Variable<'v> {
    let mut z = x;
    match (op, assign) {
        ("add", true) => { z += y; z }
        ("sub", true) => { z -= y; z }
        ("mul", true) => { z *= y; z }
        ("div", true) => { z /= y; z }
        ("add", _) => x + y,
        ("sub", _) => x - y,
        ("mul", _) => x * y,
        ("div", _) => x / y,
        ("powf", _) => Powf::powf(&x, y),
        ("powi", _) => Powi::powi(&x, y as i32),
        ("log", _) => Log::log(&x, y),
        ("min", _) => Min::min(&x, y),
        ("max", _) => Max::max(&x, y),
        _ => unreachable!(),
    }
}
fn apply_cv<'v>(op: &str, x: f64, y: Variable<'v>) -> Variable<'v> {
    match op {
        "add" => x + y,
        "sub" => x - y,
        "mul" => x * y,
        "div" => x / y,
        "powf" => Powf::powf(&x, y),
        "powi" => Powi::powi(&x, y),
        "log" => Log::log(&x, y),
        "min" => Min::min(&x, y),
        "max" => Max::max(&x, y),
        _ => unreachable!(),
    }
}
fn arg(r: &mut Rng) -> f64 {
    match r.us(0, 9) {
        0 => r.range(-0.99, 0.99),
        1 => r.logr(1e-3, 1e3),
        2 => -r.logr(1e-3, 1e3),
        3 => r.i(-5, 5) as f64,
        4 => r.range(0.0, 1.0),
        5 => 1.0 + r.logr(1e-2, 10.0),
        _ => r.range(-4.0, 4.0),
    }
}

fn main() {
    let mut c = Ctx::new("C02", "(a) every operator and function, with variables and constants on each side, at random points of its domain of differentiability; (b) random expression programs of up to 3000 nodes over up to 6 inputs with shared subexpressions, iterator sums/products, compound assignment, accumulated several times from several outputs. Oracle: forward-mode dual numbers. Non-trivial: the output depends on an input.");
    c.assume("programs keep a margin from the edge of each function's domain of differentiability, and use positive bases for powers with a non-integer or variable exponent");
    // (a) single operators
    for i in 0..c.n(15000) {
        let mut r = c.fork();
        for op in UN {
            let x = arg(&mut r);
            let Some((v, d)) = un(op, x) else { continue };
            let got = c.guard(&format!("un:{op}"), || format!("x={x}"), || {
                let g = Graph::new();
                let a = g.var(x);
                let z = apply_un(op, a);
                (z.value(), z.accumulate().wrt(&a))
            });
            if let Some((gv, gd)) = got {
                c.close(gv, v, 1e-13, 1e-11, &format!("value:{op}"), || format!("x={x:e}"));
                if !num::close(gd, d, 1e-300, 1e-10) {
                    // exact signature of what is listed as a known finding
                    let sig = if num::close(gd, 1.0 / x, 0.0, 1e-12) { format!("grad:{op}:reports 1/x") } else { format!("grad:{op}") };
                    c.violate(&sig, || format!("d {op}({x:e}) got {gd:e} want {d:e}"));
                }
            }
            c.case(&format!("unary:{op}"), &format!("{x:e}"));
        }
        for op in BIN {
            let (mut x, mut y) = (arg(&mut r), arg(&mut r));
            let side = i % 4; // 0 var,var  1 var,const  2 const,var  3 same variable twice
            if side == 1 && *op == "powi" { y = r.i(-6, 6) as f64; }
            if side == 3 { y = x; }
            if *op == "powf" || *op == "log" { if r.bool() { x = x.abs(); y = y.abs(); } }
            let e = if side == 1 && (*op == "powi" || (*op == "powf" && y == y.round())) && x != 0.0 {
                Some((x.powf(y), y * x.powf(y - 1.0), 0.0)).filter(|t| t.0.is_finite() && t.1.is_finite())
            } else { bin(op, x, y) };
            let Some((v, dx, dy)) = e else { continue };
            if v.abs() > 1e200 || dx.abs() > 1e200 || dy.abs() > 1e200 { continue }
            let assign = r.bool();
            let sig = format!("{op}:{}", ["var,var", "var,const", "const,var", "same"][side as usize]);
            let got = c.guard(&sig, || format!("x={x} y={y}"), || {
                let g = Graph::new();
                let u = g.var(1.5); // bystander
                let a = g.var(x);
                let b = g.var(y);
                let z = match side {
                    0 => apply_vv(op, a, b, assign),
                    1 => apply_vc(op, a, y, assign),
                    2 => apply_cv(op, x, b),
                    _ => apply_vv(op, a, a, assign),
                };
                let gr = z.accumulate();
                (z.value(), gr.wrt(&a), gr.wrt(&b), gr.wrt(&u))
            });
            if let Some((gv, ga, gb, gu)) = got {
                let (wa, wb) = match side { 0 => (dx, dy), 1 => (dx, 0.0), 2 => (0.0, dy), _ => (dx + dy, 0.0) };
                c.close(gv, v, 1e-13, 1e-11, &format!("value:{sig}"), || format!("x={x:e} y={y:e}"));
                let s = 1e-12 * (dx.abs() + dy.abs());
                c.close(ga, wa, s, 1e-10, &format!("grad_lhs:{sig}"), || format!("x={x:e} y={y:e}"));
                // exact signature of what is listed as a known finding
                let swapped = side == 2 && (*op == "min" || *op == "max") && gb == 1.0 - wb;
                let rhs = if swapped { format!("grad_rhs:{sig}:reports the other selector") } else { format!("grad_rhs:{sig}") };
                c.close(gb, wb, s, 1e-10, &rhs, || format!("x={x:e} y={y:e}"));
                c.check(gu == 0.0, &format!("grad_bystander:{sig}"), || format!("x={x:e} y={y:e} got {gu}"));
            }
            c.case(&format!("binary:{sig}"), &format!("{x:e},{y:e}"));
            // compound assignment of a variable into a plain number
            if side == 2 {
                let got = c.guard(&format!("assign_const:{op}"), || format!("x={x} y={y}"), || {
                    let g = Graph::new();
                    let b = g.var(y);
                    let mut p = x;
                    match *op { "add" => p += b, "sub" => p -= b, "mul" => p *= b, "div" => p /= b, _ => p = v }
                    p
                });
                if let Some(p) = got { c.close(p, v, 1e-13, 1e-12, &format!("assign_const:{op}"), || format!("{x} {y}")); }
            }
        }
    }
    // (b) programs; functions with a known wrong derivative of their own are decided in (a)
    let un_p: Vec<&str> = UN.iter().copied().filter(|o| *o != "log10" && *o != "log2").collect();
    for _ in 0..c.n(60000) {
        let mut r = c.fork();
        let nin = r.size(1, 6, 300);
        let xs: Vec<f64> = (0..nin).map(|_| r.range(-2.5, 2.5)).collect();
        let len = r.size(1, 60, 3000);
        let g: &'static Graph = Box::leak(Box::new(Graph::new()));
        let ins: Vec<Variable> = if r.bool() { g.vars(&xs) } else { xs.iter().map(|x| g.var(*x)).collect() };
        struct N { v: Variable<'static>, d: Vec<f64>, m: Vec<f64> }
        let mut ns: Vec<N> = vec![];
        for (i, v) in ins.iter().enumerate() {
            let mut d = vec![0.0; nin];
            d[i] = 1.0;
            ns.push(N { v: *v, d: d.clone(), m: d });
        }
        let mut text = format!("in={xs:?}");
        let mut broken = false;
        let mut tries = 0;
        while ns.len() < nin + len && tries < 400 && !broken {
            tries += 1;
            let pick = |r: &mut Rng| if r.bool() { ns.len() - 1 - r.us(0, (ns.len() - 1).min(3)) } else { r.us(0, ns.len() - 1) };
            let kind = r.us(0, 9);
            let comb = |parts: &[(usize, f64)]| -> Option<(Vec<f64>, Vec<f64>)> {
                let mut d = vec![0.0; nin];
                let mut m = vec![0.0; nin];
                for (i, p) in parts {
                    for k in 0..nin {
                        d[k] += p * ns[*i].d[k];
                        m[k] += p.abs() * ns[*i].m[k];
                    }
                }
                if m.iter().all(|t| *t < 1e8) { Some((d, m)) } else { None }
            };
            let (label, want, parts, f): (String, f64, Vec<(usize, f64)>, Box<dyn FnOnce() -> Variable<'static>>) = if kind < 4 {
                let op = *r.pick(&un_p);
                let i = pick(&mut r);
                let a = ns[i].v;
                let Some((v, d)) = un(op, a.value()) else { continue };
                (format!("{op}({i})"), v, vec![(i, d)], Box::new(move || apply_un(op, a)))
            } else if kind < 8 {
                let op = *r.pick(BIN);
                let (i, j) = (pick(&mut r), pick(&mut r));
                let (a, b) = (ns[i].v, ns[j].v);
                let k = r.range(-3.0, 3.0);
                let asg = r.bool();
                match r.us(0, 2) {
                    0 => {
                        let Some((v, dx, dy)) = bin(op, a.value(), b.value()) else { continue };
                        (format!("{op}({i},{j})"), v, vec![(i, dx), (j, dy)], Box::new(move || apply_vv(op, a, b, asg)))
                    }
                    1 => {
                        let k = if op == "powi" { k.round() } else { k };
                        let Some((v, dx, _)) = bin(op, a.value(), k) else { continue };
                        (format!("{op}({i},#{k})"), v, vec![(i, dx)], Box::new(move || apply_vc(op, a, k, asg)))
                    }
                    _ if op == "min" || op == "max" => continue, // known wrong, decided in (a)
                    _ => {
                        let Some((v, _, dy)) = bin(op, k, b.value()) else { continue };
                        (format!("{op}(#{k},{j})"), v, vec![(j, dy)], Box::new(move || apply_cv(op, k, b)))
                    }
                }
            } else {
                let cnt = r.us(1, 5);
                let ids: Vec<usize> = (0..cnt).map(|_| pick(&mut r)).collect();
                let vs: Vec<Variable> = ids.iter().map(|i| ns[*i].v).collect();
                if kind == 8 {
                    let v: f64 = vs.iter().map(|x| x.value()).sum();
                    (format!("sum({ids:?})"), v, ids.iter().map(|i| (*i, 1.0)).collect(), Box::new(move || vs.into_iter().sum()))
                } else {
                    let v: f64 = vs.iter().map(|x| x.value()).product();
                    let parts = ids.iter().enumerate().map(|(p, i)| (*i, ids.iter().enumerate().filter(|(q, _)| *q != p).map(|(_, k)| ns[*k].v.value()).product())).collect();
                    (format!("prod({ids:?})"), v, parts, Box::new(move || vs.into_iter().product()))
                }
            };
            // away from overflow and underflow of the chain
            if want.abs() > 1e6 || (want != 0.0 && want.abs() < 1e-20) || parts.iter().any(|(_, p)| p.abs() > 1e12) { continue }
            // vertices that nothing depends on, at points where they have no derivative
            if r.chance(0.03) {
                let a = ns[pick(&mut r)].v;
                let p = match r.below(5) { 0 => (a - a).sqrt(), 1 => (a - a).ln(), 2 => a / (a * 0.0), 3 => (a - a).cbrt(), _ => (a - a).powf(-0.5) };
                text.push_str(&format!(" unused={}", p.value()));
                c.count("vertices without a derivative", 1);
            }
            let Some((d, m)) = comb(&parts) else { continue };
            text.push_str(&format!(" {}={label}", ns.len()));
            match c.call("program", f) {
                Err(e) => { c.violate("panic:program", || format!("{text}: {e}")); broken = true; }
                Ok(v) => {
                    if !c.close(v.value(), want, 1e-12, 1e-11, &format!("program_value:{}", label.split('(').next().unwrap()), || text.clone()) { broken = true; }
                    ns.push(N { v, d, m });
                }
            }
        }
        if broken { continue }
        // several outputs, accumulated in any order, repeatedly
        let outs: Vec<usize> = (0..3).map(|k| if k == 0 { ns.len() - 1 } else { r.us(0, ns.len() - 1) }).collect();
        for &o in outs.iter().chain(outs.iter()) {
            let Some(gr) = c.guard("accumulate", || text.clone(), || ns[o].v.accumulate()) else { break };
            let forms = [gr.wrt(&ins), gr.wrt(ins.as_slice()), ins.iter().map(|v| gr.wrt(v)).collect()];
            for (k, got) in forms.iter().enumerate() {
                c.check(got.len() == nin, "wrt_shape", || format!("form {k}"));
                for i in 0..nin.min(got.len()) {
                    c.close(got[i], ns[o].d[i], 1e-9 * ns[o].m[i] + 1e-200, 1e-11, "program_gradient", || format!("d out{o} / d in{i}: {text}"));
                    if ns[o].m[i] == 0.0 { c.check(got[i] == 0.0, "independent_gradient_nonzero", || text.clone()); }
                }
            }
            if nin >= 2 {
                let arr = [ins[1], ins[0]];
                let a = gr.wrt(arr);
                let b = gr.wrt(&arr);
                c.check(a == b && a.len() == 2 && a[0] == forms[0][1] && a[1] == forms[0][0], "wrt_array", || text.clone());
            }
            if ns[o].m.iter().any(|t| *t > 0.0) { c.case("program", &text) } else { c.trivial("program_trivial") }
        }
        // values read back from the nodes did not move, and comparisons follow values
        let (i, j) = (r.us(0, ns.len() - 1), r.us(0, ns.len() - 1));
        let (a, b) = (ns[i].v, ns[j].v);
        c.check((a < b) == (a.value() < b.value()) && (a == a.value()), "variable_compare", || text.clone());
    }
    c.finish()
}
