//! C35: the Python front end, driven from an embedded interpreter by src/c35.py, which holds the model.
#![allow(non_snake_case)]
use pyo3::types::{PyCFunction, PyDict};
use rqmon::*;
use std::cell::RefCell;
use std::ffi::CString;

// The sources of the extension module itself, compiled into the checker.
include!("/repo/bindings/rust/lib.rs");

thread_local! { static CTX: RefCell<Option<(Ctx, Rng)>> = const { RefCell::new(None) }; }
fn with<T>(f: impl FnOnce(&mut (Ctx, Rng)) -> T) -> T { CTX.with(|c| f(c.borrow_mut().as_mut().unwrap())) }

macro_rules! markets { ($n:expr; $($m:ident)*) => { match $n { $(stringify!($m) => ::RustQuant::time::Market::$m,)* o => panic!("market {o}") } } }
fn market(n: &str) -> ::RustQuant::time::Market {
    markets!(n; None Weekends Argentina Australia Austria Botswana Brazil Canada Chile China CzechRepublic Denmark Finland
        France Germany HongKong Hungary Iceland India Indonesia Israel Italy Mexico Netherlands NewZealand Singapore
        UnitedKingdom UnitedStates Switzerland)
}

const CONVS: &[(&str, ::RustQuant::time::DayCountConvention)] = {
    use ::RustQuant::time::DayCountConvention as D;
    &[
        ("One_One", D::One_One), ("Actual_360", D::Actual_360), ("Actual_364", D::Actual_364), ("Actual_366", D::Actual_366),
        ("Actual_365_25", D::Actual_365_25), ("Actual_365_Actual", D::Actual_365_Actual), ("Actual_365_Fixed", D::Actual_365_Fixed),
        ("Actual_365_Leap", D::Actual_365_Leap), ("Actual_Actual_AFB", D::Actual_Actual_AFB), ("Actual_Actual_ISDA", D::Actual_Actual_ISDA),
        ("No_Leap_360", D::No_Leap_360), ("No_Leap_365", D::No_Leap_365), ("Thirty_360_ISDA", D::Thirty_360_ISDA),
        ("Thirty_E_360", D::Thirty_E_360), ("Thirty_E_360_ISDA", D::Thirty_E_360_ISDA), ("Thirty_E_365", D::Thirty_E_365),
        ("Thirty_E_Plus_360", D::Thirty_E_Plus_360), ("Thirty_U_360", D::Thirty_U_360),
    ]
};

fn drive(py: Python<'_>, n: u64) -> PyResult<()> {
    let g = PyDict::new(py);
    macro_rules! give { ($name:literal, $args:ty, |$a:pat_param| $body:expr) => {
        g.set_item($name, PyCFunction::new_closure(py, None, None, |args: &Bound<'_, pyo3::types::PyTuple>, _: Option<&Bound<'_, PyDict>>| { let $a = args.extract::<$args>()?; PyResult::Ok($body) })?)?;
    } }
    give!("rnd", (i64, i64), |(a, b)| with(|c| c.1.i(a, b)));
    give!("unit", Vec<i64>, |_| with(|c| c.1.f()));
    give!("case", (String, String), |(k, s)| with(|c| c.0.case(&k, &s)));
    give!("bad", (String, String), |(k, s)| with(|c| c.0.violate(&k, || s)));
    give!("count", (String,), |(k,)| with(|c| c.0.count(&k, 1)));
    give!("holiday", (String, i32, u32, u32), |(m, y, mo, d)| ::RustQuant::time::Calendar::new(market(&m)).is_holiday(civil::ymd(y, mo, d)));
    give!("factor", (String, i32, u32, u32, i32, u32, u32), |(k, a, b, c, d, e, f)| CONVS.iter().find(|x| x.0 == k).unwrap().1.day_count_factor(civil::ymd(a, b, c), civil::ymd(d, e, f)));
    g.set_item("CONVS", CONVS.iter().map(|x| x.0).collect::<Vec<_>>())?;
    give!("schedule", (::RustQuant::time::Schedule,), |(s,)| (s.dates, s.day_count_factors, format!("{:?}", s.day_counting_convention), format!("{:?}", s.date_rolling_convention), ::RustQuant::time::today()));
    g.set_item("N", n)?;
    py.run(&CString::new(include_str!("../c35.py")).unwrap(), Some(&g), None)?;
    g.get_item("run")?.unwrap().call0().map(|_| ())
}

fn main() {
    pyo3::append_to_inittab!(RustQuant);
    let mut c = Ctx::new("C35", "random histories of Python calls on Curve (constructors, reads, inserting reads, writes, shifts, refused and re-entrant calls) and on Calendar of every Market (holidays added, days, rolling, counts, day count factors), followed by a model written in Python on datetime; several Python threads writing one curve. Non-trivial: a distinct query answered after a history.");
    c.assume("underlying holiday rules and day count formulas are decided by C03 and C05; here the same Rust calls are the reference for them");
    let n = c.n(2400);
    let r = c.fork();
    CTX.with(|x| *x.borrow_mut() = Some((c, r)));
    let e = Python::attach(|py| drive(py, n).map_err(|e| format!("{e} {}", e.traceback(py).and_then(|t| t.format().ok()).unwrap_or_default())));
    let (mut c, _) = CTX.with(|x| x.borrow_mut().take()).unwrap();
    if let Err(e) = e { c.violate("a call of the histories raised an exception", || e); }
    c.finish()
}
