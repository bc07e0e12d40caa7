# Driver and model of C35: runs inside the checker's interpreter. Given by the checker:
#   rnd(a, b) -> int in [a, b]; unit() -> float in [0, 1); case(cls, key); bad(sig, detail); count(name)
#   holiday(market, y, m, d), factor(convention, y, m, d, y, m, d): the Rust API's answers
#   schedule(x) -> the fields of a Schedule and the day; N: number of histories
import sys, math, threading
from datetime import date, timedelta
from bisect import bisect_left
import RustQuant
from RustQuant.data import Curve, CurveType, InterpolationMethod
from RustQuant.time import Calendar, Market, Schedule, DateRollingConvention as ROLL, DayCountConvention as DAYS
import RustQuant.instruments

MARKETS = """None Weekends Argentina Australia Austria Botswana Brazil Canada Chile China CzechRepublic Denmark Finland
France Germany HongKong Hungary Iceland India Indonesia Israel Italy Mexico Netherlands NewZealand Singapore
UnitedKingdom UnitedStates Switzerland""".split()
TYPES = ["Flat", "Spot", "Forward", "Discount"]
METHODS = ["Linear", "Exponential", "CubicSpline", "Lagrange"]
ROLLS = ["Actual", "Following", "ModifiedFollowing", "Preceding", "ModifiedPreceding", "ModifiedRolling"]
STATIC = {k: "roll_date_" + "".join("_" + x.lower() if x.isupper() and i else x.lower() for i, x in enumerate(k)) for k in ROLLS}
LO, HI = date(1901, 1, 1).toordinal(), date(2199, 12, 28).toordinal()


def pick(xs):
    return xs[rnd(0, len(xs) - 1)]


def day(o):
    return date.fromordinal(o)


def close(a, b):
    if a is None or b is None:
        return a is None and b is None
    return type(a) is float and (a == b or abs(a - b) <= 1e-11 * max(1.0, abs(b)) or (a != a and b != b))


def need(ok, sig, *detail):
    if not ok:
        bad(sig, " ".join(repr(d) if not isinstance(d, str) else d for d in detail)[:600])
    return ok


def named(x, cls, name):
    return type(x) is cls and repr(x) == cls.__name__ + "." + name


def refused(f, kinds, sig, *detail):
    try:
        got = f()
    except BaseException as e:
        need(type(e).__name__ in kinds, sig + ":exception", type(e).__name__, str(e), *detail)
        count("refused " + type(e).__name__)
        return True
    bad(sig + ":accepted", repr(got)[:200] + " " + " ".join(map(repr, detail))[:300])
    return False


class Model:
    """An ordered map of dates to rates, interpolated between its neighbours."""

    def __init__(self, nodes, method):
        self.n, self.exp = dict(nodes), method == "Exponential"

    def rate(self, q):
        if q in self.n:
            return self.n[q]
        k = sorted(self.n)
        i = bisect_left(k, q)
        if i == 0 or i == len(k):
            return None
        a, b = k[i - 1], k[i]
        w = (q - a) / (b - a)
        ya, yb = self.n[a], self.n[b]
        return math.exp(math.log(ya) * (1 - w) + math.log(yb) * w) if self.exp else ya + (yb - ya) * w

    def brackets(self, q):
        k = sorted(self.n)
        if q <= k[0]:
            return k[0], k[0]
        if q >= k[-1]:
            return k[-1], k[-1]
        i = bisect_left(k, q)
        return k[i - 1], k[i]


def observe(c, m, method, hist, qs):
    k = sorted(m.n)
    d, r = c.dates(), c.rates()
    need(type(d) is list and all(type(x) is date for x in d) and d == [day(x) for x in k], "curve:dates", d, k, hist)
    need(type(r) is list and len(r) == len(k) and all(close(a, m.n[b]) for a, b in zip(r, k)), "curve:rates", r, m.n, hist)
    need(c.len() == len(k) and c.is_empty() is (not k), "curve:len", c.len(), c.is_empty(), hist)
    need(c.first_date() == (day(k[0]) if k else None) and c.last_date() == (day(k[-1]) if k else None), "curve:ends", hist)
    need(close(c.first_rate(), m.n[k[0]] if k else None) and close(c.last_rate(), m.n[k[-1]] if k else None), "curve:end rates", hist)
    need(named(c.interpolation_method(), InterpolationMethod, method), "curve:method", c.interpolation_method(), method)
    if not k:
        return
    many = c.get_rates([day(q) for q in qs])
    need(type(many) is list and len(many) == len(qs), "curve:get_rates length", many, qs)
    for q, g in zip(qs, many):
        w = m.rate(q)
        one = c.get_rate(day(q))
        need(close(one, w) and close(g, w), "curve:get_rate", day(q), one, g, w, hist, m.n)
        a, b = m.brackets(q)
        need(c.get_brackets(day(q)) == (day(a), day(b)), "curve:get_brackets", day(q), c.get_brackets(day(q)), hist)
        case("curve query " + ("missing" if w is None else "node" if q in m.n else "between"), "%s %d %r" % (method, q, m.n))


def history(i):
    method = pick(METHODS[:2])
    tname = pick(TYPES)
    base, span = rnd(LO + 4000, HI - 4000), pick([12, 90, 1500, 3900])
    rate = (lambda: 10 ** (-4 + 4 * unit())) if method == "Exponential" else (lambda: -0.1 + 0.3 * unit())
    at = lambda: base + rnd(-2, span + 2)
    nodes = {at(): rate() for _ in range(0 if i % 13 == 12 else rnd(1, 9))}
    m = Model(nodes, method)
    t, im = getattr(CurveType, tname), getattr(InterpolationMethod, method)
    items = list(nodes.items())
    for j in range(len(items) - 1, 0, -1):
        k = rnd(0, j)
        items[j], items[k] = items[k], items[j]
    how = rnd(0, 2)
    ds, rs = [day(a) for a, _ in items], [b for _, b in items]
    if how == 0:
        c = Curve(ds, rs, t, im)
    elif how == 1:
        c = Curve.from_nodes(dict(zip(ds, rs)), t, im)
    else:
        c = Curve(dates=tuple(ds), rates=tuple(rs), curve_type=t, interpolation_method=im)
    hist = "%s %s %d" % (method, tname, how)
    need(type(c) is Curve, "curve:constructor", type(c))
    for _ in range(rnd(2, 10)):
        q = pick(sorted(m.n)) if m.n and rnd(0, 2) == 0 else at()
        op = rnd(0, 7)
        if op == 0:
            v = rate()
            need(c.set_rate(day(q), v) is None, "curve:set_rate result")
            m.n[q] = v
        elif op == 1:
            l = [(at(), rate()) for _ in range(rnd(0, 4))]
            c.set_rates([(day(a), b) for a, b in l])
            m.n.update(l)
        elif op == 2:
            s = 0.05 * unit() * (1 if method == "Exponential" else 2) - (0 if method == "Exponential" else 0.05)
            c.shift(s)
            m.n = {a: b + s for a, b in m.n.items()}
        elif op == 3 and m.n:
            g, w = c.get_rate_and_insert(day(q)), m.rate(q)
            need(close(g, w), "curve:get_rate_and_insert", day(q), g, w, hist)
            if w is not None:
                m.n[q] = w
        elif op == 4 and m.n:
            l = [at() for _ in range(rnd(0, 4))]
            g = c.get_rates_and_insert([day(x) for x in l])
            need(len(g) == len(l), "curve:get_rates_and_insert length")
            for x, y in zip(l, g):
                w = m.rate(x)
                need(close(y, w), "curve:get_rates_and_insert", day(x), y, w, hist)
                if w is not None:
                    m.n[x] = w
        elif op == 5:
            bad_calls = [
                (lambda: c.set_rate("2024-01-01", 0.1), ["TypeError"]), (lambda: c.set_rate(day(q), "x"), ["TypeError"]),
                (lambda: c.set_rate(day(q)), ["TypeError"]), (lambda: c.set_rates([(day(q), 0.9), (day(q), None)]), ["TypeError"]),
                (lambda: c.set_rates([(day(q), 0.9, 1.0)]), ["TypeError", "ValueError"]), (lambda: c.shift(None), ["TypeError"]),
                (lambda: c.get_rate(q), ["TypeError"]), (lambda: c.get_rate_and_insert(None), ["TypeError"]),
                (lambda: c.get_rates_and_insert([day(base + 1), 7]), ["TypeError"]), (lambda: c.get_rates(day(q)), ["TypeError"]),
                (lambda: Curve(ds + [day(HI)], rs, t, im), ["ValueError"]), (lambda: Curve(ds, rs + [0.1], t, im), ["ValueError"]),
                (lambda: Curve(ds, rs, im, t), ["TypeError"]), (lambda: Curve(ds, rs, t), ["TypeError"]),
                (lambda: Curve.from_nodes({1: 0.1}, t, im), ["TypeError"]), (lambda: Curve.from_nodes({day(q): "x"}, t, im), ["TypeError"]),
                (lambda: Curve(ds, rs, t, InterpolationMethod.CubicSpline), ["PanicException", "ValueError", "NotImplementedError"]),
                (lambda: Curve.from_nodes({}, t, InterpolationMethod.Lagrange), ["PanicException", "ValueError", "NotImplementedError"]),
            ]
            f, kinds = pick(bad_calls)
            refused(f, kinds, "curve:refusal", hist)
        elif op == 6:
            # an argument whose conversion calls back into the curve: either refused or applied, never half of it
            class Evil(float):
                pass

            class Index:
                def __init__(s): s.inner = None
                def __float__(s):
                    try:
                        c.set_rate(day(q), 0.125)
                        s.inner = "applied"
                    except RuntimeError:
                        s.inner = "refused"
                    return 0.0625
            e = Index()
            try:
                c.set_rate(day(q), e)
                if e.inner is None and c.get_rate(day(q)) == 0.0625: pass
                m.n[q] = 0.0625
                count("reentrant " + str(e.inner))
            except (TypeError, RuntimeError):
                if e.inner == "applied":
                    m.n[q] = 0.125
                count("reentrant refused")
        hist += " %d(%s)" % (op, day(q))
        f, l = (min(m.n), max(m.n)) if m.n else (base, base)
        observe(c, m, method, hist, [f, l, f - 1, l + 1] + [rnd(f - 2, l + 2) for _ in range(4)])


def calendars(i):
    name = MARKETS[i % len(MARKETS)]
    mk = getattr(Market, "None" if name == "None" else name)
    c = Calendar(mk)
    need(named(c.market(), Market, name), "calendar:market", c.market(), name)
    extra = set()
    off = (4, 5) if name == "Israel" else (5, 6)
    base = {}

    def hol(d):
        if d not in base:
            base[d] = holiday(name, d.year, d.month, d.day)
        return base[d] or d in extra

    wk = lambda d: d.weekday() in off
    busy = lambda d: not wk(d) and not hol(d)

    def nxt(d, s):
        while not busy(d):
            d += timedelta(s)
        return d

    def roll(d, how):
        if how == "Actual":
            return d
        if how in ("Following", "ModifiedRolling"):
            return nxt(d, 1)
        if how == "Preceding":
            return nxt(d, -1)
        a, b = (1, -1) if how == "ModifiedFollowing" else (-1, 1)
        x = nxt(d, a)
        return x if x.month == d.month else nxt(d, b)

    mid = rnd(LO + 400, HI - 400)
    at = lambda: day(mid + rnd(-60, 60))
    for _ in range(rnd(2, 6)):
        op = rnd(0, 3)
        if op == 0:
            d = at()
            need(c.add_holiday(d) is None, "calendar:add_holiday result")
            extra.add(d)
        elif op == 1:
            l = [at() for _ in range(rnd(0, 5))]
            c.add_holidays(l)
            extra.update(l)
        elif op == 2:
            f, k = pick([
                (lambda: c.add_holiday("2024-01-01"), ["TypeError"]), (lambda: c.add_holidays([at(), None]), ["TypeError"]),
                (lambda: c.is_holiday(20240101), ["TypeError"]), (lambda: c.add_holiday(), ["TypeError"]),
                (lambda: Calendar("Australia"), ["TypeError"]), (lambda: Calendar(), ["TypeError"]),
                (lambda: c.roll_date(at(), getattr(Market, "Italy")), ["TypeError"]), (lambda: c.roll_date(at()), ["TypeError"]),
                (lambda: c.business_day_count(at(), 3), ["TypeError"]),
            ])
            refused(f, k, "calendar:refusal", name)
        ex = c.extra_holidays()
        need(set(ex) == extra and len(list(ex)) == len(extra), "calendar:extra_holidays", name, ex, extra)
        for _ in range(6):
            d = pick(sorted(extra)) if extra and rnd(0, 2) == 0 else at()
            got = (c.is_holiday(d), c.is_weekend(d), c.is_business_day(d))
            need(got == (hol(d), wk(d), busy(d)), "calendar:day", name, d, got, (hol(d), wk(d), busy(d)))
            case("calendar day", "%s %s %r" % (name, d, got))
            for how in ROLLS:
                w = roll(d, how)
                g = c.roll_date(d, getattr(ROLL, how))
                need(type(g) is date and g == w, "calendar:roll_date " + how, name, d, g, w, extra)
                g = getattr(ROLL, STATIC[how])(d, c)
                need(type(g) is date and g == w, "convention:" + STATIC[how], name, d, g, w, extra)
            case("calendar roll", "%s %s %r" % (name, d, sorted(extra)))
        l = [at() for _ in range(rnd(0, 5))]
        how = pick(ROLLS)
        need(c.roll_dates(l, getattr(ROLL, how)) == [roll(d, how) for d in l], "calendar:roll_dates", name, how, l)
        a, b = at(), at()
        bc = lambda a, b: sum(busy(day(o)) for o in range(a.toordinal(), b.toordinal() + 1))
        need(c.calendar_day_count(a, b) == (b - a).days, "calendar:calendar_day_count", a, b)
        need(c.business_day_count(a, b) == bc(a, b), "calendar:business_day_count", name, a, b, c.business_day_count(a, b), bc(a, b))
        need(c.calendar_day_counts(l) == [(y - x).days for x, y in zip(l, l[1:])], "calendar:calendar_day_counts", l)
        need(c.business_day_counts(l) == [bc(x, y) for x, y in zip(l, l[1:])], "calendar:business_day_counts", name, l)
        cv = pick(CONVS)
        conv = getattr(DAYS, cv)
        fac = lambda x, y: factor(cv, x.year, x.month, x.day, y.year, y.month, y.day)
        a, b = day(rnd(LO, HI)), day(rnd(LO, HI))
        g, w = c.day_count_factor(a, b, conv), fac(a, b)
        need(type(g) is float and (g == w or (g != g and w != w)), "calendar:day_count_factor " + cv, a, b, g, w)
        need(c.day_count_factors(l, conv) == [fac(x, y) for x, y in zip(l, l[1:])], "calendar:day_count_factors " + cv, l)
        if l:
            x = c.generate_schedule_from_dates(l, getattr(ROLL, how), conv)
            ds, fs, dn, rn, today = schedule(x)
            want = [roll(d, how) for d in l]
            need(type(x) is Schedule and ds == want and (dn, rn) == (cv, how), "calendar:schedule dates", name, how, l, ds)
            need(fs[1:] == [fac(x, y) for x, y in zip(want, want[1:])] and len(fs) == len(want), "calendar:schedule factors", cv, l, fs)
            need(fs[0] == fac(today, want[0]) or date.today() != today, "calendar:schedule first factor", cv, today, want[0], fs[0])
        case("day count factor", "%s %s %s" % (cv, a, b))


def threads(i):
    """Several Python threads write one curve; disjoint dates, so the outcome is determined."""
    base, k, n = rnd(LO, HI - 4000), 4, 60
    c = Curve.from_nodes({day(base): 1.0, day(base + k * n + 1): 2.0}, CurveType.Spot, InterpolationMethod.Linear)
    errors, log = [], []

    def work(t):
        try:
            for j in range(n):
                o = base + 1 + j * k + t
                c.set_rate(day(o), float(t * n + j))
                g = c.get_rate(day(o))
                if g != float(t * n + j):
                    errors.append((t, j, g))
                log.append(t)
                ds, rs = c.dates(), c.rates()
                if ds != sorted(ds) or None in c.get_rates(ds):
                    errors.append((t, j, "order"))
        except BaseException as e:
            errors.append((t, repr(e)))
    ts = [threading.Thread(target=work, args=(t,)) for t in range(k)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    need(not errors, "threads:answers", errors[:3])
    want = {base: 1.0, base + k * n + 1: 2.0}
    for t in range(k):
        for j in range(n):
            want[base + 1 + j * k + t] = float(t * n + j)
    need(c.dates() == [day(o) for o in sorted(want)] and c.rates() == [want[o] for o in sorted(want)], "threads:contents", c.len(), len(want))
    case("thread interleaving", "".join(map(str, log)))


def surface():
    for cls, names in ((CurveType, TYPES), (InterpolationMethod, METHODS), (Market, MARKETS), (ROLL, ROLLS), (DAYS, CONVS)):
        seen = set()
        for n in names:
            v = getattr(cls, n, None)
            if need(v is not None, "names:" + cls.__name__, n):
                need(named(v, cls, n), "names:" + cls.__name__, n, repr(v))
                seen.add(int(v))
        need(len(seen) == len(names), "names:distinct " + cls.__name__, seen)
    for sub in ("data", "time", "instruments"):
        mod = sys.modules.get("RustQuant." + sub)
        need(mod is not None and getattr(RustQuant, sub) is mod, "modules:" + sub)
    case("names", "all")


def run():
    sys.setswitchinterval(1e-6)
    surface()
    for i in range(N):
        history(i)
        calendars(i)
        if i % 40 == 0:
            threads(i)
    surface()
