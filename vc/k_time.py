"""Contracts: calendar time conversions (C12)."""
from contract import *
import os
from specs import *

# the calendar: years are counted astronomically, Julian rules to 1582, Gregorian rules from 1583; 1582 has 355 days
def leap(y):
    y = zi(y); return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0, y <= 1582))
def days(y): return iz(z3.If(leap(y), z3.IntVal(366), z3.IntVal(365)))
def YS(y):
    """days from 2000-01-01 to the start of the year (lemma 'calendar': YS(2000) = 0 and YS(y+1) - YS(y) is the length of the year y)"""
    a = zi(y) + 4799
    return iz(365 * a + a / 4 - 2483321 + z3.If(zi(y) > 1582, a / 400 - a / 100 + 38, 0))
YEARF = z3.Function("YEAR", z3.RealSort(), z3.IntSort())
def YEAR(t):
    """the only integer y with YS(y) <= floor(t) < YS(y+1) (lemma 'calendar': there is no other one; mjd2k_to_year: there is one)"""
    return iz(YEARF(zr(t)))
def fl(t): return floorint(t, zr(t)) if isinstance(t, RT) else t
YMIN, YMAX = -4712, 1460000
DMIN, DMAX = -2451545, 530000000          # days: from the origin of the Julian day number to the largest day within the range of int

class Year(Contract):
    ntrace = 0; hard = 200000
    def build(self, ex, st): return [ivar("year")]
    def env(self, a): return Env(y=a[0])
    def pre(self, e): return [("range of years", and_(cmp(">=", e.y, YMIN), cmp("<=", e.y, YMAX)))]
    def result(self, ex, e): return fresh_int("r")
class Leap(Year):
    """1 for the leap years"""
    name = "is_leap_year"
    def post(self, e): return [("leap year", ("prop", zb(cmp("==", e.ret, iz(z3.If(leap(e.y), z3.IntVal(1), z3.IntVal(0)))))))]
class Days(Year):
    """length of the year"""
    name = "days_per_year"
    def post(self, e): return [("length of the year", ("prop", zb(cmp("==", e.ret, days(e.y)))))]
class YearsPerDay(Year):
    """one day as a fraction of the year"""
    name = "years_per_day"
    def result(self, ex, e): return None
    def post(self, e): return [("reciprocal length of the year", ("ret", real(1) / real(days(e.y))))]
class YearStart(Year):
    """start of the year"""
    name = "mjd2k_year_start"
    def post(self, e): return [("start of the year", ("prop", zb(cmp("==", e.ret, YS(e.y)))))]
class ToYear(Contract):
    """the year which contains the time"""
    name = "mjd2k_to_year"
    ntrace = 0; hard = 200000
    def build(self, ex, st): return [rvar("t")]
    def env(self, a): return Env(t=valof(a[0]))
    def pre(self, e): return [("range of times", and_(cmp(">=", e.t, DMIN), cmp("<", e.t, DMAX)))]
    def result(self, ex, e): return YEAR(e.t)
    def in_year(self, e, y):
        return [("not before the start of the year", ("prop", cmp("<=", YS(y), fl(e.t)))), ("before the start of the next year", ("prop", cmp(">", YS(y + 1), fl(e.t)))),
                ("range of years", ("prop", and_(cmp(">=", y, YMIN), cmp("<=", y, YMAX))))]
    def post(self, e): return self.in_year(e, e.ret)
class Fraction(ToYear):
    """elapsed fraction of the year y which contains t (y: the only integer with YS(y) <= t < YS(y+1), lemma 'calendar')"""
    name = "mjd2k_to_year_fraction"
    def env(self, a): return Env(t=valof(a[0]), y=YEAR(valof(a[0])))
    def result(self, ex, e): return None
    def fraction(self, e): return (e.t - real(YS(e.y))) / real(days(e.y))
    def post(self, e): return [("elapsed part of the year", ("ret", self.fraction(e)))]
class DecimalYear(Fraction):
    """the year plus its elapsed fraction"""
    name = "mjd2k_to_decimal_year"
    def post(self, e): return [("year and fraction", ("ret", real(e.y) + self.fraction(e)))]
class FromDecimalYear(Contract):
    """infinite values and NaN pass; otherwise start of the year + fraction * length of the year"""
    name = "decimal_year_to_mjd2k"
    ntrace = 0; hard = 200000
    def build(self, ex, st): return [D(z3.Bool("x.nan"), rvar("x"))]
    def env(self, a): return Env(x=a[0], v=valof(a[0]))
    def pre(self, e): return [("range of years", and_(cmp(">=", e.v, YMIN), cmp("<", e.v, YMAX)))]
    def post(self, e):
        y = fl(e.v); return [("start and fraction", ("ret", mkd(nanof(e.x), real(YS(y)) + (e.v - real(y)) * real(days(y)))))]
DATEF = {k: z3.Function("date." + k, z3.RealSort(), z3.IntSort()) for k in ("year", "month", "day")}
class ToDate(ToYear):
    """year, month (1-12), day of the month, hours since midnight of the day"""
    name = "mjd2k_to_date"
    def build(self, ex, st):
        for k in ("year", "month", "day", "hours"): st.cells[("out", k)] = UNDEF
        return [Ref(("out", k)) for k in ("year", "month", "day", "hours")] + [rvar("t")]
    def env(self, a): return Env(year=a[0], month=a[1], day=a[2], hours=a[3], t=valof(a[4]))
    def mods(self, e): return [e.year, e.month, e.day, e.hours]
    def result(self, ex, e):
        for k, n in ((e.year, "year"), (e.month, "month"), (e.day, "day")):          # functions of the time
            v = iz(DATEF[n](zr(e.t))); e.st.assume(and_(cmp("<=", -2**31, v), cmp("<", v, 2**31))); ex.store(e.st, ("cell", k.cell, k.path), v)
    def post(self, e):
        y, m, d = (e.ex.load(e.st, ("cell", k.cell, k.path)) for k in (e.year, e.month, e.day))
        out = self.in_year(e, y)[:2] + [("month", ("prop", and_(cmp(">=", m, 1), cmp("<=", m, 12)))), ("day", ("prop", and_(cmp(">=", d, 1), cmp("<=", d, 31)))), ("hours", ("cell", e.hours, (e.t - real(fl(e.t))) * 24))]
        if os.environ.get("VERIF_TIER") != "thorough": return out          # about 6 min.
        feb = z3.If(leap(y), 29, 28)
        start = z3.IntVal(0)          # first day of the month: sum of the lengths of the preceding ones
        reform = z3.If(z3.And(zi(fl(e.t)) > 2299160 - 2451545, zi(y) == 1582), z3.IntVal(10), z3.IntVal(0))      # 10 days of October 1582 are left out
        for k, n in enumerate((31, feb, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31), 1):
            out.append(("day of the month %d" % k, ("prop", z3.Implies(zi(m) == k, z3.And(zi(d) >= 1, zi(d) <= n)))))
            out.append(("date in the month %d" % k, ("prop", z3.Implies(zi(m) == k, zi(fl(e.t)) == zi(YS(y)) + start + zi(d) - 1 - reform))))
            start = z3.simplify(start + n)
        return out
from cexec import UNDEF
Leap(); Days(); YearsPerDay(); YearStart(); ToYear(); Fraction(); DecimalYear(); FromDecimalYear(); ToDate()
