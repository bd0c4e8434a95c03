from core import contract
import numpy as np, orc
from eoxmagmod import sunpos, convert_to_dipole
from eoxmagmod.magnetic_time import mjd2000_to_magnetic_universal_time as mut

def ref(pl, sol):
    """dipole longitude of the sub-solar point by construction: 0 at the meridian through the geographic pole side"""
    x = np.asarray(orc.sph_to_cart(*sol, 1.), dtype=float); s, k = (float(q) for q in orc.sincosd(pl[0])); sl, cl = (float(q) for q in orc.sincosd(pl[1]))
    return np.degrees(np.arctan2(x @ np.array([-sl, cl, 0]), x @ np.array([s * cl, s * sl, -k]))), x

@contract("C25", 3000)
def geometry(c):
    """twelve hours minus the dipole longitude of the sub-solar point"""
    r = c.rng; pl = (float(r.choice([90., -90., 0., 80.2, r.uniform(-90, 90)])), float(r.choice([0., -72.6, 180., r.uniform(-360, 360)]))); t = float(r.uniform(-9000, 12000)); user = bool(r.random() < .6)
    sol = (float(r.uniform(-90, 90)) if r.random() < .3 else float(r.uniform(-23.5, 23.5)), float(r.uniform(-360, 360)))
    c.note(time=t, pole=pl, sol=sol, user=user)
    if user: m = float(mut(t, *pl, *sol)); m2 = float(mut(t, *pl, lat_sol=sol[0], lon_sol=sol[1])); c.same(m, m2, "keyword arguments"); c.same(m, float(mut(t + 100, *pl, *sol)), "user defined Sun does not depend on the time")
    else:
        m = float(mut(t, *pl)); d, _, h, _, _ = sunpos(t, 0, 0, rad=0); sol = (float(d), -float(h))
        c.same(float(mut(t, *pl, lat_sol=10.)), m, "incomplete sub-solar point (latitude)"); c.same(float(mut(t, *pl, lon_sol=10.)), m, "incomplete sub-solar point (longitude)"); c.same(float(mut(t, *pl, None, None)), m, "no sub-solar point")
    c.require(0 <= m <= 24, "range", res=m); lo, x = ref(pl, sol); z = abs(x @ np.asarray(orc.nec_basis(*pl)[2], dtype=float))
    if z < .9999: c.close((m - (12 - lo / 15) + 12) % 24 - 12, 0, "dipole longitude of the Sun", rtol=0, atol=1e-8)
    d = convert_to_dipole([*sol, 7000.], *pl)
    if z < .9999: c.close((m * 15 + d[1] - 180 + 180) % 360 - 180, 0, "dipole coordinates", rtol=0, atol=1e-6)

@contract("C25", 300)
def arrays(c):
    """arrays equal element-wise evaluation"""
    r = c.rng; pl = (80.2, -72.6); n = 6; t = r.uniform(-9000, 12000, n); sol = r.uniform(-23, 23, n), r.uniform(-180, 180, n); c.note(time=t, sol=sol)
    c.close(mut(t, *pl), [float(mut(q, *pl)) for q in t], "Sun model", rtol=1e-13); c.close(mut(t, *pl, *sol), [float(mut(q, *pl, a, b)) for q, a, b in zip(t, *sol)], "user defined", rtol=1e-13)
    c.close(mut(t.reshape(2, 3), *pl), mut(t, *pl).reshape(2, 3), "2D", rtol=1e-13); c.close(mut(t, *pl, sol[0], sol[1]), mut(t[0], *pl, sol[0], sol[1]), "time is not used", rtol=1e-13)
    a, b = np.full(n, 80.), r.uniform(-180, 180, n); c.close(mut(t, a, b), [float(mut(q, 80., w)) for q, w in zip(t, b)], "array of poles", rtol=1e-13)
