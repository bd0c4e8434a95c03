"""Bounded layer: executable contracts checked against the rebuilt code (bounded, never counted as proved).

Each contract is a function of one Case; the case number and the seed determine its inputs, so that
(property, contract, seed, number) is a complete replay record.
"""
import os, sys, time, zlib, json, traceback
import numpy as np

CONTRACTS = {}      # property -> [(name, count, function, options)]

class Fail(Exception):
    """A contract does not hold."""

class Case:
    def __init__(self, prop, name, seed, i, tier="quick"):
        self.i = i
        self.tier = tier
        self.rng = np.random.default_rng([seed, zlib.crc32((prop + "/" + name).encode()), i])
        self.notes = {}
        self.nontrivial = True
    def note(self, **kw):
        self.notes.update(kw)
    def require(self, cond, msg, **kw):
        if not cond:
            self.note(**kw)
            raise Fail(msg)
    def close(self, got, want, msg, rtol=1e-9, atol=0.0, **kw):
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.note(got_shape=got.shape, want_shape=want.shape, **kw)
            raise Fail(msg + ": shape %s expected %s" % (got.shape, want.shape))
        with np.errstate(all="ignore"):
            ok = (np.abs(got - want) <= atol + rtol * np.abs(want)) | (got == want) | (np.isnan(got) & np.isnan(want))
        if not ok.all():
            k = np.argwhere(~ok)
            self.note(index=k[0].tolist() if k.size else [], got=got, want=want, **kw)
            g, w = got[tuple(k[0])], want[tuple(k[0])]
            raise Fail("%s: got %r expected %r (at %s, %d of %d differ)" % (msg, float(g), float(w), k[0].tolist(), len(k), got.size))
    def same(self, got, want, msg, **kw):
        """bit-for-bit (NaN equal NaN)"""
        got, want = np.asarray(got), np.asarray(want)
        self.close(got, want, msg, rtol=0.0, atol=0.0, **kw)
    def raises(self, func, msg, exc=Exception, **kw):
        try:
            res = func()
        except exc:
            return
        self.note(result=res, **kw)
        raise Fail(msg + ": no exception raised")

def contract(prop, count=200, name=None, asan=False, slow=1.0):
    def deco(f):
        CONTRACTS.setdefault(prop, []).append((name or f.__name__, count, f, {"asan": asan}))
        return f
    return deco

def jsonable(x):
    if isinstance(x, np.ndarray):
        return {"array": np.array2string(x, threshold=60, precision=17), "shape": list(x.shape)}
    if isinstance(x, (np.generic,)):
        return x.item() if not isinstance(x.item(), complex) else repr(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x[:50]]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x if not (isinstance(x, float) and x != x) else "nan"
    return repr(x)[:500]

def run_case(prop, name, f, seed, i, tier):
    c = Case(prop, name, seed, i, tier)
    try:
        f(c)
        return None, c
    except Fail as e:
        return str(e), c
    except MemoryError:
        raise
    except Exception as e:
        return "unexpected %s: %s | %s" % (type(e).__name__, e, traceback.format_exc(limit=-4)), c
