"""Reference model: a cluster as plain physical numbers (pc, km/s, Msun, Myr),
plus (units, origin).  `expected` says what every attribute must read in any
(units, origin); `build` makes a real StarCluster holding that state."""
import copy
import numpy as np
from . import common
from clustertools import StarCluster
from clustertools.util.constants import solar_ro, solar_vo, solar_zo, solar_motion
from galpy.util import conversion
from galpy.orbit import Orbit
try:
    import amuse.units.units as u
    from amuse.units.quantities import Quantity
    HAVE_AMUSE = True
except Exception:            # pragma: no cover
    HAVE_AMUSE = False
    class Quantity: pass

KMS_TO_PCMYR = 1.022712165045695
UNITS = ["nbody", "pckms", "pcmyr", "kpckms", "kpcgyr", "galpy", "WDunits"] + (["amuse"] if HAVE_AMUSE else [])
ORIGINS = ["centre", "cluster", "galaxy"]
POS = ("x", "y", "z")
VEL = ("vx", "vy", "vz")


class World:
    """Physical content. stars: rows (m, x, y, z, vx, vy, vz) in Msun, pc, km/s in
    the frame of the catalogued cluster position; centre: true centre in that
    frame (pc, km/s); gc: galactocentric position of the frame (kpc, km/s)."""

    def __init__(self, stars, gc=(5.0, -3.0, 1.5, -50.0, 180.0, 20.0),
                 centre=(0.31, -0.22, 0.17, 0.41, -0.13, 0.29), tphys=123.0,
                 zmbar=25.0, rbar=1.7, vbar=None, tbar=None, ro=solar_ro, vo=solar_vo, zo=solar_zo,
                 solarmotion=tuple(solar_motion), binaries=None, sse=None, ids=None):
        self.stars = np.array(stars, float)
        self.gc = np.array(gc, float)
        self.centre = np.array(centre, float)
        self.tphys = tphys
        self.zmbar, self.rbar = zmbar, rbar
        self.vbar = 0.06557 * np.sqrt(zmbar / rbar) if vbar is None else vbar
        self.tbar = rbar / (1.022712165045695 * self.vbar) if tbar is None else tbar
        self.ro, self.vo, self.zo, self.solarmotion = ro, vo, zo, list(solarmotion)
        self.binaries = binaries      # rows (id1,id2,kw1,kw2,kcm,ecc,pb[days],semi[au],m1,m2[Msun],l1,l2,r1,r2)
        self.sse = sse                # rows (kw, logl, logr)
        self.ids = ids
        self._fac = None

    def copy(self):
        w = copy.copy(self)
        w.stars, w.gc, w.centre = self.stars.copy(), self.gc.copy(), self.centre.copy()
        w._fac = None
        return w

    # -- unit factors: value_in_units = physical / factor -------------------
    def factors(self, units):
        """(length in pc, velocity in km/s, mass in Msun, time in Myr) of one unit"""
        if self._fac is None:
            self._fac = {}
        if units in self._fac:
            return self._fac[units]
        k = KMS_TO_PCMYR
        f = {
            "nbody": (self.rbar, self.vbar, self.zmbar, self.tbar),
            "pckms": (1.0, 1.0, 1.0, 1.0),
            "amuse": (1.0, 1.0, 1.0, 1.0),
            "pcmyr": (1.0, 1.0 / k, 1.0, 1.0),
            "kpckms": (1000.0, 1.0, 1.0, 1000.0),
            "kpcgyr": (1000.0, 1.0 / k, 1.0, 1000.0),
            "galpy": (1000.0 * self.ro, self.vo, conversion.mass_in_msol(vo=self.vo, ro=self.ro),
                      1000.0 * conversion.time_in_Gyr(vo=self.vo, ro=self.ro)),
            "WDunits": (1000.0, 1.0 / k, 222288.4543021174, 1000.0),
            "radec": (1000.0, 1.0, 1.0, 1000.0),
        }[units]
        self._fac[units] = f
        return f

    def xyz(self, origin):
        """(positions pc, velocities km/s) of the stars relative to `origin`"""
        X, W = self.stars[:, 1:4].copy(), self.stars[:, 4:7].copy()
        if origin == "centre":
            X -= self.centre[:3]; W -= self.centre[3:]
        elif origin == "galaxy":
            X += 1000.0 * self.gc[:3]; W += self.gc[3:]
        return X, W

    def cart(self, units, origin):
        L, Vf, M, T = self.factors(units)
        X, W = self.xyz(origin)
        d = {}
        for i in range(3):
            d[POS[i]] = X[:, i] / L
            d[VEL[i]] = W[:, i] / Vf
            d[POS[i] + "c"] = self.centre[i] / L
            d[VEL[i] + "c"] = self.centre[3 + i] / Vf
            d[POS[i] + "gc"] = 1000.0 * self.gc[i] / L
            d[VEL[i] + "gc"] = self.gc[3 + i] / Vf
        d["m"] = self.stars[:, 0] / M
        d["tphys"] = self.tphys / T
        return d

    # -- sky -----------------------------------------------------------------
    def _orbit(self, X, W):
        """galpy phase-space point(s) at galactocentric kpc, km/s"""
        X, W = np.atleast_2d(X), np.atleast_2d(W)
        R = np.hypot(X[:, 0], X[:, 1]); phi = np.arctan2(X[:, 1], X[:, 0])
        vR = (W[:, 0] * X[:, 0] + W[:, 1] * X[:, 1]) / R
        vT = (W[:, 1] * X[:, 0] - W[:, 0] * X[:, 1]) / R
        v = np.column_stack([R / self.ro, vR / self.vo, vT / self.vo, X[:, 2] / self.ro, W[:, 2] / self.vo, phi])
        return Orbit(v, ro=self.ro, vo=self.vo, zo=self.zo, solarmotion=self.solarmotion)

    def sky(self):
        """expected sky attributes (units radec, origin sky)"""
        X, W = self.xyz("galaxy")
        def six(o):
            return [np.atleast_1d(f()) for f in (o.ra, o.dec, o.dist, o.pmra, o.pmdec, o.vlos)]
        s = six(self._orbit(X / 1000.0, W))
        g = six(self._orbit(self.gc[:3], self.gc[3:]))
        c = six(self._orbit(self.gc[:3] + self.centre[:3] / 1000.0, self.gc[3:] + self.centre[3:]))
        names = ("ra", "dec", "dist", "pmra", "pmdec", "vlos")
        d = {}
        for i, n in enumerate(names):
            d[n] = s[i]; d[n + "_gc"] = g[i][0]; d[n + "_c"] = c[i][0]
        for i in range(3):
            d[POS[i]], d[VEL[i]] = s[i], s[3 + i]
            d[POS[i] + "gc"], d[VEL[i] + "gc"] = g[i][0], g[3 + i][0]
            d[POS[i] + "c"], d[VEL[i] + "c"] = c[i][0], c[3 + i][0]
        d["m"] = self.stars[:, 0].copy()
        d["tphys"] = self.tphys / 1000.0
        return d

    # -- construction ----------------------------------------------------------
    def build(self, units, origin, nbody6=False, analyze=True, **kw):
        real_units = "pckms" if units == "amuse" else units
        d = self.cart(real_units, origin)
        c = StarCluster(d["tphys"], units=real_units, origin=origin, ro=self.ro, vo=self.vo, zo=self.zo,
                        solarmotion=list(self.solarmotion), **kw)
        c.rbar, c.zmbar, c.vbar, c.tbar = self.rbar, self.zmbar, self.vbar, self.tbar
        if nbody6:
            c.add_nbody6(rbar=self.rbar, zmbar=self.zmbar, vbar=self.vbar, tbar=self.tbar,
                         xc=d["xc"], yc=d["yc"], zc=d["zc"])
        ids = None if self.ids is None else np.array(self.ids)
        c.add_stars(d["x"], d["y"], d["z"], d["vx"], d["vy"], d["vz"], d["m"], id=ids,
                    sortstars=True, analyze=analyze)
        c.add_orbit(d["xgc"], d["ygc"], d["zgc"], d["vxgc"], d["vygc"], d["vzgc"])
        for i in range(3):
            setattr(c, POS[i] + "c", d[POS[i] + "c"])
            setattr(c, VEL[i] + "c", d[VEL[i] + "c"])
        if self.sse is not None:
            s = np.array(self.sse, float)
            c.add_sse(s[:, 0], s[:, 1], s[:, 2])
            if analyze:
                c.analyze(sortstars=True)
        if self.binaries is not None:
            b = np.array(self.binaries, float)
            if not nbody6:
                c.add_nbody6(rbar=self.rbar, zmbar=self.zmbar, vbar=self.vbar, tbar=self.tbar,
                             xc=d["xc"], yc=d["yc"], zc=d["zc"])
                c.xcn = c.ycn = c.zcn = None
            if real_units == "nbody":
                b[:, 6] /= c.tbar_days; b[:, 7] /= c.rbar_au; b[:, 8:10] /= self.zmbar
            c.add_bse(*[b[:, i] for i in range(14)])
            c.bunits = "nbody" if real_units == "nbody" else "audays"
            c.ns = c.ntot - c.nb
        if units == "amuse":
            c.to_amuse()
        return c


def num(v, cluster_units=None):
    """plain numbers of an attribute, in pc/kms/Msun/Myr when it is an AMUSE quantity"""
    if HAVE_AMUSE and isinstance(v, Quantity):
        for un in (u.parsec, u.kms, u.MSun, u.Myr, u.kms * u.kms):
            try:
                return np.asarray(v.value_in(un), float)
            except Exception:
                continue
        return np.asarray(v.number, float)
    if isinstance(v, np.ndarray) and v.dtype == object:
        return np.array([num(e) for e in v.ravel().tolist()], float).reshape(v.shape)
    if isinstance(v, (list, tuple)) and any(isinstance(e, Quantity) for e in v):
        return np.array([num(e) for e in v], float)
    return v


# ------------------------------------------------------------------ canonical state
def _canon(v, depth=0):
    if v is None or isinstance(v, (bool, str)):
        return v
    if HAVE_AMUSE and isinstance(v, Quantity):
        return ("Q", str(v.unit), _canon(np.asarray(v.number)))
    if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        return ("n", int(v))
    if isinstance(v, (float, np.floating)):
        if not np.isfinite(v):
            return ("n", str(v))
        return ("n", float("%.6g" % v))
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return tuple(_canon(e, depth + 1) for e in v.ravel().tolist())
        if v.dtype.kind in "bi":
            return ("A", v.shape, v.tobytes())
        if v.dtype.kind == "f":
            s = np.nanmax(np.abs(v)) if v.size else 0.0
            if not np.isfinite(s) or s == 0:
                return ("A", v.shape, np.asarray(v, float).tobytes() if s != 0 else s)
            # round to 6 digits of the array's own scale, and the scale itself
            q = np.round(np.asarray(v, float) / float("%.1g" % s), 5) + 0.0
            return ("A", v.shape, float("%.1g" % s), q.tobytes())
        return ("A", v.shape, str(v.dtype), repr(v.tolist()))
    if isinstance(v, (list, tuple)):
        return tuple(_canon(e, depth + 1) for e in v)
    if isinstance(v, dict):
        return tuple((str(k), _canon(e, depth + 1)) for k, e in sorted(v.items(), key=lambda t: str(t[0])))
    if isinstance(v, Orbit):
        return ("Orbit", _canon(np.asarray(v.vxvv)), _canon(getattr(v, "_ro", None)), _canon(getattr(v, "_vo", None)))
    if hasattr(v, "__dict__") and depth < 3:
        return (type(v).__name__, tuple((k, _canon(e, depth + 1)) for k, e in sorted(vars(v).items())))
    return type(v).__name__


def canon(cluster, drop=()):
    """canonical form of the whole object (every attribute, also ones the
    checks know nothing about), floats rounded to 6 digits"""
    items = []
    for k in sorted(vars(cluster)):
        if k in drop:
            continue
        items.append((k, _canon(vars(cluster)[k])))
    return hash(tuple(items)), items


# ------------------------------------------------------------------ ready-made worlds
STARS5 = [
    # m, x, y, z, vx, vy, vz : distinct masses/radii, no near ties in r or rpro about any origin
    (1.00, 1.10, 0.40, -0.30, 0.70, -1.20, 0.50),
    (0.45, -2.30, 0.90, 1.70, -0.40, 0.80, 1.10),
    (2.10, 0.60, -1.50, 0.80, 1.30, 0.20, -0.60),
    (0.70, -0.50, 3.20, -2.40, -1.00, -0.50, 0.30),
    (1.55, 4.10, -2.60, 3.30, 0.90, 1.60, -1.40),
]
BIN2 = [(1, 2, 1, 1, 0, 0.30, 120.0, 0.50, 0.60, 0.40, -0.1, -0.4, 0.0, -0.2),
        (3, 4, 3, 1, 0, 0.62, 44.0, 0.21, 0.25, 0.20, 0.7, -0.8, 0.5, -0.3)]
SSE5 = [(0, -0.9, -0.3), (1, 0.4, 0.1), (3, 1.7, 0.9), (1, -0.2, -0.1), (10, -1.6, -1.9)]


def world5(**kw):
    return World(STARS5, **kw)
