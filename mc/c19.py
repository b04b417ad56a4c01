"""C19  clusters made from particles in memory (tables, AMUSE particles, galpy orbits, limepy models, custom
load functions) and clusters given a galpy orbit: the full product of sources x units x origins x options."""
import copy, itertools, os, shutil, tempfile
import numpy as np
import clustertools as ct
from astropy.table import Table
from galpy.orbit import Orbit
from galpy.util import conversion
from galpy.potential import MWPotential2014
from . import common, world, simfiles
from .world import POS, VEL

UN = [u for u in world.UNITS if u != "amuse"]
ORI = [None, "centre", "cluster", "galaxy"]
SIX = list(POS) + list(VEL)
ALL = SIX + ["m"]


def ww(n=4):
    w = world.world5(); w.stars = np.array(w.stars, float)[:n]; return w


def ones(**kw):
    """clusters which never heard of their N-body scales have scales of one"""
    w = world.world5(**kw); w.rbar = w.zmbar = w.vbar = w.tbar = 1.0; return w


def same_stars(c, exp, ids, what, part, case, rel=2e-7):
    """the star table of the cluster against the expected one, in order"""
    n = len(exp["m"])
    bad = []
    if c.ntot != n or len(np.atleast_1d(c.x)) != n:
        bad.append(("number of stars", "ntot=%r, %d stars given" % (c.ntot, n)))
    else:
        for k in ALL:
            got = np.atleast_1d(world.num(getattr(c, k)))
            if not common.close(got, exp[k], rel, scale=max(1e-12, np.max(np.abs(np.concatenate([np.atleast_1d(exp[j]) for j in ((POS if k in POS else VEL if k in VEL else ["m"]))]))))):
                bad.append(("values of %s" % k, "%s=%s expected %s" % (k, got, exp[k])))
        if ids is not None and not np.array_equal(np.asarray(c.id), np.asarray(ids)):
            bad.append(("identifiers", "%s expected %s" % (c.id, ids)))
    for k, m in bad: part.violation("%s: %s" % (what, k), "%s: %s" % (case, m), case)
    return not bad


def labels(c, ctype, units, origin, what, part, case):
    if c.ctype != ctype or c.units != units or c.origin != origin:
        part.violation("%s: labels" % what, "%s: ctype %r units %r origin %r" % (case, c.ctype, c.units, c.origin), case)


def orbit_of(c, w=None):
    """orbit of the cluster in kpc, km/s, whatever its units (default ro, vo)"""
    f = (w or ones()).factors(c.units)
    x = [float(world.num(getattr(c, n + "gc"))) * f[0] / 1000. for n in POS]
    return np.array(x + [float(world.num(getattr(c, n + "gc"))) * f[1] for n in VEL])


# ---- astropy tables ------------------------------------------------------------------------------------
ALIAS = dict(id=["id", "ID"], m=["m", "mass", "Mass"], x=["x", "X"], y=["y"], z=["z"], vx=["v_x", "vx", "VX"], vy=["v_y", "vy"], vz=["v_z", "vz"])
SKYAL = dict(id=["id"], m=["mass"], x=["right ascension", "ra", "RA"], y=["declination", "dec"], z=["distance", "dist", "d"],
             vx=["pm_ra_cosdec", "pm_ra", "pmra"], vy=["pm_dec", "pmdec"], vz=["radial_velocity", "rvel", "v_los", "vlos"])
ORDERS = [tuple(range(8)), (7, 6, 5, 4, 3, 2, 1, 0), (3, 0, 6, 1, 7, 2, 5, 4)]


def table(item, part):
    units, origin, names, order, have, mapped, kw, n, orb = item
    case = dict(kind="table", item=list(item))
    w = ww(n)
    if units == "radec":
        s = w.sky(); cols = {k: s[k] for k in SIX}; cols["m"] = s["m"]
    else:
        s = w.cart(units, origin or "cluster"); cols = {k: np.array(s[k], float) for k in ALL}
    cols["id"] = np.array([40, 7, 19, 3, 11][:n])
    names = dict(zip(["id", "m"] + SIX, names))
    keys = [k for k in [(["id", "m"] + SIX)[i] for i in order] if k in SIX or k in have]
    t = Table(); t["junk"] = np.arange(n) * 1e3
    if mapped:
        names = {k: "col_%s" % k for k in names}
        # decoys under the standard names must not be picked up
        t["x"] = np.full(n, -77.0); t["mass"] = np.full(n, 5e5)
    for k in keys: t[names[k]] = np.array(cols[k])
    keep = t.copy()
    mapper = {k: names[k] for k in keys} if mapped else None
    mkeep = copy.deepcopy(mapper)
    opts = dict(kw)
    of = None
    if orb: of = simfiles.orbit_file(1)
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        for rep in (0, 1):
            if of is not None:
                open(d + "/orb.dat", "w").write(of); opts["ofile"] = open(d + "/orb.dat"); opts["ounits"] = "kpckms"
            try:
                with common.quiet(), common.limit(60):
                    c = ct.load_cluster("astropy_table", particles=t, units=units, origin=origin, column_mapper=mapper, **opts)
            except Exception as e:
                part.violation("table: raised %s" % type(e).__name__, "%s (load %d): %s" % (case, rep, common.exc_text(e)), case); return
            finally:
                if "ofile" in opts: opts.pop("ofile").close()
            part.transitions += 1
            labels(c, "astropy_table", units, origin, "table", part, case)
            exp = dict(cols)
            if "m" not in have: exp["m"] = np.ones(n)
            same_stars(c, exp, cols["id"] if "id" in have else None, "table", part, case)
            if of is not None and not common.close(orbit_of(c), [float(v) for v in simfiles.orbit_row(0)[1:7]], 1e-6):
                part.violation("table: orbit", "%s: %s" % (case, orbit_of(c)), case)
        if t.colnames != keep.colnames or any(not np.array_equal(t[k], keep[k]) for k in keep.colnames):
            part.violation("table: source changed", str(case), case)
        if mapper != mkeep:
            part.violation("table: the mapping given by the user is changed", "%s: %s" % (case, mapper), case)
    finally:
        shutil.rmtree(d)
    part.states += 1; part.traces += 1; part.outcome("table", units, origin, len(have), mapped, orb)


def tables(t):
    A = [ALIAS[k] for k in ["id", "m"] + SIX]; S = [SKYAL[k] for k in ["id", "m"] + SIX]
    full = list(itertools.product(*A))
    one = [tuple(a[min(i, len(a) - 1)] for a in A) for i in range(3)]
    sky = list(itertools.product(*S)) if t else [tuple(a[min(i, len(a) - 1)] for a in S) for i in range(4)]
    out = []
    for nm in full:
        out.append(("kpckms", "cluster", nm, ORDERS[0], ("id", "m"), False, {}, 3, False))
    for units, origin in itertools.product(UN, ORI):
        for nm, order, have, mapped, kw, n, orb in itertools.product(one, ORDERS if t else ORDERS[1:], [("id", "m"), ("m",), ("id",), ()],
                                                     (False, True), ({}, {"analyze": False}, {"sortstars": False}), (1, 4), (False, True)):
            if orb and origin is None: continue
            if not t and (kw or n == 1) and (have != ("id", "m") or nm is not one[0]): continue
            out.append((units, origin, nm, order, have, mapped, kw, n, orb))
    for nm, order, have, mapped in itertools.product(sky, ORDERS, [("id", "m"), ()], (False, True)):
        out.append(("radec", "sky", nm, order, have, mapped, {"analyze": False}, 4, False))
    return out


# ---- AMUSE particles -----------------------------------------------------------------------------------
def particles(w, origin):
    from amuse.lab import Particles, units as u
    d = w.cart("pckms", origin)
    p = Particles(len(d["m"]))
    p.mass = d["m"] | u.MSun
    for k in POS: setattr(p, k, (np.array(d[k], float) * 3.0856775814913674e13) | u.km)
    for k in VEL: setattr(p, k, (np.array(d[k], float) * 1000.0) | u.m / u.s)
    return p


def amuse(item, part):
    units, origin, n, kw, how, orb = item
    case = dict(kind="amuse", item=list(item)); w = ww(n)
    from amuse.io import write_set_to_file
    cu = units or "amuse"
    exp = w.cart(cu, origin or "cluster")
    exp = {k: np.atleast_1d(np.array(world.num(exp[k]), float)) for k in ALL}
    d = tempfile.mkdtemp(dir=os.getcwd()); opts = dict(kw)
    try:
        with common.quiet(), common.limit(60):
            p = particles(w, origin or "cluster"); keys = np.array(p.key); keep = [np.array(p.x.number), np.array(p.vx.number), np.array(p.mass.number)]
            a = dict(particles=p)
            if how != "memory":
                write_set_to_file(p, d + "/snap_00000.hdf5", "hdf5", overwrite_file=True)
                a = dict(filename=d + "/snap_00000.hdf5") if how == "file" else dict(wdir=d, snapbase="snap_", snapend=".hdf5", nzfill=5)
            if orb:
                open(d + "/orb.dat", "w").write(simfiles.orbit_file(1)); opts["ofile"] = open(d + "/orb.dat"); opts["ounits"] = "kpckms"
            try:
                c = ct.load_cluster("amuse", units=units, origin=origin, **a, **opts)
            except Exception as e:
                part.violation("amuse: raised %s" % type(e).__name__, "%s: %s" % (case, common.exc_text(e)), case); return
        part.transitions += 1
        labels(c, "amuse", cu, origin, "amuse", part, case)
        if units is None or units == "amuse":
            if not isinstance(c.x, world.Quantity): part.violation("amuse: unit-less", str(case), case); return
        same_stars(c, exp, keys, "amuse", part, case, 4e-5)
        if orb and not common.close(orbit_of(c), [float(v) for v in simfiles.orbit_row(0)[1:7]], 1e-6):
            part.violation("amuse: orbit", "%s: %s" % (case, orbit_of(c)), case)
        if not (np.array_equal(keep[0], p.x.number) and np.array_equal(keep[1], p.vx.number) and np.array_equal(keep[2], p.mass.number)):
            part.violation("amuse: source changed", str(case), case)
        if how == "series":
            with common.quiet(), common.limit(60):
                w2 = w.copy(); w2.stars = np.array(w.stars) * 1.25
                q = particles(w2, origin or "cluster")
                write_set_to_file(q, d + "/snap_00001.hdf5", "hdf5", overwrite_file=True)
                e2 = w2.cart(cu, origin or "cluster"); e2 = {k: np.atleast_1d(np.array(world.num(e2[k]), float)) for k in ALL}
                try:
                    c2 = ct.advance_cluster(c)
                    same_stars(c2, e2, np.array(q.key), "amuse, next snapshot", part, case, 4e-5)
                    labels(c2, "amuse", cu, origin, "amuse, next snapshot", part, case)
                    c3 = ct.advance_cluster(c2)
                    if c3.ntot != 0: part.violation("amuse: stars after the last snapshot", str(case), case)
                except Exception as e:
                    part.violation("amuse: advance raised %s" % type(e).__name__, "%s: %s" % (case, common.exc_text(e)), case); return
                part.transitions += 2
    finally:
        if "ofile" in opts: opts["ofile"].close()
        shutil.rmtree(d)
    part.states += 1; part.traces += 1; part.outcome("amuse", units, origin, how, orb)


# ---- galpy orbits --------------------------------------------------------------------------------------
def galpy(item, part):
    origin, mass, n, ro, given, kw, orb = item
    case = dict(kind="galpy", item=list(item)); w = ww(n)
    g = w.cart("kpckms", origin or "galaxy")
    X = np.array([g[k] for k in POS]); V = np.array([g[k] for k in VEL])
    R = np.hypot(X[0], X[1]); phi = np.arctan2(X[1], X[0])
    vR = (X[0] * V[0] + X[1] * V[1]) / R; vT = (X[0] * V[1] - X[1] * V[0]) / R
    r0, v0 = ro
    o = Orbit(np.column_stack([R / r0, vR / v0, vT / v0, X[2] / r0, V[2] / v0, phi]), ro=r0, vo=v0)
    m = {None: np.ones(n), "float": np.full(n, 2.5), "array": np.linspace(1, 2, n), "int": np.full(n, 3.0)}[mass]
    opts = dict(kw)
    if mass: opts["m"] = {"float": 2.5, "array": m.copy(), "int": 3}[mass]
    if given: opts.update(ro=r0, vo=v0)
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        if orb:
            open(d + "/orb.dat", "w").write(simfiles.orbit_file(1)); opts["ofile"] = open(d + "/orb.dat")
        keep = [np.copy(o.x()), np.copy(o.vx())]
        try:
            with common.quiet(), common.limit(60):
                c = ct.load_cluster("galpy", particles=o, units="kpckms", origin=origin, **opts)
        except Exception as e:
            part.violation("galpy: raised %s" % type(e).__name__, "%s: %s" % (case, common.exc_text(e)), case); return
        exp = dict(zip(SIX, list(X) + list(V))); exp["m"] = m
        labels(c, "galpy", "kpckms", origin, "galpy", part, case)
        same_stars(c, exp, np.arange(1, n + 1), "galpy", part, case)
        if orb and not common.close(orbit_of(c), [float(v) for v in simfiles.orbit_row(0)[1:7]], 1e-6):
            part.violation("galpy: orbit", "%s: %s" % (case, orbit_of(c)), case)
        if not (np.array_equal(keep[0], o.x()) and np.array_equal(keep[1], o.vx())): part.violation("galpy: source changed", str(case), case)
    finally:
        if "ofile" in opts: opts["ofile"].close()
        shutil.rmtree(d)
    part.states += 1; part.transitions += 1; part.traces += 1; part.outcome("galpy", origin, mass, given, orb)


# ---- limepy models -------------------------------------------------------------------------------------
SPECS = [dict(g=1, phi0=5.0, M=400.0, rh=3.0), dict(g=1, W0=4.0, M=300.0, rm=2.0), dict(g=2, phi0=3.0, M=250.0, rt=20.0),
         dict(g=1, phi0=5.0, M=200.0, rv=1.7), dict(g=1, phi0=6.0, M=200.0, r0=0.4), dict(g=1, phi0=6.0, M=200.0, rc=0.4),
         dict(g=0, phi0=3.0), dict(g=1, phi0=5.0, M=100.0)]


def lime(item, part):
    from limepy import limepy, sample
    k, how, N, units, origin, orb = item
    case = dict(kind="limepy", item=list(item)); sp = dict(SPECS[k])
    ren = {"W0": "phi0", "rm": "rh", "rc": "r0"}
    a = {ren.get(x, x): v for x, v in sp.items()}
    g, phi = a.pop("g"), a.pop("phi0")
    d = tempfile.mkdtemp(dir=os.getcwd()); opts = {}
    try:
        with common.quiet(), common.limit(120):
            if "M" not in a: a.update(G=1, M=1, rv=1)
            elif len(a) == 1: a.update(rv=1.0)
            mod = limepy(phi, g, **a)
            mod2 = limepy(phi, g, **a)
            n = {"N": 30, "mbar": int(round(a["M"] / 5.0)) if "M" in sp else 4}[N]
            s = sample(mod, N=n)
            kw = dict(N=30) if N == "N" else dict(mbar=5.0 if "M" in sp else 0.25)
            if how == "model": kw["model"] = mod2
            else: kw.update(sp)
            if orb == "file":
                open(d + "/orb.dat", "w").write(simfiles.orbit_file(1)); opts = dict(ofile=open(d + "/orb.dat"), ounits="kpckms"); o6 = [float(v) for v in simfiles.orbit_row(0)[1:7]]
            elif orb == "orbit":
                o6 = [3.0, -4.0, 1.0, 20.0, 150.0, -30.0]; opts = dict(orbit=mk_orbit(o6, 8.0, 220.0))
            try: c = ct.load_cluster("limepy", units=units, origin=origin, **kw, **opts)
            except Exception as e:
                part.violation("limepy: raised %s" % type(e).__name__, "%s: %s" % (case, common.exc_text(e)), case); return
        exp = {x: np.array(getattr(s, x), float) for x in ALL}
        if origin == "galaxy" and orb:
            f = ones().factors(units)
            for i in range(3):
                exp[POS[i]] = exp[POS[i]] + o6[i] * 1000. / f[0]; exp[VEL[i]] = exp[VEL[i]] + o6[3 + i] / f[1]
        labels(c, "limepy", units, origin, "limepy", part, case)
        same_stars(c, exp, np.arange(1, n + 1), "limepy", part, case)
        if orb and not common.close(orbit_of(c), o6, 1e-6): part.violation("limepy: orbit", "%s: %s" % (case, orbit_of(c)), case)
    finally:
        if "ofile" in opts: opts["ofile"].close()
        shutil.rmtree(d)
    part.states += 1; part.transitions += 1; part.traces += 1; part.outcome("limepy", k, how, units, origin, orb)


def mk_orbit(o6, ro, vo, integrate=None):
    x, y, z, vx, vy, vz = o6
    R = np.hypot(x, y)
    o = Orbit([R / ro, (x * vx + y * vy) / R / vo, (x * vy - y * vx) / R / vo, z / ro, vz / vo, np.arctan2(y, x)], ro=ro, vo=vo)
    if integrate is not None: o.integrate(np.linspace(0, integrate / conversion.time_in_Gyr(ro=ro, vo=vo), 401), MWPotential2014, method="dop853_c")
    return o


# ---- galpy orbit given to a loader, at load and when advancing -------------------------------------------
def with_orbit(item, part):
    src, units, origin, tgyr, ro, steps = item
    case = dict(kind="orbit", item=list(item))
    o6 = [5.0, -3.0, 1.5, -50.0, 180.0, 20.0]
    w = ww(4)
    if src != "custom": w.rbar = w.zmbar = w.vbar = w.tbar = 1.0
    f = w.factors(units)
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        with common.quiet(), common.limit(120):
            o = mk_orbit(o6, ro[0], ro[1], 2.0)
            ref = copy.deepcopy(o)
            times = [tgyr + 0.11 * k for k in range(steps + 1)]
            c = None
            for k, t in enumerate(times):
                w2 = w.copy(); w2.stars = np.array(w.stars) * (1 + 0.3 * k); w2.tphys = t * 1000.
                e = w2.cart(units, origin); e = {n: np.atleast_1d(np.array(e[n], float)) for n in ALL}
                tu = t * 1000. / f[3]
                try:
                    if src == "custom":
                        seen = {}

                        def fun(ctype=None, units=None, origin=None, ofile=None, orbit=None, advance=False, **kw):
                            seen.update(ctype=ctype, units=units, origin=origin, orbit=orbit, advance=advance, kw=dict(kw))
                            q = ct.StarCluster(tu, units=units, origin=origin, ctype=ctype)
                            q.rbar, q.zmbar, q.vbar, q.tbar = w.rbar, w.zmbar, w.vbar, w.tbar
                            q.add_stars(*[e[n] for n in ALL], np.array([5, 3, 9, 1]))
                            return q
                        if k == 0: c = ct.load_cluster(load_function=fun, units=units, origin=origin, orbit=o, colour="red")
                        else: c = ct.advance_cluster(c, load_function=fun, orbit=o, colour="red")
                        want = dict(ctype="custom", units=units, origin=origin, advance=k > 0)
                        if any(seen.get(n) != v for n, v in want.items()) or seen["kw"].get("colour") != "red" or seen["orbit"] is not o:
                            part.violation("custom: arguments", "%s: %s" % (case, {n: str(v)[:60] for n, v in seen.items()}), case)
                        ids = [5, 3, 9, 1]
                    elif src == "nemo":
                        head = ["# h"] * 13; head[1] = "# Ntot: %d, Nbody: %d" % (4, 4); head[2] = "# time: %r" % tu
                        if k == 0:
                            with open(d + "/sim.nemo", "w") as fh:
                                for kk, tt in enumerate(times):
                                    w3 = w.copy(); w3.stars = np.array(w.stars) * (1 + 0.3 * kk); e3 = w3.cart(units, origin)
                                    head[2] = "# time: %r" % (tt * 1000. / f[3])
                                    fh.write("\n".join(head) + "\n")
                                    for i in range(4): fh.write(" ".join("%.17g" % float(e3[n][i]) for n in ["m"] + SIX) + "\n")
                            c = ct.load_cluster("gyrfalcon", filename=d + "/sim.nemo", units=units, origin=origin, orbit=o)
                        else: c = ct.advance_cluster(c, orbit=o)
                        ids = None
                    else:
                        np.savetxt(d + "/%05d.dat" % k, np.column_stack([e[n] for n in ["m"] + SIX]), fmt="%.17g")
                        if k == 0: c = ct.load_cluster("snapshot", wdir=d, nzfill=5, units=units, origin=origin, orbit=o)
                        else: c = ct.advance_cluster(c, orbit=o)
                        ids = None
                except Exception as ex:
                    part.violation("orbit given to %s: raised %s" % (src, type(ex).__name__), "%s (step %d): %s" % (case, k, common.exc_text(ex)), case); return
                part.transitions += 1
                # the clock read from the file counts for the orbit; snapshots have no clock
                tg = float(world.num(c.tphys)) * f[3] / 1000.
                if not same_stars(c, e, ids, "orbit given to %s" % src, part, case): return
                labels(c, dict(custom="custom", nemo=c.ctype, snap="snapshot")[src], units, origin, "orbit given to %s" % src, part, case)
                tn = tg / conversion.time_in_Gyr(ro=ro[0], vo=ro[1])
                want = np.array([float(g(tn)) for g in (ref.x, ref.y, ref.z, ref.vx, ref.vy, ref.vz)])
                if src != "snap" and not common.close(tg, t, 1e-7): part.violation("orbit given to %s: time" % src, "%s: %s not %s" % (case, tg, t), case)
                got = orbit_of(c, w)
                if not common.close(got, want, 1e-6, scale=np.max(np.abs(want))): part.violation("orbit given to %s: position" % src, "%s (step %d): %s expected %s" % (case, k, got, want), case)
                if c.orbit is not o: part.violation("orbit given to %s: not kept" % src, str(case), case)
                # the centre found by the loader, wherever its orbit lies
                r = ct.StarCluster(tu, units=units, origin=origin)
                r.rbar, r.zmbar, r.vbar, r.tbar = w.rbar, w.zmbar, w.vbar, w.tbar
                r.add_stars(*[e[n] for n in ALL])
                r.add_orbit(*want, ounits="kpckms")
                r.to_cluster(sortstars=False); r.find_centre(); r.to_origin(origin)
                cc = np.array([float(getattr(c, n + "c")) for n in SIX]); rc = np.array([float(getattr(r, n + "c")) for n in SIX])
                if not common.close(cc, rc, 1e-6, scale=np.max(np.abs(rc)) + 1e-3 / f[0]): part.violation("orbit given to %s: centre" % src, "%s (step %d): %s expected %s" % (case, k, cc, rc), case)
    finally:
        shutil.rmtree(d)
    part.states += 1; part.traces += 1; part.outcome("orbit", src, units, origin, steps)


# ---- a cluster created with an orbit ---------------------------------------------------------------------
def created(item, part):
    units, origin, ro = item
    case = dict(kind="created", item=list(item)); o6 = [5.0, -3.0, 1.5, -50.0, 180.0, 20.0]
    try:
        with common.quiet(), common.limit(60):
            o = mk_orbit(o6, ro[0], ro[1])
            c = ct.StarCluster(0.0, units=units, origin=origin, orbit=o, ro=ro[0], vo=ro[1])
    except Exception as e:
        part.violation("created with orbit: raised %s" % type(e).__name__, "%s: %s" % (case, common.exc_text(e)), case); return
    part.states += 1; part.transitions += 1; part.traces += 1; part.outcome("created", units)
    if units == "radec":
        got = [float(getattr(c, n + "gc")) for n in SIX]; want = [float(g()) for g in (o.ra, o.dec, o.dist, o.pmra, o.pmdec, o.vlos)]
    else:
        w = ones(ro=ro[0], vo=ro[1])
        got = orbit_of(c, w); want = o6
    if not common.close(np.array(got), np.array(want), 1e-6): part.violation("created with orbit: position", "%s: %s expected %s" % (case, got, want), case)
    if c.orbit is not o: part.violation("created with orbit: not kept", str(case), case)


# ---- concentration <-> central potential -------------------------------------------------------------------
def conc(item, part):
    from clustertools.io.limepydf import c_to_w0, w0_to_c
    lo, hi, step = item
    case = dict(kind="conc", item=list(item)); last = -1.0
    for w0 in np.arange(lo, hi, step):
        c = float(w0_to_c(w0)); back = float(c_to_w0(c)); part.states += 1; part.transitions += 2
        if abs(back - w0) > 1e-6: part.violation("concentration not invertible", "W0=%r -> c=%r -> %r" % (w0, c, back), case); return
        if c <= last: part.violation("concentration not increasing", "W0=%r" % w0, case); return
        last = c
    part.traces += 1


# ---- stars added in batches, plain or with AMUSE units, between conversions -------------------------------
BATCH = [[(1.0, -2.0, 0.5, 3.0, -1.0, 2.0, 1.0), (0.3, 0.1, -4.0, -2.0, 0.5, 1.0, 2.5), (-1.5, 2.5, 1.0, 0.2, 0.3, -0.4, 0.5)],
         [(2.0, 2.0, -1.0, -0.5, 1.5, 0.7, 3.0)],
         [(-3.0, 0.7, 0.9, 1.1, -2.2, 0.1, 0.8), (0.4, -0.6, 2.2, -1.3, 0.9, -0.5, 1.2)],
         [(5.0, 5.0, 5.0, 0.0, 0.1, 0.0, 4.0)]]
ORB = np.array([5000., -3000., 1500., -50., 180., 20.])


def batches(item, part):
    from amuse.lab import units as u
    units, origin, orb, hist = item
    case = dict(kind="batches", item=list(item))
    w = world.world5(); st = np.zeros((0, 7)); ids = []; off = ORB if origin == "galaxy" and orb else np.zeros(6); nb = 0
    try:
        with common.quiet(), common.limit(60):
            c = ct.StarCluster(0.0, units=units, origin=origin)
            c.rbar, c.zmbar, c.vbar, c.tbar = w.rbar, w.zmbar, w.vbar, w.tbar
            if orb:
                if units in (None, "amuse"): c.add_orbit(*[v | u.pc for v in ORB[:3]], *[v | u.kms for v in ORB[3:]])
                else:
                    f = w.factors(units); c.add_orbit(*(ORB[:3] / f[0]), *(ORB[3:] / f[1]))
            for k, op in enumerate(hist):
                if op in ("quantities", "plain", "massless"):
                    b = np.array(BATCH[nb % 4]); i = [100 * nb + 7 - j for j in range(len(b))]; nb += 1
                    if op == "massless": b[:, 6] = 1.0
                    g = b[:, :6] + off
                    if op == "plain":
                        f = w.factors(c.units); a = [g[:, j] / (f[0] if j < 3 else f[1]) for j in range(6)] + [b[:, 6] / f[2]]
                    else:
                        a = [(g[:, j] / 1000.) | u.kpc for j in range(3)] + [(g[:, j] * 1000.) | u.m / u.s for j in range(3, 6)] + ([b[:, 6] | u.MSun] if op == "quantities" else [])
                    keep = [np.array(q.number) if hasattr(q, "number") else q.copy() for q in a]
                    c.add_stars(*a, id=np.array(i))
                    if any(not np.array_equal(q.number if hasattr(q, "number") else q, z) for q, z in zip(a, keep)):
                        part.violation("batches: arguments changed", "%s (step %d)" % (case, k), case)
                    st = np.concatenate([st, b]); ids += i
                else:
                    c.to_units(op)
                part.transitions += 1; part.states += 1
                f = w.factors(c.units)
                if c.origin != origin: part.violation("batches: origin", "%s (step %d): %r" % (case, k, c.origin), case)
                am = c.units == "amuse"
                if len(st) and any(hasattr(getattr(c, n), "value_in") != am for n in ALL + ["xgc", "vxgc", "xc", "vxc", "tphys"]):
                    part.violation("batches: quantities and units disagree", "%s (step %d): units %r" % (case, k, c.units), case); return
                exp = {n: (st[:, j] + off[j]) / (f[0] if j < 3 else f[1]) for j, n in enumerate(SIX)}; exp["m"] = st[:, 6] / f[2]
                if not same_stars(c, exp, ids, "batches", part, dict(case, step=k), 4e-5): return
                want = ORB if orb else np.zeros(6)
                got = np.array([float(world.num(getattr(c, n + "gc"))) * (f[0] if j < 3 else f[1]) for j, n in enumerate(SIX)])
                if not common.close(got, want, 4e-5): part.violation("batches: orbit", "%s (step %d): %s" % (case, k, got), case); return
                if len(st) and not common.close(float(world.num(c.mtot)) * f[2], st[:, 6].sum(), 1e-6): part.violation("batches: total mass", "%s (step %d): %s" % (case, k, c.mtot), case); return
    except Exception as e:
        part.violation("batches: raised %s" % type(e).__name__, "%s: %s" % (case, common.exc_text(e)), case); return
    part.traces += 1; part.outcome("batches", units, origin, orb, hist[:2])


def histories(depth):
    ops = ["quantities", "plain", "massless", "amuse", "pckms", "nbody", "kpckms", "galpy"]
    for units, origin, orb in itertools.product([None, "amuse", "pckms", "nbody", "kpckms", "galpy", "WDunits"], ("cluster", "galaxy"), (False, True)):
        for d in range(1, depth + 1):
            for h in itertools.product(ops, repeat=d):
                cur = units or "amuse"; n = 0; ok = True
                if h[0] not in ("quantities", "plain", "massless"): continue
                for op in h:
                    if op in ("quantities", "massless"):
                        n += 1; cur = None if cur != "amuse" and units in (None, "amuse") else cur
                        if units in (None, "amuse"): cur = "amuse"
                    elif op == "plain":
                        ok &= cur != "amuse"; n += 1
                    else:
                        ok &= op != cur; cur = op
                if ok and n < 4: yield (units, origin, orb, h)


KINDS = dict(table=table, amuse=amuse, galpy=galpy, limepy=lime, orbit=with_orbit, created=created, batches=batches, conc=conc)


def tup(v): return tuple(tup(x) for x in v) if isinstance(v, list) else v


def dispatch(item, part): KINDS[item[0]](item[1], part)


def replay(case):
    p = common.Part(); KINDS[case["kind"]](tup(case["item"]), p); return p.violations


def run(ctx):
    t = ctx.thorough
    J = [("table", i) for i in tables(t)]
    if world.HAVE_AMUSE:
        J += [("amuse", i) for i in itertools.product([None, "amuse", "pckms", "pcmyr", "kpckms", "kpcgyr", "WDunits", "galpy"], ORI, (1, 4), ({}, {"sortstars": False}, {"analyze": False}), ("memory", "file", "series"), (False, True))
              if not (i[5] and (i[1] is None or i[4] == "series")) and (t or i[2] == 4 or (i[4] == "memory" and not i[3]))]
    J += [("galpy", i) for i in itertools.product(ORI, (None, "float", "array", "int"), (1, 4), ((8.0, 220.0), (8.275, 239.23), (8.3, 211.0)), (False, True), ({}, {"sortstars": False}, {"analyze": False}), (False, True)) if not (i[6] and i[0] is None)]
    if world.HAVE_AMUSE: J += [("batches", i) for i in histories(4 if t else 3)]
    try:
        import limepy
        J += [("limepy", i) for i in itertools.product(range(len(SPECS)), ("args", "model"), ("N", "mbar"), ("pckms", "kpckms", "nbody") if not t else UN, ("cluster", "galaxy"), (None, "file", "orbit"))
              if not (i[3] == "nbody" and "M" in SPECS[i[0]] and i[5] is None) and not (i[4] == "galaxy" and not i[5]) and (t or i[2] == "N" or i[0] < 2)]
    except ImportError:
        pass
    J += [("orbit", i) for i in itertools.product(("custom", "nemo", "snap"), UN, ("centre", "cluster", "galaxy"), (0.0, 0.4), ((8.0, 220.0), (8.275, 239.23)), (0, 1, 2) if t else (0, 2))
          if not (i[0] == "snap" and i[3]) and not (i[0] == "nemo" and i[1] == "nbody")]
    J += [("created", i) for i in itertools.product(list(UN) + ["radec"] + (["amuse"] if world.HAVE_AMUSE else []), (None, "cluster", "galaxy", "sky"), ((8.0, 220.0), (8.275, 239.23))) if (i[1] == "sky") == (i[0] == "radec")]
    J += [("conc", (a, a + 0.6, 0.0037)) for a in np.arange(0.5, 18.5, 0.6)]
    ctx.pmap(dispatch, J, chunk=4)
    ctx.bounds = dict(units=UN, origins=ORI, sources=list(KINDS), table_names="every combination of accepted column names", cases=len(J))
    ctx.assumptions = ["limepy's own sampler (seeded) and galpy's orbit evaluation are trusted", "units attached to table columns are ignored by the package and not claimed"]
    ctx.explanation = "finite product of sources, units, origins and options enumerated completely on the real loaders, each compared star by star with the source"
