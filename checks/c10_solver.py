"""C10: lens parameters solved from image positions, inside and outside the parameter mapping."""
import copy, warnings
import numpy as np
import images as IM
import lenscat as LC
from lenscat import U

RULE = ("one signature per (solver type, first lens model, further deflectors, planes, use inside the parameter mapping); images of a known lens found by an independent image finder, "
        "the lens recovered from perturbed starting values")
ASSUMPTIONS = ["convergence is demanded only from starting values within a few per cent of a lens that produced the images; otherwise only the reported accuracy must be truthful"]
REQUIRED = ["check:satisfied", "check:accuracy", "check:unchanged", "check:inputs", "check:recovered", "check:param", "check:history", "check:checksolver", "check:invariant"]
TIMEOUT = 120

QUAD = ["SPEP", "SIE", "NIE", "EPL", "EPL_BOXYDISKY", "EPL_MULTIPOLE_M3M4", "EPL_MULTIPOLE_M1M3M4", "EPL_MULTIPOLE_M3M4_ELL", "EPL_MULTIPOLE_M1M3M4_ELL", "EPL_BOXYDISKY_ELL",
        "NFW_ELLIPSE_POTENTIAL", "CNFW_ELLIPSE_POTENTIAL", "NFW_ELLIPSE_CSE", "SHAPELETS_CART"]
TWO = ["CENTER", "ELLIPSE", "SHAPELETS", "THETA_E_PHI", "THETA_E_ELLIPSE"]


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for kind, n in (("four", 60 if q else 900), ("two", 40 if q else 600), ("param", 44 if q else 700), ("far", 16 if q else 200)):
        out += [dict(name="%s/%d" % (kind, i), kind=kind, i=i, group=kind) for i in range(n)]
    out += [dict(name="bpl/%d" % i, kind="four", i=i, group="four", model="BPL", cost=100) for i in range(1 if q else 16)]
    return out


def run(case, mon, rng):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + case["kind"]](case, mon, rng)


def first(rng, m):
    e1, e2 = LC.ell(rng, .2)
    if abs(e1) + abs(e2) < .06:
        e1 += .1
    c = dict(center_x=U(rng, -.2, .2), center_y=U(rng, -.2, .2))
    b = dict(theta_E=U(rng, .8, 1.4), e1=e1, e2=e2, **c)
    g = dict(b, gamma=U(rng, 1.8, 2.2))
    if m in ("SIE",):
        return b
    if m == "NIE":
        return dict(b, s_scale=U(rng, .02, .1))
    if m in ("EPL", "SPEP", "PEMD"):
        return g
    if m in ("EPL_BOXYDISKY", "EPL_BOXYDISKY_ELL"):
        return dict(g, a4_a=U(rng, -.02, .02))
    if m.startswith("EPL_MULTIPOLE"):
        d = dict(g, a3_a=U(rng, 0, .01), delta_phi_m3=U(rng, -.4, .4), a4_a=U(rng, -.01, .01), delta_phi_m4=U(rng, -.3, .3))
        if "M1" in m:
            d.update(a1_a=U(rng, 0, .01), delta_phi_m1=U(rng, -.5, .5))
        return d
    if m in ("NFW_ELLIPSE_POTENTIAL", "NFW_ELLIPSE_CSE"):
        return dict(alpha_Rs=U(rng, 1.8, 2.5), Rs=U(rng, 2, 5), e1=e1 / 2, e2=e2 / 2, **c)
    if m == "CNFW_ELLIPSE_POTENTIAL":
        return dict(alpha_Rs=U(rng, 1.8, 2.5), Rs=U(rng, 2, 4), r_core=U(rng, .05, .2), e1=e1 / 2, e2=e2 / 2, **c)
    if m == "BPL":
        return dict(b=U(rng, .9, 1.3), a=U(rng, 1.8, 2.2), a_c=U(rng, 1., 1.5), r_c=U(rng, .1, .3), e1=e1, e2=e2, **c)
    if m in ("SHAPELETS_CART", "SHAPELETS_POLAR"):
        return dict(coeffs=[0.] + [U(rng, -.03, .03) for _ in range(9)], beta=U(rng, 1., 1.6), center_x=0., center_y=0.)
    raise KeyError(m)


def rest(rng, m, shear):
    """further deflectors; the first one is a shear when the solver needs it"""
    ms, kw = [], []
    if shear == "SHEAR":
        g, p = U(rng, .03, .1), U(rng, 0, 3)
        ms, kw = ["SHEAR"], [dict(gamma1=g * np.cos(2 * p), gamma2=g * np.sin(2 * p), ra_0=0., dec_0=0.)]
    elif shear == "SHEAR_GAMMA_PSI":
        ms, kw = ["SHEAR_GAMMA_PSI"], [dict(gamma_ext=U(rng, .03, .1), psi_ext=U(rng, .2, 2.8), ra_0=0., dec_0=0.)]
    if m.startswith("SHAPELETS"):
        ms.append("SIE")
        kw.append(first(rng, "SIE"))
    elif not ms and rng.integers(2):
        ms.append("SHEAR")
        kw.append(dict(gamma1=U(rng, -.06, .06), gamma2=U(rng, -.06, .06), ra_0=0., dec_0=0.))
    if rng.integers(2):
        ms.append(str(rng.choice(["SIS", "NFW", "CONVERGENCE"])))
        kw.append(dict(SIS=dict(theta_E=U(rng, .02, .1), center_x=U(rng, 2, 4), center_y=U(rng, -2, 2)), NFW=dict(Rs=U(rng, 1, 3), alpha_Rs=U(rng, .02, .1), center_x=U(rng, -3, 3), center_y=3.),
                       CONVERGENCE=dict(kappa=U(rng, -.05, .05), ra_0=0., dec_0=0.))[ms[-1]])
    return ms, kw


SOLVED = dict(CENTER=["center_x", "center_y"], ELLIPSE=["e1", "e2"], SHAPELETS=["coeffs"], THETA_E_PHI=["theta_E"], THETA_E_ELLIPSE=["theta_E", "e1", "e2"])


class World:
    def __init__(self, rng, n, stype=None, multi=None, model=None):
        self.n = n
        for _ in range(60):
            if n == 4:
                self.stype = stype or str(rng.choice(["PROFILE", "PROFILE_SHEAR", "PROFILE_SHEAR", "CUSTOM"]))
                m = model or str(rng.choice(QUAD))
                if self.stype == "CUSTOM":
                    m = "EPL"
                sh = str(rng.choice(["SHEAR", "SHEAR_GAMMA_PSI"])) if self.stype in ("PROFILE_SHEAR",) else "SHEAR" if self.stype == "CUSTOM" else None
            else:
                self.stype = stype or str(rng.choice(TWO))
                m = str(rng.choice(["SHAPELETS_CART", "SHAPELETS_POLAR"])) if self.stype == "SHAPELETS" else str(rng.choice(["SIE", "EPL", "NIE", "SPEP"]))
                sh = "SHEAR" if self.stype == "THETA_E_PHI" else None
            ms, kw = rest(rng, m, sh)
            self.models, self.kw = [m] + ms, [first(rng, m)] + kw
            self.args = dict(lens_model_list=self.models)
            self.multi = bool(rng.integers(4) == 0) if multi is None else multi
            if self.multi:
                self.args.update(multi_plane=True, z_source=2., lens_redshift_list=[.5] + [.5 if j == 0 and sh else float(rng.choice([.3, .5, .9])) for j in range(len(ms))])
            elif rng.integers(4) == 0:
                self.args.update(z_lens=.5, z_source=1.2, z_source_convention=1.8)
            b = np.array([self.kw[0].get("center_x", 0), self.kw[0].get("center_y", 0)])
            if m.startswith("SHAPELETS"):
                j = self.models.index("SIE")
                b = np.array([self.kw[j]["center_x"], self.kw[j]["center_y"]])
            f = self.shoot()
            if n == 4:
                ph = np.arange(8) * np.pi / 4
                b0 = np.mean(np.array(f(b[0] + 1.0 * np.cos(ph), b[1] + 1.0 * np.sin(ph))), axis=1)
                r = U(rng, .005, .06)
            else:
                b0, r = b, U(rng, .1, .4)
            p = U(rng, 0, 7)
            bx, by = b0[0] + r * np.cos(p), b0[1] + r * np.sin(p)
            x, y, mu = IM.find(f, bx, by, 6., b[0], b[1], n=36 if m == "BPL" else 140)
            ok = (np.abs(mu) > .15) & (np.abs(mu) < 40)
            x, y, mu = x[ok], y[ok], mu[ok]
            if len(x) < n:
                continue
            if n == 2:
                # the pair furthest apart
                d = np.hypot(x[:, None] - x[None], y[:, None] - y[None])
                i, j = np.unravel_index(np.argmax(d), d.shape)
                x, y = x[[i, j]], y[[i, j]]
            else:
                k = np.argsort(-np.abs(mu))[:4]
                x, y = x[k], y[k]
            self.x, self.y = np.array(x), np.array(y)
            return
        self.x = None

    def build(self, args=None):
        from lenstronomy.LensModel.lens_model import LensModel
        return LensModel(**copy.deepcopy(args or self.args))

    def shoot(self, kw=None, args=None):
        m = self.build(args)
        k = copy.deepcopy(self.kw if kw is None else kw)
        return lambda x, y: m.ray_shooting(np.asarray(x, float), np.asarray(y, float), k)

    def free(self):
        """(component, name) of what the solver may change"""
        if self.n == 2:
            out = [(0, p) for p in SOLVED[self.stype]]
            return out + ([(1, "gamma1"), (1, "gamma2")] if self.stype == "THETA_E_PHI" else [])
        if self.stype == "CUSTOM":
            return [(0, p) for p in ("theta_E", "e1", "e2", "center_x", "center_y")] + [(1, "gamma1"), (1, "gamma2")]
        m = self.models[0]
        base = ["coeffs"] if m == "SHAPELETS_CART" else ["b" if m == "BPL" else "alpha_Rs" if "NFW" in m else "theta_E", "e1", "e2", "center_x", "center_y"]
        out = [(0, p) for p in base]
        if self.stype == "PROFILE_SHEAR":
            out += [(1, "psi_ext")] if self.models[1] == "SHEAR_GAMMA_PSI" else [(1, "gamma1"), (1, "gamma2")]
        return out

    def start(self, rng, s):
        kw = copy.deepcopy(self.kw)
        for i, p in self.free():
            if p in ("gamma1", "gamma2"):
                continue
            if p == "coeffs":
                n = range(1, 6) if self.n == 4 else range(1, 3)
                for j in n:
                    kw[i][p][j] += U(rng, -s, s) * .1
            elif p in ("e1", "e2") and self.stype == "THETA_E_ELLIPSE":
                continue
            elif p in ("theta_E", "b", "alpha_Rs"):
                kw[i][p] *= 1 + U(rng, -s, s)
            else:
                kw[i][p] += U(rng, -s, s)
        # angles are solved at fixed strength
        a = U(rng, -s, s)
        R = lambda u, v: (u * np.cos(2 * a) - v * np.sin(2 * a), u * np.sin(2 * a) + v * np.cos(2 * a))
        if self.stype == "THETA_E_ELLIPSE":
            kw[0]["e1"], kw[0]["e2"] = R(kw[0]["e1"], kw[0]["e2"])
        if (1, "gamma1") in self.free():
            kw[1]["gamma1"], kw[1]["gamma2"] = R(kw[1]["gamma1"], kw[1]["gamma2"])
        return kw

    def custom(self):
        """solve the profile and the shear angle, as PROFILE_SHEAR does, through a user class"""
        if self.stype != "CUSTOM":
            return None

        class Module:
            @staticmethod
            def update_kwargs(x, kwargs):
                g = np.hypot(kwargs[1]["gamma1"], kwargs[1]["gamma2"])
                for p, v in zip(("theta_E", "e1", "e2", "center_x", "center_y"), x[:5]):
                    kwargs[0][p] = v
                kwargs[1]["gamma1"], kwargs[1]["gamma2"] = g * np.cos(2 * x[5]), g * np.sin(2 * x[5])
                return kwargs

            @staticmethod
            def extract_array(kwargs):
                return [kwargs[0][p] for p in ("theta_E", "e1", "e2", "center_x", "center_y")] + [.5 * np.arctan2(kwargs[1]["gamma2"], kwargs[1]["gamma1"])]

            @staticmethod
            def add_fixed_lens(fixed, init):
                for p in ("theta_E", "e1", "e2", "center_x", "center_y"):
                    fixed[0][p] = init[0][p]
                return fixed
        return Module()

    def info(self):
        return dict(models=self.models, stype=self.stype, n=self.n, args=self.args, kw=self.kw, x=self.x, y=self.y)


def solver(w):
    from lenstronomy.LensModel.Solver.solver import Solver
    return Solver(solver_type=w.stype, lensModel=w.build(), num_images=w.n, parameter_module=w.custom())


def spread(w, kw, args=None, x=None, y=None):
    u, v = w.shoot(kw, args)(w.x if x is None else x, w.y if y is None else y)
    return float(np.max(np.hypot(u - u[0], v - v[0])))


def reference(w, start, args, x, y):
    """does a plain root search on the lens equation itself succeed from these starting values (and from slightly different ones)?"""
    from scipy.optimize import fsolve
    st = copy.deepcopy(start)
    m = w.build(args)
    free = [(i, p) for i, p in w.free() if p not in ("gamma1", "gamma2") and not (w.stype == "THETA_E_ELLIPSE" and p in ("e1", "e2"))]
    pair = (1, "gamma1", "gamma2") if (1, "gamma1") in w.free() else (0, "e1", "e2") if w.stype == "THETA_E_ELLIPSE" else None
    num = 5 if w.n == 4 else 2

    def pack(k):
        z = []
        for i, p in free:
            z += list(k[i][p][1:1 + num]) if p == "coeffs" else [k[i][p]]
        if pair:
            z.append(.5 * np.arctan2(k[pair[0]][pair[2]], k[pair[0]][pair[1]]))
        return np.array(z, float)

    def put(z):
        k, z = copy.deepcopy(st), list(z)
        for i, p in free:
            if p == "coeffs":
                k[i][p] = list(k[i][p])
                k[i][p][1:1 + num] = [z.pop(0) for _ in range(num)]
            else:
                k[i][p] = z.pop(0)
        if pair:
            g, a = np.hypot(st[pair[0]][pair[1]], st[pair[0]][pair[2]]), z.pop(0)
            k[pair[0]][pair[1]], k[pair[0]][pair[2]] = g * np.cos(2 * a), g * np.sin(2 * a)
        return k
    z0 = pack(st)
    nd = 2 * (w.n - 1) - len(z0)

    def F(z):
        u, v = m.ray_shooting(x, y, put(z[:len(z0)]))
        return np.append(u[1:] - u[0], v[1:] - v[0])
    for t in (0, 1e-3, -1e-3):
        z = fsolve(F, np.append(z0 * (1 + t), np.zeros(nd)), xtol=1.49012e-12)
        if not np.max(np.abs(F(z))) < 1e-8:
            return False
    return True


def only(mon, key, w, got, start, c):
    free = w.free()
    for i in range(len(start)):
        mon.check(key + "/names", set(got[i]) == set(start[i]), "parameters of deflector %d" % i, **c)
        for p in start[i]:
            if (i, p) not in free:
                mon.check(key, np.array_equal(got[i][p], start[i][p]), "parameter %s of deflector %d changed by the solver" % (p, i), **c)
            elif p == "coeffs":
                k = 6 if w.n == 4 else 3
                mon.check(key + "/coeffs", len(got[i][p]) == len(start[i][p]) and got[i][p][0] == start[i][p][0] and list(got[i][p][k:]) == list(start[i][p][k:]), "coefficients that are not solved for changed", **c)
    inv = []
    if (1, "gamma1") in free:
        inv.append((np.hypot(got[1]["gamma1"], got[1]["gamma2"]), np.hypot(start[1]["gamma1"], start[1]["gamma2"]), "shear strength"))
    if w.stype == "THETA_E_ELLIPSE":
        inv.append((np.hypot(got[0]["e1"], got[0]["e2"]), np.hypot(start[0]["e1"], start[0]["e2"]), "ellipticity"))
    for a, b, t in inv:
        mon.close("invariant/" + key, a, b, 1e-7, 1e-9, "%s changed by the solver" % t, **c)


def recovered(mon, w, got, c):
    for i, p in w.free():
        a, b = np.asarray(got[i][p], float), np.asarray(w.kw[i][p], float)
        if p == "psi_ext":
            mon.close("recovered/angle", np.cos(2 * a), np.cos(2 * b), 0, 2e-3, "angle", **c)
            continue
        mon.close("recovered/" + p, a, b, 2e-3, 2e-3, "%s of deflector %d" % (p, i), **c)


def once(mon, w, rng, S, s, c, strict=True):
    kw = w.start(rng, s)
    k0 = copy.deepcopy(kw)
    x0, y0 = w.x.copy(), w.y.copy()
    got, acc = S.constraint_lensmodel(w.x, w.y, kw)
    mon.check("inputs/kwargs", repr(kw) == repr(k0), "starting values altered", **c)
    mon.check("inputs/positions", np.array_equal(w.x, x0) and np.array_equal(w.y, y0), "positions altered", **c)
    only(mon, "unchanged", w, got, k0, c)
    d = spread(w, got)
    u, v = w.shoot(got)(w.x, w.y)
    true = float(np.sum((u[0] - u[1:]) ** 2 + (v[0] - v[1:]) ** 2))
    mon.check("accuracy/reported", abs(acc - true) <= 1e-6 * true + 1e-17, "reported accuracy %.3g, true %.3g" % (acc, true), **c)
    ds = S.check_solver(w.x, w.y, got)
    mon.close("checksolver/distance", np.asarray(ds), np.hypot(u - u[0], v - v[0]), 1e-6, 1e-12, "distances in the source plane", **c)
    if strict:
        ok = d < 1e-7 or not reference(w, k0, None, w.x, w.y)
        mon.event("solved" if d < 1e-7 else "hard")
        mon.check("satisfied/" + w.stype, ok, "solved lens leaves the images %.3g apart in the source plane" % d, start=k0, got=got, **c)
        k2 = S.update_solver(copy.deepcopy(k0), w.x, w.y)
        mon.check("satisfied/update", repr(k2) == repr(got), "update_solver differs from constraint_lensmodel", **c)
    return got, d


def run_four(case, mon, rng):
    w = World(rng, 4, model=case.get("model", QUAD[case["i"] % len(QUAD)]))
    if w.x is None:
        return
    c = w.info()
    S = solver(w)
    s = .01
    if w.models[0] == "SHAPELETS_CART" or "NFW" in w.models[0]:
        s = .004
    got, d = once(mon, w, rng, S, s, c)
    if d < 1e-8 and w.stype != "PROFILE":
        pass
    got2, d2 = once(mon, w, rng, S, s, c)
    # the starting values are only a guess
    if w.stype == "PROFILE" and w.models[0] != "SHAPELETS_CART":
        recovered(mon, w, got, c)
    mon.nontrivial("four", w.stype, tuple(w.models), w.multi)


def run_two(case, mon, rng):
    w = World(rng, 2, stype=TWO[case["i"] % len(TWO)])
    if w.x is None:
        return
    c = w.info()
    S = solver(w)
    for _ in range(2):
        got, d = once(mon, w, rng, S, .01, c)
    if w.stype == "CENTER":
        recovered(mon, w, got, c)
    mon.nontrivial("two", w.stype, tuple(w.models), w.multi)


def run_far(case, mon, rng):
    """far from a solution: whatever comes back, what is reported about it is true"""
    w = World(rng, int(rng.choice([2, 4])))
    if w.x is None:
        return
    S = solver(w)
    c = w.info()
    once(mon, w, rng, S, .15, c, strict=False)
    mon.nontrivial("far", w.stype, tuple(w.models))


def at(w, opts, zz):
    a = dict(w.args)
    if "lens_redshift_sampling_indexes" in opts:
        a["lens_redshift_list"] = [zz[0] if j == 0 else q for j, q in zip(opts["lens_redshift_sampling_indexes"], w.args["lens_redshift_list"])]
    return a


def other(w, rng, a):
    """images of another lens of the family that the solver searches, so that a solution is known to exist nearby"""
    for _ in range(10):
        f = w.shoot(w.start(rng, .002), a)
        u, v = f(w.x, w.y)
        p = [IM.newton(f, x, y, np.mean(u), np.mean(v), .02) for x, y in zip(w.x, w.y)]
        if any(q is None for q in p):
            continue
        x, y = np.array([q[0] for q in p], float), np.array([q[1] for q in p], float)
        u, v = f(x, y)
        if np.max(np.hypot(x - w.x, y - w.y)) < .1 and np.max(np.hypot(u - u[0], v - v[0])) < 1e-9:
            return x, y
    return None, None


def began(w, init, kw):
    k = copy.deepcopy(kw)
    for i, p in w.free():
        if p not in ("gamma1", "gamma2", "psi_ext") and not (w.stype == "THETA_E_ELLIPSE" and p in ("e1", "e2")):
            k[i][p] = copy.deepcopy(init[i][p])
    return k


def run_param(case, mon, rng):
    """inside the mapping of a fit: every vector gives a lens that satisfies the positions in that vector"""
    from lenstronomy.Sampling.parameters import Param
    z = bool(rng.integers(4) == 0)
    w = World(rng, int(rng.choice([2, 4])), multi=True if z else None)
    if w.x is None:
        return
    init = w.start(rng, .004)
    km = dict(lens_model_list=list(w.models), point_source_model_list=["LENSED_POSITION"], source_light_model_list=["SERSIC"])
    km.update({k: copy.deepcopy(v) for k, v in w.args.items() if k != "lens_model_list"})
    if w.args.get("z_lens"):
        km.pop("z_lens", None), km.pop("z_source", None), km.pop("z_source_convention", None)
        w.args = dict(lens_model_list=w.models)
        # a lens given at the convention redshift: images found again
        x, y, mu = IM.find(w.shoot(), *[float(v[0]) for v in w.shoot()(w.x[:1], w.y[:1])], 6., 0., 0., n=140)
        ok = np.abs(mu) > .15
        if np.sum(ok) < w.n:
            return
        x, y = x[ok], y[ok]
        if w.n == 2:
            d = np.hypot(x[:, None] - x[None], y[:, None] - y[None])
            i, j = np.unravel_index(np.argmax(d), d.shape)
            x, y = x[[i, j]], y[[i, j]]
        w.x, w.y = x[:w.n], y[:w.n]
        if len(w.x) > 4 or (w.n == 4 and np.sum(ok) != 4):
            return
    fixed = [{p: copy.deepcopy(v) for p, v in k.items() if p not in ("gamma",)} for k in w.kw]
    for i, p in w.free():
        fixed[i].pop(p, None)
    opts = {}
    if z and len(w.models) > 1:
        opts = dict(lens_redshift_sampling_indexes=[0] + [0 if j == 1 and w.models[1].startswith("SHEAR") else -1 for j in range(1, len(w.models))])
        if w.args["lens_redshift_list"][0] != .5:
            return
    joint = bool(rng.integers(2))
    if joint:
        opts["joint_source_with_point_source"] = [[0, 0]]
    nsh = len(w.kw[0]["coeffs"]) if "coeffs" in w.kw[0] else 0
    P = Param(km, kwargs_fixed_lens=copy.deepcopy(fixed), kwargs_lens_init=copy.deepcopy(init), solver_type=w.stype, num_point_source_list=[w.n], num_shapelet_lens=nsh, solver_param_module=w.custom(),
              **opts)
    c = dict(w.info(), fixed=fixed, init=init, opts=opts)
    num, names = P.num_param()
    for i, p in w.free():
        if p in ("gamma1", "gamma2", "psi_ext", "coeffs") or (w.stype == "THETA_E_ELLIPSE" and p == "e1"):
            continue
        mon.check("param/notsampled", "%s_lens%d" % (p, i) not in names, "solved parameter %s is sampled" % p, names=names, **c)
    src = dict(R_sersic=.3, n_sersic=1., center_x=.1, center_y=-.1, amp=1.)
    keep = []
    for r in range(3):
        if r < 2:
            kw = copy.deepcopy(w.kw)
            for t, i, p, q in (("THETA_E_PHI", 1, "gamma1", "gamma2"), ("THETA_E_ELLIPSE", 0, "e1", "e2")):
                if w.stype == t:    # the first component holds the strength, the second is fixed to zero
                    kw[i][p], kw[i][q] = float(np.sign(kw[i][p])) * np.hypot(kw[i][p], kw[i][q]), 0.
            zz = [.5 if r == 0 else U(rng, .47, .53)]
            x, y = other(w, rng, at(w, opts, zz))
            if x is None:
                mon.event("no-family-member")
                return
            vec = P.kwargs2args(kwargs_lens=kw, kwargs_source=[src], kwargs_lens_light=[], kwargs_ps=[dict(ra_image=x, dec_image=y, point_amp=np.ones(w.n))], kwargs_special=dict(z_sampling=zz),
                                kwargs_extinction=[], kwargs_tracer_source=[])
            mon.check("param/length", len(vec) == num, "length of the vector", got=len(vec), want=num, **c)
        else:
            vec, x, y, zz = keep[0][:4]
        out = P.args2kwargs(vec.copy())
        a = at(w, opts, zz)
        d = spread(w, out["kwargs_lens"], a, x, y)
        mon.event("solved" if d < 1e-7 else "hard")
        mon.check("param/satisfied", d < 1e-7 or not reference(w, began(w, init, kw), a, x, y), "lens of the vector leaves its images %.3g apart in the source plane" % d, vec=vec, got=out["kwargs_lens"], z=zz, **c)
        mon.close("param/checksolver", P.check_solver(out["kwargs_lens"], out["kwargs_ps"]), d, 1e-6, 1e-10, "check_solver", z=zz, **c)
        mon.close("param/positions", np.array([out["kwargs_ps"][0]["ra_image"], out["kwargs_ps"][0]["dec_image"]]), np.array([x, y]), 0, 1e-14, "positions of the vector", **c)
        if joint:
            u, v = w.shoot(out["kwargs_lens"], a)(x, y)
            mon.close("param/joint", np.array([out["kwargs_source"][0]["center_x"], out["kwargs_source"][0]["center_y"]]), np.array([np.mean(u), np.mean(v)]), 1e-8, 1e-8, "source joined to the images", **c)
        if r == 2:
            mon.check("history/param", repr(out["kwargs_lens"]) == repr(keep[0][4]["kwargs_lens"]), "same vector, different lens", **c)
        keep.append((vec, x, y, zz, out))
    mon.nontrivial("param", w.stype, tuple(w.models), w.multi, tuple(sorted(opts)))
