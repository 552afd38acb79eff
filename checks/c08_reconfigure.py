"""C08: random histories of reconfiguration and evaluation; every observation is compared with a freshly
built model holding the final settings."""
import copy
import numpy as np
import lenscat
from lenscat import U
from lenstronomy.LensModel.lens_model import LensModel

RULE = ("a trace monitor keeps the abstract state (parameters frozen or free, source redshift, cosmology) of a lens model "
        "through a random history of set_static / set_dynamic / change_source_redshift / update_cosmology / evaluation calls "
        "and compares every evaluation with a newly constructed model in that state")
REQUIRED = ["check:profile", "check:single", "check:multi", "check:decoupled", "check:los", "ev:static-eval", "ev:dynamic-after-static",
            "ev:redshift", "ev:cosmo"]
EXTRA = ["RADIAL_INTERPOL", "GREENBOSCH", "INTERPOL"]


SLOW = ("GNFW", "GNFW_ELLIPSE_GAUSS_DEC", "GreenBoschNFW", "GREENBOSCH")


def cases(tier, seed):
    out = []
    rep = 1 if tier == "quick" else 6
    for n in lenscat.names():
        for i in range(rep):
            if i > 1 and n in SLOW:
                continue
            out.append(dict(name="profile/%s#%d" % (n, i), group="profile/" + n, kind="profile", p=n, i=i, cost=9 if n in SLOW else 1))
    for i in range(2 * rep):
        out.append(dict(name="radial#%d" % i, group="radial", kind="radial"))
        out.append(dict(name="greenbosch#%d" % i, group="greenbosch", kind="greenbosch"))
    for i in range(8 * rep):
        out.append(dict(name="single#%d" % i, group="single", kind="single"))
        out.append(dict(name="multi#%d" % i, group="multi", kind="multi"))
        out.append(dict(name="los#%d" % i, group="los", kind="los"))
    for i in range(4 * rep):
        out.append(dict(name="mpclass#%d" % i, group="mpclass", kind="mpclass"))
    for i in range(4 * rep):
        out.append(dict(name="decoupled#%d" % i, group="decoupled", kind="decoupled"))
    return out


def run(case, mon, rng):
    globals()["run_" + case["kind"]](case, mon, rng)


def pts(rng, n=6):
    r = rng.uniform(.3, 2.5, n)
    f = rng.uniform(0, 2 * np.pi, n)
    return r * np.cos(f), r * np.sin(f)


def observe(m, x, y, kw, pot=True, what=None):
    out = {}
    for name, f in (("potential", m.potential), ("alpha", m.alpha), ("hessian", m.hessian)):
        if name == "potential" and not pot:
            continue
        try:
            out[name] = np.array(f(x, y, kw), dtype=float)
        except Exception as e:   # documented as unavailable (then the fresh model refuses as well)
            out[name] = type(e).__name__
    return out


def compare(mon, key, got, want, rtol=1e-10, **ctx):
    for k in want:
        if isinstance(want[k], str) or isinstance(got[k], str):
            mon.check(key + "/" + k, isinstance(want[k], str) and isinstance(got[k], str) and want[k] == got[k],
                      "availability differs from a fresh model: %s vs %s" % (str(got[k])[:60], str(want[k])[:60]), **ctx)
        elif not np.all(np.isfinite(want[k])):
            continue
        else:
            mon.close(key + "/" + k, got[k], want[k], rtol, 1e-12 * max(1., float(np.max(np.abs(want[k])))),
                      "differs from a freshly built model", **ctx)


# ---------------------------------------------------------------- profiles
def run_profile(case, mon, rng):
    n = case["p"]
    inits = lenscat.init_variants(n)
    init = inits[int(rng.integers(len(inits)))]
    A = lenscat.params(n, rng)
    B = lenscat.params(n, rng)
    drive(mon, rng, "profile/" + n, lambda: lenscat.model(n, init), [[A], [B]], steps=0 if n in SLOW else 9, slow=n in SLOW)


def drive(mon, rng, key, build, sets, steps=9, slow=False):
    m = build()
    static = None
    hist = []
    ops = ["evalA", "evalB", "static0", "eval", "evalpos", "dynamic", "evalB", "static1", "eval", "static0", "eval", "dynamic", "evalA", "evalB"]
    # scripted prefix (all the transitions) followed by random operations
    ops = ops + [str(o) for o in rng.choice(["evalA", "evalB", "eval", "static0", "static1", "dynamic"], steps)]
    if slow:
        ops = ["evalA", "static1", "eval", "static0", "eval", "dynamic", "evalB"]
    x, y = pts(rng, 2 if slow else 6)
    refs = [observe(build(), x, y, copy.deepcopy(s)) for s in sets]
    was_static = False
    for o in ops:
        if o.startswith("static"):
            if static is not None and len(hist) > 14 and rng.integers(2):
                m.set_dynamic()
            static = int(o[-1])
            m.set_static(copy.deepcopy(sets[static]))
            mon.event("ev:static")
            was_static = True
        elif o == "dynamic":
            m.set_dynamic()
            static = None
        elif o == "evalpos":
            x2, y2 = pts(rng, 3)
            k = static if static is not None else 0
            got = observe(m, x2, y2, copy.deepcopy(sets[k]))
            compare(mon, key, got, observe(build(), x2, y2, copy.deepcopy(sets[k])), history=hist)
            mon.event("ev:evaluated")
        else:
            k = {"evalA": 0, "evalB": 1}.get(o, int(rng.integers(2)))
            if static is not None:
                k = static
                mon.event("ev:static-eval")
            elif was_static:
                mon.event("ev:dynamic-after-static")
            got = observe(m, x, y, copy.deepcopy(sets[k]))
            mon.event("ev:evaluated")
            mon.nontrivial(key, o, static, len(hist))
            compare(mon, key, got, refs[k], history=hist, params=sets[k])
        hist.append(o)


def run_radial(case, mon, rng):
    def p():
        r = np.sort(rng.uniform(0.02, 4, 18))
        return [dict(r_bin=r, kappa_r=np.sort(rng.uniform(.05, 2, 18))[::-1], center_x=U(rng, -.2, .2), center_y=U(rng, -.2, .2))]
    drive(mon, rng, "profile/RADIAL_INTERPOL", lambda: LensModel(["RADIAL_INTERPOL"]), [p(), p()], steps=4)


def run_greenbosch(case, mon, rng):
    def p():
        return [dict(f_b=U(rng, .1, .9), c_s=U(rng, 5, 20), Rs=U(rng, .5, 2), rho0ang=U(rng, .1, 1), center_x=U(rng, -.2, .2), center_y=U(rng, -.2, .2))]
    from lenstronomy.LensModel.profile_list_base import _SUPPORTED_MODELS
    name = [m for m in _SUPPORTED_MODELS if m.upper().startswith("GREENBOSCH")][0]
    drive(mon, rng, "profile/" + name, lambda: LensModel([name]), [p(), p()], steps=3)


# ---------------------------------------------------------------- single plane
SAFE = ["EPL", "SIE", "NIE", "SHEAR", "NFW", "SIS", "CHAMELEON", "DOUBLE_CHAMELEON", "TRIPLE_CHAMELEON", "HERNQUIST", "CONVERGENCE",
        "NIE_POTENTIAL", "BPL", "TNFW", "GAUSSIAN", "SPEMD" if False else "SIE", "NFW_ELLIPSE_CSE", "EPL_NUMBA", "MULTIPOLE", "UNIFORM" if False else "SIS", "SHEAR_REDUCED"]


def cosmologies(rng):
    from astropy.cosmology import FlatLambdaCDM, LambdaCDM, FlatwCDM
    k = int(rng.integers(3))
    if k == 0:
        return FlatLambdaCDM(H0=U(rng, 60, 80), Om0=U(rng, .15, .45))
    if k == 1:
        return LambdaCDM(H0=U(rng, 60, 80), Om0=U(rng, .15, .45), Ode0=U(rng, .5, .8))
    return FlatwCDM(H0=U(rng, 60, 80), Om0=U(rng, .15, .45), w0=U(rng, -1.4, -.7))


def plist(rng, n, pool=SAFE):
    pool = [p for p in pool if p in lenscat.names()]
    return [str(p) for p in rng.choice(pool, n)]


def physical(m, x, y, kw, zd=True, arrival=True):
    out = observe(m, x, y, kw, pot=not m.multi_plane)
    out["ray"] = np.array(m.ray_shooting(x, y, kw))
    out["mag"] = np.array(m.magnification(x, y, kw)) if False else np.array(m.kappa(x, y, kw))
    if arrival:
        t = np.array(m.arrival_time(x, y, kw))
        out["arrival"] = t
        if not m.multi_plane:
            out["fermat"] = np.array(m.fermat_potential(x, y, kw))
            out["ddt_scaling"] = np.array(m.ddt_scaling)
    out["z_source"] = np.array(m.z_source)
    return out


def history(mon, rng, key, m, build, names, kws, st, ops, n, zmin=None, zmax=None, conv_static_ok=True, arrival=True):
    x, y = pts(rng, 5)
    static = None
    hist = []
    zs = [float(st["z_source"]), U(rng, zmin, zmax), U(rng, zmin, zmax)]
    cs = [st["cosmo"], cosmologies(rng)]
    was = False
    retur = None
    for i in range(n):
        o = str(rng.choice(ops))
        if o == "static" and static is None:
            static = int(rng.integers(2))
            retur = m.set_static(copy.deepcopy(kws[static]))
            was = True
        elif o == "dynamic":
            m.set_dynamic()
            static = None
        elif o == "z" and (static is None or conv_static_ok):
            z = zs[int(rng.integers(3))]
            m.change_source_redshift(z)
            st["z_source"] = z
            mon.event("ev:redshift")
        elif o == "cosmo" and (static is None or conv_static_ok):
            c = cs[int(rng.integers(2))]
            m.update_cosmology(c)
            st["cosmo"] = c
            mon.event("ev:cosmo")
        elif o != "eval":
            continue
        hist.append(o)
        k = static if static is not None else int(rng.integers(2))
        if static is not None:
            mon.event("ev:static-eval")
        elif was:
            mon.event("ev:dynamic-after-static")
        arg = copy.deepcopy(kws[k]) if static is None or retur is None else copy.deepcopy(retur)
        got = physical(m, x, y, arg, arrival=arrival)
        want = physical(build(st), x, y, copy.deepcopy(kws[k]), arrival=arrival)
        mon.event("ev:evaluated")
        mon.nontrivial(key, len(names), hist[-1], static)
        compare(mon, key, got, want, rtol=1e-9, history=hist, models=names)


def run_single(case, mon, rng):
    n = int(rng.integers(1, 4))
    names = plist(rng, n)
    kws = [[lenscat.params(p, rng) for p in names] for _ in range(2)]
    zl = U(rng, .2, .7)
    conv = None if rng.integers(2) else U(rng, 1.5, 4)
    st = dict(z_source=U(rng, 1.0, 3.), cosmo=cosmologies(rng))
    if conv is None:
        conv = st["z_source"]

    def build(s):
        return LensModel(names, z_lens=zl, z_source=s["z_source"], z_source_convention=conv, cosmo=s["cosmo"])
    m = build(st)
    history(mon, rng, "single", m, build, names, kws, st, ["eval", "static", "dynamic", "z", "cosmo"], 14, zl + .1, 4.)


def run_multi(case, mon, rng):
    n = int(rng.integers(2, 5))
    names = [str(p) for p in rng.choice(["EPL", "SIE", "NIE", "SIS", "NFW", "HERNQUIST", "CHAMELEON", "NIE_POTENTIAL", "SHEAR"], n)]
    kws = [[lenscat.params(p, rng) for p in names] for _ in range(2)]
    zl = [round(U(rng, .2, 1.6), 2) for _ in names]
    if n > 2:
        zl[1] = zl[0]
    obs = None
    # (observed convention needs centres and is itself ray traced: weak lenses only)
    if rng.integers(2):
        cand = [i for i, k in enumerate(names) if k != "SHEAR"]
        if cand:
            obs = [int(c) for c in cand if rng.integers(2)] or [cand[0]]
    for s in kws:
        for k in s:
            for q in ("theta_E", "alpha_Rs", "sigma0", "alpha_1"):
                if q in k:
                    k[q] *= .3
    interp = bool(rng.integers(4) == 0)
    zconv = U(rng, 2.6, 3.5)
    st = dict(z_source=U(rng, 1.7, 2.4), cosmo=cosmologies(rng))

    def build(s):
        return LensModel(names, z_source=s["z_source"], z_source_convention=zconv, lens_redshift_list=zl, cosmo=s["cosmo"], multi_plane=True,
                         observed_convention_index=obs, cosmo_interp=interp, z_interp_stop=4. if interp else None, num_z_interp=60)
    m = build(st)
    history(mon, rng, "multi", m, build, names, kws, st, ["eval", "static", "dynamic", "z", "cosmo"], 12, .5, 3.9, conv_static_ok=obs is None)


def run_mpclass(case, mon, rng):
    """MultiPlane.update_source_redshift and set_background_cosmo"""
    from lenstronomy.LensModel.MultiPlane.multi_plane import MultiPlane
    n = int(rng.integers(1, 4))
    names = [str(p) for p in rng.choice(["EPL", "SIE", "NIE", "SIS", "NFW"], n)]
    kw = [lenscat.params(p, rng) for p in names]
    zl = [round(U(rng, .2, 1.6), 2) for _ in names]
    conv = U(rng, 2.5, 3.5)
    st = dict(z=U(rng, 1.7, 2.4), cosmo=cosmologies(rng))
    build = lambda s: MultiPlane(s["z"], names, zl, cosmo=s["cosmo"], z_source_convention=conv)
    m = build(st)
    zs = [st["z"], U(rng, 1.0, 3.3), .1 + min(zl)]
    cs = [st["cosmo"], cosmologies(rng)]
    x, y = pts(rng, 4)
    hist = []
    for i in range(8):
        if rng.integers(2):
            st["z"] = zs[int(rng.integers(3))]
            m.update_source_redshift(st["z"])
            mon.event("ev:redshift")
            hist.append("z")
        else:
            st["cosmo"] = cs[int(rng.integers(2))]
            m.set_background_cosmo(st["cosmo"])
            mon.event("ev:cosmo")
            hist.append("c")
        r = build(st)
        for nm in ("alpha", "hessian", "arrival_time", "ray_shooting"):
            mon.close("multi/class_" + nm, np.array(getattr(m, nm)(x, y, kw)), np.array(getattr(r, nm)(x, y, kw)), 1e-9, 1e-11,
                      "differs from a freshly built model", history=hist)
        mon.close("multi/class_z", m.z_source, st["z"], 0, 0)
        mon.nontrivial("mpclass", n, hist[-1])


def run_decoupled(case, mon, rng):
    names = ["EPL", "SHEAR", "SIS", "NFW"][: int(rng.integers(2, 5))]
    kws = [[lenscat.params(p, rng) for p in names] for _ in range(2)]
    zl = [.5, .5, .8, .3][: len(names)]
    c0 = cosmologies(rng)
    x0, y0 = pts(rng, 1)
    kdec = dict(x0_interp=None)
    ab = rng.normal(0, 300, 2)
    const = lambda v: (lambda *a: np.full(np.shape(a[0])[:-1] if len(a) == 1 else np.shape(a[0]), v))
    kdec = dict(x0_interp=lambda p: U_lin(p, .9, 400.), y0_interp=lambda p: U_lin(p, 1.1, 300., 1),
                alpha_x_interp_foreground=lambda p: U_lin(p, .1, .02), alpha_y_interp_foreground=lambda p: U_lin(p, -.1, .01, 1),
                alpha_x_interp_background=lambda p: U_lin(p, .2, -.03), alpha_y_interp_background=lambda p: U_lin(p, .3, .04, 1),
                z_split=.5)
    st = dict(z_source=1.7, cosmo=c0)

    def build(s):
        return LensModel(names, z_source=s["z_source"], lens_redshift_list=zl, cosmo=s["cosmo"], multi_plane=True,
                         decouple_multi_plane=True, kwargs_multiplane_model=dict(kdec), z_lens=.5)
    m = build(st)
    x, y = pts(rng, 4)
    hist = []
    cs = [c0, cosmologies(rng)]
    for i in range(6):
        o = str(rng.choice(["cosmo", "eval", "z"]))
        if o == "cosmo":
            st["cosmo"] = cs[int(rng.integers(2))]
            m.update_cosmology(st["cosmo"])
            mon.event("ev:cosmo")
        elif o == "z":
            try:
                m.change_source_redshift(1.2)
                mon.violation("decoupled/redshift", "change of source redshift silently accepted")
            except NotImplementedError:
                pass
        hist.append(o)
        k = int(rng.integers(2))
        r = build(st)
        for nm in ("alpha", "hessian", "ray_shooting"):
            mon.close("decoupled/" + nm, np.array(getattr(m, nm)(x, y, kws[k])), np.array(getattr(r, nm)(x, y, kws[k])), 1e-9, 1e-11,
                      "differs from a freshly built model", history=hist)
        mon.nontrivial("decoupled", len(names), o)


def U_lin(p, a, b, i=0):
    if isinstance(p, tuple):
        p = np.array(p).T
    p = np.asarray(p)
    return a + b * p[..., i]


def run_los(case, mon, rng):
    kind = str(rng.choice(["LOS", "LOS_MINIMAL", "LOS_FLEXION", "LOS_FLEXION_MINIMAL"]))
    main = plist(rng, int(rng.integers(1, 3)), ["EPL", "SIE", "NIE", "CHAMELEON", "SIS", "NIE_POTENTIAL"])
    i = int(rng.integers(len(main) + 1))
    names = main[:i] + [kind] + main[i:]
    ref = LensModel(names)
    lp = ref.lens_model.param_name_list[i] if hasattr(ref.lens_model, "param_name_list") else None

    def p():
        kw = [lenscat.params(q, rng) for q in main]
        los = {q: U(rng, -.05, .05) for q in lp}
        return kw[:i] + [los] + kw[i:]
    kws = [p(), p()]
    st = dict(cosmo=cosmologies(rng))
    build = lambda s: LensModel(names, z_lens=.5, z_source=2., cosmo=s["cosmo"])
    m = build(st)
    x, y = pts(rng, 4)
    hist = []
    static = None
    was = False
    cs = [st["cosmo"], cosmologies(rng)]
    for _ in range(12):
        o = str(rng.choice(["eval", "static", "dynamic", "cosmo", "z"]))
        if o == "static" and static is None:
            static = int(rng.integers(2))
            m.set_static(copy.deepcopy(kws[static]))
            was = True
        elif o == "dynamic":
            m.set_dynamic()
            static = None
        elif o == "cosmo":
            st["cosmo"] = cs[int(rng.integers(2))]
            m.update_cosmology(st["cosmo"])
            mon.event("ev:cosmo")
        elif o == "z":
            # not supported for line-of-sight models: has to be refused, or to be honoured
            try:
                m.change_source_redshift(1.3)
            except NotImplementedError:
                mon.event("ev:refused")
            else:
                w = LensModel(names, z_lens=.5, z_source=1.3, z_source_convention=2., cosmo=st["cosmo"])
                sc = m._lensCosmo.beta_double_source_plane(.5, 1.3, 2.)
                z = copy.deepcopy(kws[0])
                z[i] = {q: 0. for q in lp}
                plain = np.array(LensModel(main).alpha(x, y, [q for j, q in enumerate(z) if j != i]))
                mon.close("los/redshift", np.array(m.alpha(x, y, z)), plain * sc, 1e-9, 1e-12,
                          "changed source redshift neither refused nor applied", kind=kind)
                return
        hist.append(o)
        k = static if static is not None else int(rng.integers(2))
        if static is not None:
            mon.event("ev:static-eval")
        elif was:
            mon.event("ev:dynamic-after-static")
        r = build(st)
        a = copy.deepcopy(kws[k])
        for nm in ("alpha", "hessian", "ray_shooting", "fermat_potential", "arrival_time"):
            if nm in ("fermat_potential", "arrival_time") and "FLEXION" in kind:
                continue
            mon.close("los/" + nm, np.array(getattr(m, nm)(x, y, a)), np.array(getattr(r, nm)(x, y, a)), 1e-9, 1e-11,
                      "differs from a freshly built model", history=hist, kind=kind)
        mon.nontrivial("los", kind, o, static)
