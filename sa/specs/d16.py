# Simulated data: reduced forms of the named processes
FLOOR["D16"] = 110
VU = {"u": (N, N1), "xb": (N, N1), "wxg": (N, N1), "v": (N, N1), "yy": (N, N1), "lam": (), "rho": ()}


def dims(ok):
    """comparisons of numbers of observations: all the same, or the named sizes differ"""
    def size(t):
        return t.op == "index" and t.a[0].op == "attr" and t.a[0].a[1] == "shape" or t.op == "attr" and t.a[1] == "n" or t.op == "call" and t.a[0] == "len"

    def who(t):
        return {x.a[0] for x in subterms(t) if x.op == "param"}

    def f(c):
        if c.op == "not":
            v = f(c.a[0])
            return None if v is None else not v
        if c.op in ("and", "or"):
            vs = [f(x) for x in c.a]
            if (c.op == "or") in vs:
                return c.op == "or"
            return None if None in vs else c.op == "and"
        if c.op == "cmp" and c.a[0] in ("==", "!=") and any(size(x) for y in c.a[1:] for x in subterms(y)):
            bad = ok is not None and ok in who(c)
            return (c.a[0] == "!=") == bad
        return None
    return f


BIN = "def mbin(y):\n    return (y > np.mean(y))*1\n"
INV = "from spreg.utils import inverse_prod\nfrom libpysal.weights import lag_spatial\n" + BIN
ERR = {"sar": "inverse_prod(w, u, lam, inv_method=%r)", "ma": "u + lam*(w.sparse@u)"}
OPQ = ["utils.inverse_prod"]
WT = {"w": P}


def D(e, ret, sc, args, opaque=OPQ, bad=()):
    sc = {k: v for k, v in sc.items() if k not in ("lam", "rho") or k in args}
    d = dict(shapes=VU, opaque=opaque)
    R("D16", "dgp." + e, INV + "def spec(%s):\n    return {'ret': %s}\n" % (args, ret), sc=sc, assume=dims(None), **d)
    for b in bad:
        R("D16", "dgp." + e, "def spec():\n    return {'ret': None}\n", sc=sc, assume=dims(b), name="number of observations of %s different" % b, **d)


for im in ("power_exp", "true_inv"):
    for model in ("sar", "ma"):
        er = ERR[model] % (im,) if model == "sar" else ERR[model]
        s0 = {"model": model, "imethod": im, "lam": P, "rho": P, **WT}
        D("dgp_errproc", er, s0, "u, w, lam", bad=("w",))
        for yb in (False, True):
            s = {**s0, "ybin": yb}
            v = "mbin(%s)" if yb else "%s"
            D("dgp_sperror", v % ("xb + (%s)" % er), s, "u, xb, w, lam", bad=("w", "u"))
            D("dgp_slxerror", v % ("xb + wxg + (%s)" % er), s, "u, xb, wxg, w, lam", bad=("w", "u", "wxg"))
            D("dgp_lagerr", v % ("inverse_prod(w, xb + (%s), rho, inv_method=%r)" % (er, im)), s, "u, xb, w, rho, lam", bad=("w", "u"))
            D("dgp_gns", v % ("inverse_prod(w, xb + wxg + (%s), rho, inv_method=%r)" % (er, im)), s, "u, xb, wxg, w, rho, lam", bad=("w", "u", "wxg"))
    for yb in (False, True):
        s = {"imethod": im, "ybin": yb, "rho": P, **WT}
        v = "mbin(%s)" if yb else "%s"
        D("dgp_lag", v % ("inverse_prod(w, xb + u, rho, inv_method=%r)" % im), s, "u, xb, w, rho", bad=("w", "u"))
        D("dgp_spdurbin", v % ("inverse_prod(w, xb + wxg + u, rho, inv_method=%r)" % im), s, "u, xb, wxg, w, rho", bad=("w", "u", "wxg"))
for yb in (False, True):
    D("dgp_slx", ("mbin(%s)" if yb else "%s") % "xb + wxg + u", {"ybin": yb}, "u, xb, wxg", bad=("u", "wxg"))
D("dgp_ols", "xb + u", {}, "u, xb", bad=("u",))
D("dgp_probit", "mbin(xb + u)", {}, "u, xb", bad=("u",))
D("make_bin", "mbin(yy)", {}, "yy")
R("D16", "dgp.dgp_mess", "from scipy.linalg import expm\nfrom libpysal.weights import full\ndef spec(u, xb, w, rho):\n    return {'ret': expm(-np.log(1 - rho)*full(w)[0])@(xb + u)}\n", sc={**WT, "rho": P}, shapes=VU, assume=dims(None))
D("make_heterror", "u*np.sqrt(v)", {}, "u, v", bad=("u",))
D("make_xb", "np.hstack((np.ones((x.shape[0], 1)), x))@np.array(beta)[:, np.newaxis]", {}, "x, beta", bad=("x",))
VU["wx"] = (N, num(2))
D("make_wxg", "wx@np.array(gamma)[:, np.newaxis]", {}, "wx, gamma")
R("D16", "dgp.make_wxg", "def spec():\n    return {'ret': None}\n", shapes={"wx": (N, num(2)), "gamma": (num(3),)}, name="number of coefficients different")
VU = {**VU, "wx": (N, N1), "gamma": ()}
D("make_wxg", "wx*gamma", {}, "wx, gamma")
for o in (1, 2, 3):
    D("make_wx", ["w.sparse@x", "np.hstack((w.sparse@x, w.sparse@(w.sparse@x)))", "np.hstack((w.sparse@x, w.sparse@(w.sparse@x), w.sparse@(w.sparse@(w.sparse@x))))"][o - 1], {"o": o, **WT}, "x, w", bad=("w",))
# the spatial multiplier: exact inverse, and the sum of powers up to a given number of terms
MU = dict(shapes={"data": (N, num(2)), "scalar": (), "w": None}, loops=True)
for pm in (False, True):
    R("D16", "utils.inverse_prod", "def spec(w, data, scalar):\n    A = la.inv(np.eye(w.n) - scalar*w.full()[0])\n    return {'ret': %s}\n" % ("data.T@A" if pm else "A@data"),
      sc={"inv_method": "true_inv", "post_multiply": pm, **WT}, **MU)
    for k in (1, 2, 3):
        src = "def spec(w, data, scalar):\n    W = w.sparse\n    d = data%s\n    return {'ret': %s}\n" % (".T" if pm else "", " + ".join("scalar**%d*%s" % (i, "(" * i + "d" + "@W)" * i if pm else "(W@" * i + "d" + ")" * i) for i in range(k + 1)))
        for e, extra in (("power_expansion", {}), ("inverse_prod", {"inv_method": "power_exp"})):
            R("D16", "utils." + e, src, sc={"post_multiply": pm, "max_iterations": k, **extra, **WT}, **MU)
# variance multipliers and error draws
for method, ret in (("normal", "rng.normal(loc=mu, scale=np.sqrt(varu), size=n).reshape(n, 1)"), ("laplace", "rng.laplace(loc=mu, scale=np.sqrt(varu/2), size=n).reshape(n, 1)"),
                    ("cauchy", "rng.standard_cauchy(size=n).reshape(n, 1)"), ("lognormal", "rng.lognormal(mean=mu, sigma=np.sqrt(varu), size=n).reshape(n, 1)")):
    R("D16", "dgp.make_error", "def spec(rng, n, mu, varu):\n    return {'ret': %s}\n" % ret, sc={"method": method, "mu": P, "varu": P}, shapes={"n": (), "varu": (), "mu": (), "rng": None})
pm2 = lambda a: mk("list", mk("param", a + "0"), mk("param", a + "1"))
MX = dict(shapes={"n": (), "mu0": (), "mu1": (), "varu0": (), "varu1": (), "cor": (), "rng": None, "vlow0": (), "vlow1": (), "vup0": (), "vup1": ()})
two = {"mu": pm2("mu"), "varu": pm2("varu"), "cor": P}
for method, d in (("uniform", "rng.uniform(low=0, high=np.sqrt(12*varu[%d]), size=n)"), ("normal", "rng.normal(loc=mu[%d], scale=np.sqrt(varu[%d]), size=n)")):
    R("D16", "dgp.make_x", "def spec(m, rng, n, mu, varu):\n    return {%s}\n" % ", ".join("'ret[:,%d]': %s" % (i, d.replace("%d", str(i))) for i in (0, 1)), sc={"method": method, **two}, name="two columns", **MX)
R("D16", "dgp.make_x", "def spec(rng, n, mu, varu, cor):\n    c = cor*np.sqrt(varu[0]*varu[1])\n    return {'ret': rng.multivariate_normal(mean=mu, cov=[[varu[0], c], [c, varu[1]]], size=n)}\n", sc={"method": "bivnormal", **two}, name="two columns", **MX)
R("D16", "dgp.make_x", "def spec():\n    return {'ret': None}\n", sc={"method": "normal", "mu": pm2("mu"), "varu": mk("list", mk("param", "varu0"))}, name="number of variances different", **MX)
R("D16", "dgp.make_vmult", "def spec(n, vlow, vup, rng):\n    return {'ret': rng.uniform(low=vlow[0], high=vup[0], size=n).reshape(-1, 1)}\n", sc={"method": "uniform", "rng": P, "vlow": pm2("vlow"), "vup": pm2("vup")}, **MX)
R("D16", "dgp.make_vmult", "def spec(vlow, vup):\n    return {%s}\n" % ", ".join("'ret[%d,0]': vlow[0] + (vup[0] - vlow[0])*%d/4" % (i, i) for i in range(5)), sc={"n": 5, "method": "linear", "vlow": pm2("vlow"), "vup": pm2("vup")}, name="five observations", **MX)
R("D16", "dgp.make_vmult", "def spec(vup):\n    return {'ret': np.array([vup[0], vup[1], vup[1]]).reshape(-1, 1)}\n", sc={"n": 3, "method": "group", "vlow": [1, 2], "vup": pm2("vup")}, name="three observations", **MX)
R("D16", "dgp.make_vmult", "def spec():\n    return {'ret': None}\n", sc={"n": 4, "method": "group", "vlow": [1, 2], "vup": pm2("vup")}, name="group sizes different", **MX)
