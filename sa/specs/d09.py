# Generalized moments: Kelejian and Prucha (1998, 1999, 2010), Drukker, Egger and Prucha (2013), Arraiz et al. (2010), Anselin (2011)
FLOOR["D09"] = 240
NN = {"w": (N, N), "W": (N, N), "S": (N, N), "s": (N, N), "wA1": (N, N), "wA2": (N, N), "A1": (N, N), "A2": (N, N), "E": (N, N), "u": (N, N1), "lamb": (), "lambdapar": (), "P": (H, SYM("KZ")),
      "G": (num(2), num(2)), "psi": (num(2), num(2)), "zs": (N, SYM("KZ")), "z_s": (N, SYM("KZ")), "zf": (N, SYM("KZ")), "hthi": (H, H), "sf": (N, K), "vcX": (num(2), num(2))}
TY = {"w": "csr_matrix", "z_s": "ndarray", "reg.z": "ndarray", "lamb": "float"}
# ---- the weights matrices of the quadratic moments
R("D09", "utils.get_A1_het", "def spec(S):\n    M = S.T@S\n    return {'ret': M - np.diag(np.diag(M))}\n", shapes=NN, types=TY)
R("D09", "utils.get_A1_hom", "def spec(s):\n    M = s.T@s\n    return {'ret': M - np.trace(M)/s.shape[0]*np.eye(s.shape[0])}\n", shapes=NN, types=TY, sc={"scalarKP": False})
R("D09", "utils.get_A1_hom", "def spec(s):\n    M = s.T@s\n    n = s.shape[0]\n    return {'ret': (M - np.trace(M)/n*np.eye(n))/(1 + (np.trace(M)/n)**2)}\n", shapes=NN, types=TY, sc={"scalarKP": True})
R("D09", "utils.get_A2_hom", "def spec(s):\n    return {'ret': 0.5*s + 0.5*s.T}\n", shapes=NN, types=TY)
# ---- moment equations: g - G (lambda, lambda^2)' is the moment at lambda, with e = (I - lambda W)u
R("D09", "utils._moments2eqs", """
def spec(A1, s, u):
    n = u.shape[0]
    v = s@u
    g = np.vstack((u.T@A1@u, u.T@s@u))/n
    G = np.vstack((np.hstack((u.T@(A1 + A1.T)@v, -(v.T@A1@v))), np.hstack((u.T@(s + s.T)@v, -(v.T@s@v)))))/n
    return {"ret[0]": G, "ret[1]": g}
""", shapes=NN, types=TY)
R("D09", "error_sp_hom.moments_hom", """
def spec(w, wA1, wA2, u):
    n = u.shape[0]
    v = w@u
    g = np.vstack((u.T@wA1@u, u.T@wA2@u))/n
    G = np.vstack((np.hstack((2*(v.T@wA1@u), -(v.T@wA1@v))), np.hstack((2*(v.T@wA2@u), -(v.T@wA2@v)))))/n
    return {"ret[0]": G, "ret[1]": g}
""", shapes=NN, types=TY)
R("D09", "error_sp._momentsGM_Error", """
def spec(w, u):
    n = u.shape[0]
    v = w@u
    z = w@v
    g = np.vstack((u.T@u, v.T@v, u.T@v))/n
    a, b, c, d, f = u.T@v, v.T@v, v.T@z, z.T@z, u.T@z
    G = np.array([[2*a[0][0], -b[0][0], n], [2*c[0][0], -d[0][0], np.trace(w.T@w)], [(f + b)[0][0], -c[0][0], 0]])/n
    return {"ret[0]": G, "ret[1]": g}
""", shapes=NN, types=TY)
# ---- variance of the moments and of the estimates
PSI = "\ndef psi(w, u, l):\n    e = (u - l*(w@u))**2\n    return np.diag(e.flatten())\n"
R("D09", "error_sp_het.get_psi_sigma", PSI + "def spec(w, u, lamb):\n    return {'ret': psi(w, u, lamb)}\n", shapes=NN, types=TY)
VC = """
def vc(w, A1, E):
    a, b = 2*(A1@E), (w + w.T)@E
    ab = np.trace(a@b)
    n = w.shape[0]
    return np.array([[np.trace(a@a), ab], [ab, np.trace(b@b)]])/(2.0*n)
"""
R("D09", "error_sp_het.get_vc_het", VC + "def spec(w, wA1, E):\n    return {'ret': vc(w, wA1, E)}\n", shapes=NN, types=TY)
R("D09", "error_sp_het.get_vm_het", PSI.replace("psi", "sigma") + """
def spec(G, lamb, reg, w, psi):
    n = w.shape[0]
    j = G@np.array([[1], [2*lamb]])
    X = reg.x - lamb*(w@reg.x)
    B = la.inv(X.T@X)
    V = n*(B@(X.T@sigma(w, reg.u, lamb)@X)@B)
    L = la.inv(j.T@la.inv(psi)@j)
    z = np.zeros((reg.k, 1))
    return {"ret": np.vstack((np.hstack((V, z)), np.hstack((z.T, L))))/n}
""", shapes=NN, types=TY)
R("D09", "error_sp_het.get_P_hat", """
def spec(reg, hthi, zf):
    a = hthi@(reg.h.T@zf)
    return {"ret": reg.n*(a@la.inv(zf.T@reg.h@a))}
""", shapes=NN, types=TY)
A12 = """
def a12(w, A1, reg, l, P, zs, filt):
    n = w.shape[0]
    e = reg.u - l*(w@reg.u)
    a1 = reg.h@(P@(-2.0/n*(zs.T@A1@e)))
    a2 = reg.h@(P@(-1.0/n*(zs.T@(w + w.T)@e)))
    if not filt:
        T = la.inv(np.eye(n) - l*w.T)
        a1, a2 = T@a1, T@a2
    return a1, a2
"""
for filt in (True, False):
    R("D09", "error_sp_het.get_a1a2", A12 + """
def spec(w, wA1, reg, lambdapar, P, zs):
    a1, a2 = a12(w, wA1, reg, lambdapar, P, zs, %s)
    return {"ret[0]": a1, "ret[1]": a2}
""" % filt, shapes=NN, types=TY, sc={"filt": filt, "inv_method": "true_inv"})
    for save in (True, False):
        R("D09", "error_sp_het.get_vc_het_tsls", A12 + VC + PSI + """
def spec(w, wA1, reg, lambdapar, P, zs):
    a1, a2 = a12(w, wA1, reg, lambdapar, P, zs, %s)
    E = psi(w, reg.u, lambdapar)
    n = w.shape[0]
    V = vc(w, wA1, E) + np.vstack((np.hstack((a1.T@E@a1, a1.T@E@a2)), np.hstack((a2.T@E@a1, a2.T@E@a2))))/n
    return @R@
""".replace("@R@", '{"ret[0]": V, "ret[1]": a1, "ret[2]": a2}' if save else '{"ret": V}') % filt, shapes=NN, types=TY, sc={"filt": filt, "inv_method": "true_inv", "save_a1a2": save})
R("D09", "error_sp_het.get_Omega_GS2SLS", PSI + """
def spec(w, lamb, reg, G, vc, a1, a2, P):
    n = w.shape[0]
    E = psi(w, reg.u, lamb)
    D = reg.h.T@E@reg.h/n
    a = np.hstack((a1, a2))
    C = reg.h.T@E@a/n
    j = G@np.array([[1], [2*lamb]])
    Vi = la.inv(vc)
    L = la.inv(j.T@Vi@j)@(j.T@Vi)
    DL = P.T@C@L.T
    return {"ret": np.vstack((np.hstack((P.T@D@P, DL)), np.hstack((L@(C.T@P), L@vc@L.T))))/n}
""", shapes={**NN, "vc": (num(2), num(2)), "a1": (N, N1), "a2": (N, N1)}, sym=["vc"], types=TY, sc={"psi": mk("tuple", mk("param", "vc"), mk("param", "a1"), mk("param", "a2"))})
HOM = """
def vchom(w, A1, A2, reg, l, Z):
    n = w.shape[0]
    e = reg.u - l*(w@reg.u)
    s2 = (e.T@e)/n
    mu3, mu4 = np.sum(e**3)/n, np.sum(e**4)/n
    d = np.diag(A1).reshape(n, 1)
    p11 = 2*s2**2*np.trace(A1@A1) + (mu4 - 3*s2**2)*(d.T@d)
    p12 = 2*s2**2*np.trace(A1@A2)
    p22 = 2*s2**2*np.trace(A2@A2)
    if Z is None:
        return np.array([[p11[0][0], p12[0][0]], [p12[0][0], p22[0][0]]])/n, 0.0, 0.0, None
    b1 = -2/n*(Z.T@A1@e)
    b2 = -2/n*(Z.T@A2@e)
    H = reg.h
    S = H.T@Z/n
    Q = la.inv(H.T@H/n)
    p = Q@S@la.inv(S.T@Q@S)
    a1, a2 = H@p@b1, H@p@b2
    p11 = p11 + s2*(a1.T@a1) + 2*mu3*(a1.T@d)
    p12 = p12 + s2*(a1.T@a2) + mu3*(a2.T@d)
    p22 = p22 + s2*(a2.T@a2)
    return np.array([[p11[0][0], p12[0][0]], [p12[0][0], p22[0][0]]])/n, a1, a2, p
"""
R("D09", "error_sp_hom.get_vc_hom", HOM + "def spec(w, wA1, wA2, reg, lambdapar):\n    v = vchom(w, wA1, wA2, reg, lambdapar, None)\n    return {'ret[0]': v[0]}\n", shapes=NN, types=TY)
R("D09", "error_sp_hom.get_vc_hom", HOM + "def spec(w, wA1, wA2, reg, lambdapar, z_s):\n    v = vchom(w, wA1, wA2, reg, lambdapar, z_s)\n    return {'ret[0]': v[0], 'ret[1]': v[1], 'ret[2]': v[2], 'ret[3]': v[3]}\n", shapes=NN, types=TY, sc={"z_s": P})
R("D09", "error_sp_hom.get_vc_hom", HOM + "def spec(w, wA1, wA2, reg, lambdapar):\n    v = vchom(w, wA1, wA2, reg, lambdapar, None)\n    X = reg.x - lambdapar*(w@reg.x)\n    return {'ret[0]': v[0], 'ret[3]': la.inv(X.T@X/w.shape[0])}\n", shapes=NN, types=TY, sc={"for_omegaOLS": True})
R("D09", "error_sp_hom.get_omega_hom", HOM + """
def spec(w, wA1, wA2, reg, lamb, G):
    n = w.shape[0]
    H = reg.h
    Z = reg.z - lamb*(w@reg.z)
    e = reg.u - lamb*(w@reg.u)
    s2 = (e.T@e)/n
    mu3 = np.sum(e**3)/n
    d = np.diag(wA1).reshape(n, 1)
    V, a1, a2, p = vchom(w, wA1, wA2, reg, lamb, Z)
    j = G@np.array([[1], [2*lamb]])
    Vi = la.inv(V)
    C = np.hstack((s2*(H.T@a1) + mu3*(H.T@d), s2*(H.T@a2)))/n
    D = s2*la.inv(Z.T@H@la.inv(H.T@H)@H.T@Z)
    L = la.inv(j.T@Vi@j)/n
    DL = p.T@C@Vi@j@L
    return {"ret[0]": np.vstack((np.hstack((D, DL)), np.hstack((DL.T, L)))), "ret[1]": s2}
""", shapes=NN, types=TY)
R("D09", "error_sp_hom.get_omega_hom_ols", HOM + """
def spec(w, wA1, wA2, reg, lamb, G):
    n = w.shape[0]
    X = reg.x - lamb*(w@reg.x)
    e = reg.u - lamb*(w@reg.u)
    s2 = (e.T@e)/n
    mu3 = np.sum(e**3)/n
    d = np.diag(wA1).reshape(n, 1)
    V = vchom(w, wA1, wA2, reg, lamb, None)[0]
    p = la.inv(X.T@X/n)
    j = G@np.array([[1], [2*lamb]])
    Vi = la.inv(V)
    C = np.hstack((mu3*(reg.x.T@d), np.zeros((reg.x.shape[1], 1))))/n
    D = s2*la.inv(X.T@X)
    L = la.inv(j.T@Vi@j)/n
    DL = p.T@C@Vi@j@L
    return {"ret[0]": np.vstack((np.hstack((D, DL)), np.hstack((DL.T, L)))), "ret[1]": s2}
""", shapes=NN, types=TY)
# ---- spatial Cochrane-Orcutt filter
R("D09", "utils.get_spFilter", "def spec(w, lamb, sf):\n    return {'ret': sf - lamb*(w.sparse@sf)}\n", shapes={"lamb": (), "sf": (N, K)}, sc={"w": P})
R("D09", "utils.get_spFilter", "def spec(w, lamb, sf):\n    return {'ret': sf - lamb*(w@sf)}\n", shapes=NN, types=TY)
# ---- the estimate of lambda: least squares over the moment equations, weighted by the inverse of their variance when it is given
OPT = """
from scipy.optimize import fmin_l_bfgs_b
def spec(G, g, vcX, start):
    def f(p):
        e = g - G@np.array([@P@])
        return e.T@@V@e
    r = fmin_l_bfgs_b(f, @S@, approx_grad=True, bounds=@B@)
    return {"ret": @R@}
"""
for nm, sh, p, s, b in (("two moments", (2, 2), "[p[0]], [p[0]**2]", "[0.0]", "[(-0.99, 0.99)]"),
                        ("three moments", (3, 3), "[p[0]], [p[0]**2], [p[1]]", "[0.0, 1.0]", "[(-0.99, 0.99), (0.0, None)]"),
                        ("panel", (6, 4), "[p[0]], [p[0]**2], [p[1]], [p[2]]", "[0.0, 1.0, 1.0]", "[(-0.99, 0.99), (0.0, None), (0.0, None)]")):
    for v in (False, True):
        for al in (False, True):
            src = OPT.replace("@P@", p).replace("@S@", s).replace("@B@", b).replace("@V@", "la.inv(vcX)@" if v else "").replace("@R@", "r[0]" if al else "r[0][0]")
            R("D09", "utils.optim_moments", src, sc={"moments_in": mk("list", mk("param", "G"), mk("param", "g")), "all_par": al, **({"vcX": P} if v else {})}, name=nm,
              shapes={"G": (num(sh[0]), num(sh[1])), "g": (num(sh[0]), N1), "vcX": (num(sh[0]), num(sh[0]))}, sym=["vcX"], facts=[(mk("method", "any", mk("param", "vcX"), (), ()), v)])
# ---- estimators
LIB = """
from spreg.utils import optim_moments, get_A1_het, get_A1_hom, get_A2_hom, _moments2eqs
from spreg.error_sp import _momentsGM_Error
from spreg.error_sp_het import get_psi_sigma, get_vc_het, get_vm_het, get_P_hat, get_vc_het_tsls, get_Omega_GS2SLS
from spreg.error_sp_hom import moments_hom, get_vc_hom, get_omega_hom, get_omega_hom_ols
def const(x):
    return np.hstack((np.ones((x.shape[0], 1)), x))

def ls(X, y):
    return la.inv(X.T@X)@(X.T@y)

def iv(Z, H, y):
    S = H.T@Z
    Q = la.inv(H.T@H)
    return la.inv(S.T@Q@S)@(S.T@(Q@(H.T@y)))

def fil(W, l, v):
    return v - l*(W@v)

class Pack:
    pass
"""
KP = """
def error(y, X, W):
    lam = optim_moments(_momentsGM_Error(W, y - X@ls(X, y)), hard_bound=False)
    xs, ys = fil(W, lam, X), fil(W, lam, y)
    b = ls(xs, ys)
    u = y - X@b
    e = ys - xs@b
    s = (e.T@e)/y.shape[0]
    return {"betas": np.vstack((b, lam)), "u": u, "predy": X@b, "e_filtered": fil(W, lam, u), "sig2": s, "vm": s*la.inv(xs.T@xs)}

def endog(y, X, Ye, Q, W):
    Z, H = np.hstack((X, Ye)), np.hstack((X, Q))
    lam = optim_moments(_momentsGM_Error(W, y - Z@iv(Z, H, y)), hard_bound=False)
    zs, ys = np.hstack((fil(W, lam, X), fil(W, lam, Ye))), fil(W, lam, y)
    b = iv(zs, H, ys)
    u = y - Z@b
    e = ys - zs@b
    s = (e.T@e)/y.shape[0]
    S = H.T@zs
    return {"betas": np.vstack((b, lam)), "u": u, "predy": Z@b, "e_filtered": fil(W, lam, u), "sig2": s, "vm": s*la.inv(S.T@la.inv(H.T@H)@S)}
"""
OPM = ["utils.optim_moments"]
# helpers with relations of their own
SH = ["utils.get_A1_het", "utils._moments2eqs", "error_sp_het.get_psi_sigma", "error_sp_het.get_vc_het", "error_sp_het.get_vm_het", "error_sp_het.get_vc_het_tsls", "error_sp_het.get_Omega_GS2SLS"]
SM = ["utils.get_A1_het", "utils.get_A1_hom", "utils.get_A2_hom", "error_sp_hom.moments_hom", "error_sp_hom.get_vc_hom", "error_sp_hom.get_omega_hom", "error_sp_hom.get_omega_hom_ols"]
BT = dict(shapes={"w": (N, N)}, types={"w": "csr_matrix"}, opaque=OPM)
R("D09", "error_sp.BaseGM_Error", LIB + KP + "def spec(y, x, w):\n    return error(y, x, w)\n", **BT)
R("D09", "error_sp.BaseGM_Endog_Error", LIB + KP + "def spec(y, x, yend, q, w):\n    return endog(y, x, yend, q, w)\n", **BT)
for sl, ex in ((0, "const(x)"), (1, "const(np.hstack((x, w.sparse@x)))")):
    R("D09", "error_sp.GM_Error", LIB + KP + "def spec(y, x, w):\n    return error(y, %s, w.sparse)\n" % ex, sc={"w": P, "slx_lags": sl}, opaque=OPM)
    R("D09", "error_sp.GM_Endog_Error", LIB + KP + "def spec(y, x, yend, q, w):\n    return endog(y, %s, yend, q, w.sparse)\n" % ex, sc={"w": P, "slx_lags": sl}, opaque=OPM)


def bound(side):
    """the preliminary estimate of the coefficient of the spatial lag lies inside (0), below (-1) or above (1) the admitted range"""
    def f(c):
        if c.op == "not":
            v = f(c.a[0])
            return None if v is None else not v
        if c.op != "cmp" or c.a[0] not in ("<", "<=", ">", ">=") or not any(isconst(x) and isinstance(cval(x), float) and abs(cval(x)) == 0.9 for x in c.a[1:]):
            return None
        l, r = c.a[1:]
        up = c.a[0][0] == ">"
        if isconst(l):
            l, r, up = r, l, not up
        if l.op == "call" and l.a[0] in ("abs", "numpy.abs", "numpy.absolute"):
            return (side != 0) if up else (side == 0)
        return (side == 1 if cval(r) > 0 else side != -1) if up else (side == -1 if cval(r) < 0 else side != 1)
    return f


HET = """
def stops(l, epsilon):
    # the iteration goes on while the spatial coefficient still moves (iterated estimators)
    if len(l) == 2:
        return {}
    return {"test[-1]": abs(l[-2] - l[-3]) > epsilon, "test[-2]": abs(l[-3] - l[-4]) > epsilon, "iteration": len(l) - 1}

def het(y, X, W, step1c, rounds=1, epsilon=None):
    n = y.shape[0]
    A1 = get_A1_het(W)
    u0 = y - X@ls(X, y)
    mo = _moments2eqs(A1, W, u0)
    lam = optim_moments(mo)
    if step1c:
        lam = optim_moments(mo, get_vc_het(W, A1, get_psi_sigma(W, u0, lam)))
    l3, path = lam, [lam]
    for i in range(rounds):
        lam = l3
        b = ls(fil(W, lam, X), fil(W, lam, y))
        u = y - X@b
        mo = _moments2eqs(A1, W, u)
        l3 = optim_moments(mo, get_vc_het(W, A1, get_psi_sigma(W, u, lam)))
        path.append(l3)
    reg = Pack()
    reg.u, reg.x, reg.k = u, X, X.shape[1]
    vm = get_vm_het(mo[0], l3, reg, W, get_vc_het(W, A1, get_psi_sigma(W, u, l3)))
    return {"betas": np.vstack((b, l3)), "u": u, "predy": X@b, "e_filtered": fil(W, l3, u), "vm": vm, **stops(path, epsilon)}

def clip(b, side):
    return b if side == 0 else np.vstack((b[:-1], np.array([[0.9*side]])))

def hetendog(y, X, Ye, Q, W, step1c, inv_method, side, rounds=1, epsilon=None):
    Z, H = np.hstack((X, Ye)), np.hstack((X, Q))
    n = y.shape[0]
    A1 = get_A1_het(W)
    reg = Pack()
    reg.h, reg.n = H, n
    Hi = la.inv(H.T@H)
    def ph(z):
        S = H.T@z
        return n*(Hi@S@la.inv(S.T@Hi@S))
    reg.u = y - Z@clip(iv(Z, H, y), side)
    mo = _moments2eqs(A1, W, reg.u)
    lam = optim_moments(mo)
    if step1c:
        zs = fil(W, lam, Z)
        lam = optim_moments(mo, get_vc_het_tsls(W, A1, reg, lam, ph(Z), zs, inv_method, filt=False))
    l3, path = lam, [lam]
    for i in range(rounds):
        lam = l3
        zs, ys = np.hstack((fil(W, lam, X), fil(W, lam, Ye))), fil(W, lam, y)
        b = clip(iv(zs, H, ys), side)
        reg.u = y - Z@b
        mo = _moments2eqs(A1, W, reg.u)
        l3 = optim_moments(mo, get_vc_het_tsls(W, A1, reg, lam, ph(zs), zs, inv_method))
        path.append(l3)
    zs = fil(W, l3, Z)
    p = ph(zs)
    vm = get_Omega_GS2SLS(W, l3, reg, mo[0], get_vc_het_tsls(W, A1, reg, l3, p, zs, inv_method, save_a1a2=True), p)
    return {"betas": np.vstack((b, l3)), "u": reg.u, "predy": Z@b, "e_filtered": fil(W, l3, reg.u), "vm": vm, **stops(path, epsilon)}
"""
R("D09", "error_sp_het.BaseGM_Error_Het", LIB + HET + "def spec(y, x, w, epsilon):\n    return het(y, x, w, False, 3, epsilon)\n", sc={"max_iter": 3, "epsilon": P}, loops=3, **BT, soft=SH)
R("D09", "error_sp_het.BaseGM_Endog_Error_Het", LIB + HET + "def spec(y, x, yend, q, w, epsilon):\n    return hetendog(y, x, yend, q, w, False, 'true_inv', 0, 3, epsilon)\n", sc={"max_iter": 3, "epsilon": P, "inv_method": "true_inv"}, assume=bound(0), loops=3, **BT, soft=SH)
for s1 in (False, True):
    R("D09", "error_sp_het.BaseGM_Error_Het", LIB + HET + "def spec(y, x, w):\n    return het(y, x, w, %s)\n" % s1, sc={"step1c": s1}, **BT, soft=SH)
IVM = {"inv_method": "true_inv"}
for s1 in (False, True):
    R("D09", "error_sp_het.BaseGM_Endog_Error_Het", LIB + HET + "def spec(y, x, yend, q, w, inv_method):\n    return hetendog(y, x, yend, q, w, %s, inv_method, 0)\n" % s1, sc={"step1c": s1, **IVM}, assume=bound(0), **BT, soft=SH)
for side in (0, 1, -1):
    R("D09", "error_sp_het.BaseGM_Combo_Het", LIB + HET + "def spec(y, x, yend, q, w, inv_method):\n    return hetendog(y, x, yend, q, w, False, inv_method, %d)\n" % side, sc={"yend": P, "q": P, "w": P, **IVM}, assume=bound(side), name="lag coefficient %s" % {0: "inside", 1: "above", -1: "below"}[side], **BT, soft=SH)
HOME = HET[:HET.index("def het(")] + """
def moms(W, A1):
    return (get_A1_hom(W) if A1 == "hom" else get_A1_hom(W, scalarKP=True) if A1 == "hom_sc" else get_A1_het(W)), get_A2_hom(W)

def hom(y, X, W, A1, rounds=1, epsilon=None):
    A, B = moms(W, A1)
    lam = optim_moments(moments_hom(W, A, B, y - X@ls(X, y)), hard_bound=False)
    l2, path = lam, [lam]
    for i in range(rounds):
        lam = l2
        b = ls(fil(W, lam, X), fil(W, lam, y))
        reg = Pack()
        reg.u, reg.x = y - X@b, X
        mo = moments_hom(W, A, B, reg.u)
        l2 = optim_moments(mo, get_vc_hom(W, A, B, reg, lam)[0], hard_bound=False)
        path.append(l2)
    vm, s = get_omega_hom_ols(W, A, B, reg, l2, mo[0])
    return {"betas": np.vstack((b, l2)), "u": reg.u, "predy": X@b, "e_filtered": fil(W, l2, reg.u), "vm": vm, "sig2": s, **stops(path, epsilon)}

def homendog(y, X, Ye, Q, W, A1, rounds=1, epsilon=None):
    Z, H = np.hstack((X, Ye)), np.hstack((X, Q))
    A, B = moms(W, A1)
    lam = optim_moments(moments_hom(W, A, B, y - Z@iv(Z, H, y)), hard_bound=False)
    l2, path = lam, [lam]
    for i in range(rounds):
        lam = l2
        zs = np.hstack((fil(W, lam, X), fil(W, lam, Ye)))
        b = iv(zs, H, fil(W, lam, y))
        reg = Pack()
        reg.u, reg.z, reg.h = y - Z@b, Z, H
        mo = moments_hom(W, A, B, reg.u)
        l2 = optim_moments(mo, get_vc_hom(W, A, B, reg, lam, zs)[0], hard_bound=False)
        path.append(l2)
    vm, s = get_omega_hom(W, A, B, reg, l2, mo[0])
    return {"betas": np.vstack((b, l2)), "u": reg.u, "predy": Z@b, "e_filtered": fil(W, l2, reg.u), "vm": vm, "sig2": s, **stops(path, epsilon)}
"""
R("D09", "error_sp_hom.BaseGM_Error_Hom", LIB + HOME + "def spec(y, x, w, epsilon):\n    return hom(y, x, w, 'hom_sc', 3, epsilon)\n", sc={"max_iter": 3, "epsilon": P}, loops=3, **BT, soft=SM)
R("D09", "error_sp_hom.BaseGM_Endog_Error_Hom", LIB + HOME + "def spec(y, x, yend, q, w, epsilon):\n    return homendog(y, x, yend, q, w, 'hom_sc', 3, epsilon)\n", sc={"max_iter": 3, "epsilon": P}, loops=3, **BT, soft=SM)
for a1 in ("hom", "hom_sc", "het"):
    R("D09", "error_sp_hom.BaseGM_Error_Hom", LIB + HOME + "def spec(y, x, w):\n    return hom(y, x, w, %r)\n" % a1, sc={"A1": a1}, **BT, soft=SM)
    R("D09", "error_sp_hom.BaseGM_Endog_Error_Hom", LIB + HOME + "def spec(y, x, yend, q, w):\n    return homendog(y, x, yend, q, w, %r)\n" % a1, sc={"A1": a1}, **BT, soft=SM)
R("D09", "error_sp_hom.BaseGM_Combo_Hom", LIB + HOME + "def spec(y, x, yend, q, w):\n    return homendog(y, x, yend, q, w, 'hom_sc')\n", sc={"yend": P, "q": P, "w": P}, **BT, soft=SM)
OPI = OPM + ["utils.inverse_prod"]
for sl, ex in ((0, "const(x)"), (1, "const(np.hstack((x, w.sparse@x)))")):
    for s1 in (False, True):
        R("D09", "error_sp_het.GM_Error_Het", LIB + HET + "def spec(y, x, w):\n    return het(y, %s, w.sparse, %s)\n" % (ex, s1), sc={"w": P, "slx_lags": sl, "step1c": s1}, opaque=OPM, soft=SH)
    R("D09", "error_sp_het.GM_Endog_Error_Het", LIB + HET + "def spec(y, x, yend, q, w, inv_method):\n    return hetendog(y, %s, yend, q, w.sparse, False, inv_method, 0)\n" % ex, sc={"w": P, "slx_lags": sl}, assume=bound(0), opaque=OPI, soft=SH)
    R("D09", "error_sp_hom.GM_Error_Hom", LIB + HOME + "def spec(y, x, w):\n    return hom(y, %s, w.sparse, 'hom_sc')\n" % ex, sc={"w": P, "slx_lags": sl}, opaque=OPM, soft=SM)
    R("D09", "error_sp_hom.GM_Endog_Error_Hom", LIB + HOME + "def spec(y, x, yend, q, w):\n    return homendog(y, %s, yend, q, w.sparse, 'hom_sc')\n" % ex, sc={"w": P, "slx_lags": sl}, opaque=OPM, soft=SM)
# spatial lag and spatial error: the lag is instrumented by the lags of the exogenous variables (beyond those in the equation)
COMBO = """
def parts(y, x, yend, q, w, w_lags, slx_lags, lag_q):
    W = w.sparse
    lags = [x]
    for i in range(slx_lags + w_lags):
        lags.append(W@lags[-1])
    X = const(np.hstack(lags[:slx_lags + 1]))
    inst = lags[slx_lags + 1:]
    Ye = W@y
    if yend is not None:
        v = np.hstack((lags[slx_lags], q)) if lag_q else lags[slx_lags]
        inst = []
        for i in range(w_lags):
            v = W@v
            inst.append(v)
        inst = [q] + inst
        Ye = np.hstack((yend, Ye))
    return X, Ye, np.hstack(inst)
"""
for ye in (None, P):
    for opts in ({}, {"slx_lags": 1}, {"w_lags": 2}) + (({"lag_q": False},) if ye else ()):
        sc = {"w": P, "yend": ye, "q": ye, **opts}
        a = "parts(y, x, %s, w, %d, %d, %s)" % ("yend, q" if ye else "None, None", opts.get("w_lags", 1), opts.get("slx_lags", 0), opts.get("lag_q", True))
        sig = "def spec(m, y, x, yend, q, w):\n    X, Ye, Q = %s\n" % a
        nm = "yend given" if ye else None
        rho = "    return {**r, 'rho': r['betas'][-2]}\n"
        R("D09", "error_sp.GM_Combo", LIB + KP + COMBO + sig + "    r = endog(y, X, Ye, Q, w.sparse)\n" + rho, sc=sc, opaque=OPM, name=nm)
        R("D09", "error_sp_het.GM_Combo_Het", LIB + HET + COMBO + sig + "    r = hetendog(y, X, Ye, Q, w.sparse, False, 'power_exp', 0)\n" + rho, sc=sc, opaque=OPI, name=nm, assume=bound(0), soft=SH)
        R("D09", "error_sp_hom.GM_Combo_Hom", LIB + HOME + COMBO + sig + "    r = homendog(y, X, Ye, Q, w.sparse, 'hom_sc')\n" + rho, sc=sc, opaque=OPM, name=nm, soft=SM)
# the coefficient of the last endogenous variable of a model without a spatial lag is not bounded (recorded finding: it is)
UNB = "    r, d = %s, %s\n    return {**r, **{k + '~': v for k, v in d.items()}}\n"
for side in (1, -1):
    nm = "last coefficient %s" % ("above 0.9" if side > 0 else "below -0.9")
    R("D09", "error_sp_het.BaseGM_Endog_Error_Het", LIB + HET + "def spec(y, x, yend, q, w, inv_method):\n" + UNB % tuple("hetendog(y, x, yend, q, w, False, inv_method, %d)" % z for z in (0, side)), sc=IVM, name=nm, assume=bound(side), soft=SH, **BT)
    R("D09", "error_sp_het.GM_Endog_Error_Het", LIB + HET + "def spec(y, x, yend, q, w, inv_method):\n" + UNB % tuple("hetendog(y, const(x), yend, q, w.sparse, False, inv_method, %d)" % z for z in (0, side)), sc={"w": P}, name=nm, assume=bound(side), opaque=OPI, soft=SH)
