# Maximum likelihood: Ord (1975), Anselin (1988): Gaussian likelihood, concentrated over beta and sigma2
FLOOR["D08"] = 90
SH = {"rho": (), "lam": (), "n": N, "e0": (N, N1), "e1": (N, N1), "W": (N, N), "Wsp": (N, N), "I": (N, N), "ylag": (N, N1), "xlag": (N, K), "evals": (N,)}
DET = {"": "np.log(np.linalg.det(np.eye(n) - %s*W))", "_sp": "np.log(np.linalg.det(I - %s*Wsp))", "_ord": "np.log(1 - %s*evals).sum()"}
ARG = {"": "W", "_sp": "I, Wsp", "_ord": "evals"}
for s in DET:
    R("D08", "ml_lag.lag_c_loglik" + s, '''
def spec(rho, n, e0, e1, %s):
    e = e0 - rho*e1
    return {"ret": n/2*np.log((e.T@e)/n) - %s}
''' % (ARG[s], DET[s] % "rho"), shapes=SH)
    R("D08", "ml_error.err_c_loglik" + s, '''
def spec(lam, n, y, ylag, x, xlag, %s):
    ys = y - lam*ylag
    xs = x - lam*xlag
    e = ys - xs@(la.inv(xs.T@xs)@(xs.T@ys))
    return {"ret": n/2*np.log((e.T@e)/n) - %s}
''' % (ARG[s], DET[s] % "lam"), shapes=SH)
LAG0 = '''
from scipy.optimize import minimize_scalar
from spreg.utils import inverse_prod
def spec(m, y, x, w, epsilon):
    n, k = m.x.shape
    W = w.sparse
    X = m.x
    wy = W@y
    M = lambda v: v - X@(la.inv(X.T@X)@(X.T@v))
    e0, e1 = M(y), M(wy)
    def f(rho):
        e = e0 - rho*e1
        return n/2*np.log((e.T@e)/n) - np.log(np.linalg.det(np.eye(n) - rho*W))
    res = minimize_scalar(f, 0.0, bounds=(-1.0, 1.0), method="bounded", options={"xatol": epsilon})
    rho = m.rho
    ys = y - rho*wy
    b = la.inv(X.T@X)@(X.T@ys)
    u = ys - X@b
    s2 = (u.T@u)/n
    A = np.eye(n) - rho*W
    G = W@la.inv(A)
    t1, t2, t3 = np.trace(G), np.trace(G@G), np.trace(G.T@G)
    wp = W@m.predy_e
    a = X.T@wp
    s = m.sig2
    I = np.vstack((np.hstack((X.T@X/s, a/s, np.zeros((k, 1)))),
                   np.hstack((a.T/s, t2 + t3 + (wp.T@wp)/s, t1/s)),
                   np.hstack((np.zeros((1, k)), t1/s, n/(2*s**2)))))
    V = la.inv(I)
@RET@'''
RET = '''    return {"rho": res.x, "logll": -res.fun - n/2*np.log(2*pi) - n/2, "betas": np.vstack((b, rho)), "u": u, "predy": y - u, "sig2": s2,
            "e_pred": y - m.predy_e, "vm1": V, "vm": V[:-1, :-1]}
'''
LAG = LAG0.replace("@RET@", RET)
# recorded finding: with symmetric neighbours the matrix is replaced by its symmetric similar matrix, which changes tr(G'G)
DEV = """    S = symmetrize(w)
    G = S@la.inv(np.eye(n) - rho*S)
    t1, t2, t3 = np.trace(G), np.trace(G@G), np.trace(G.T@G)
    J = np.vstack((np.hstack((X.T@X/s, a/s, np.zeros((k, 1)))),
                   np.hstack((a.T/s, t2 + t3 + (wp.T@wp)/s, t1/s)),
                   np.hstack((np.zeros((1, k)), t1/s, n/(2*s**2)))))
    D = la.inv(J)
"""
LAGS = LAG0.replace("@RET@", DEV + RET.replace('"vm": V[:-1, :-1]', '"vm": V[:-1, :-1], "vm1~": D, "vm~": D[:-1, :-1]')).replace("import inverse_prod", "import inverse_prod\nfrom spreg.w_utils import symmetrize")
ASYM = mk("cmp", "==", mk("method", "asymmetry", mk("param", "w"), (), (("intrinsic", FALSE),)), mk("list"))
CUT = {"rho": (), "sig2": (), "predy_e": (N, N1)}
SYMM = ["w_utils.symmetrize"]
for en in ("ml_lag.BaseML_Lag", "ml_lag.ML_Lag"):
    CUT = {"x": (N, K), **CUT}  # in a user class x is the data with the constant
    for me in ("full", "LU"):
        R("D08", en, LAG, sc={"method": me, "w": P}, cut=CUT)
    R("D08", en, LAG, sc={"method": "ord", "w": P}, cut=CUT, facts=[(ASYM, False)], opaque=SYMM)
    R("D08", en, LAGS, sc={"method": "ord", "w": P}, cut=CUT, facts=[(ASYM, True)], opaque=SYMM, name="symmetric neighbours")
R("D08", "w_utils.symmetrize", """
def spec(w):
    d = np.sqrt(w.sparse.sum(axis=1))
    return {"ret": np.diag(d.flatten())@w.sparse@np.diag(1/d.flatten())}
""", sc={"w": P})
ERR0 = '''
from scipy.optimize import minimize_scalar
from spreg.w_utils import symmetrize
def spec(m, y, x, w, epsilon):
    X = m.x
    n, k = X.shape
    W = w.sparse
    wy, wX = W@y, W@X
    def f(lam):
        ys, xs = y - lam*wy, X - lam*wX
        e = ys - xs@(la.inv(xs.T@xs)@(xs.T@ys))
        return n/2*np.log((e.T@e)/n) - np.log(np.linalg.det(np.eye(n) - lam*W))
    res = minimize_scalar(f, 0.0, bounds=(-1.0, 1.0), method="bounded", @TOL@)
    lam = m.lam
    ys, xs = y - lam*wy, X - lam*wX
    xsxsi = la.inv(xs.T@xs)
    b = xsxsi@(xs.T@ys)
    u = y - X@b
    ef = u - lam*(W@u)
    s2 = (ef.T@ef)/n
    s = m.sig2
    A = np.eye(n) - lam*W
    G = W@la.inv(A)
    t1, t2, t3 = np.trace(G), np.trace(G@G), np.trace(G.T@G)
    I = np.vstack((np.hstack((t2 + t3, t1/s)), np.hstack((t1/s, n/(2*s**2)))))
    V = la.inv(I)
    def full(V):
        return np.vstack((np.hstack((s*xsxsi, np.zeros((k, 1)))), np.hstack((np.zeros((1, k)), V[0, 0]*np.ones((1, 1))))))
    ic = @IC@
@RET@'''
RETE = '''    return {"lam": res.x, "logll": -res.fun - n/2*np.log(2*pi) - n/2, "betas": np.vstack((b, lam)), "u": u, "predy": y - u, "sig2": s2,
            "e_filtered": ef, "vm1": V, "vm": full(V), **ic}
'''
DEVE = '''    S = symmetrize(w)
    G = S@la.inv(np.eye(n) - lam*S)
    t1, t2, t3 = np.trace(G), np.trace(G@G), np.trace(G.T@G)
    D = la.inv(np.vstack((np.hstack((t2 + t3, t1/s)), np.hstack((t1/s, n/(2*s**2))))))
'''
IC = '{"aic": 2*m.k - 2*m.logll, "schwarz": np.log(n)*m.k - 2*m.logll}'
for en in ("ml_error.BaseML_Error", "ml_error.ML_Error"):
    CUT = {"x": (N, K), "lam": (), "sig2": ()}
    for me, tol, ret, fa, nm in (("full", "tol=epsilon", RETE, None, None), ("LU", 'options={"xatol": epsilon}', RETE, None, None), ("ord", "tol=epsilon", RETE, False, None),
                                 ("ord", "tol=epsilon", DEVE + RETE.replace('"vm": full(V)', '"vm": full(V), "vm1~": D, "vm~": full(D)'), True, "symmetric neighbours")):
        R("D08", en, ERR0.replace("@TOL@", tol).replace("@IC@", IC if "Base" not in en else "{}").replace("@RET@", ret), sc={"method": me, "w": P}, cut=CUT,
          facts=[(ASYM, fa)] if fa is not None else None, opaque=SYMM, name=nm)
RX = ["regimes.regimeX_setup"]
# recorded finding: the lag of the regime design is replaced by the regime design of the lag, W(x by regime) by (Wx) by regime
ERRR = ERR0.replace("def spec(m, y, x, w, epsilon):", """from spreg.regimes import regimeX_setup
def spec(m, y, x, w, epsilon, regimes, cols2regi):
    good = formula(m, y, x, w, epsilon, w.sparse@m.x)
    x0 = np.hstack((np.ones((x.shape[0], 1)), x@SLX@))
    bad = formula(m, y, x, w, epsilon, regimeX_setup(w.sparse@x0, regimes, m.cols2regi[0:x0.shape[1]], m.regimes_set, constant=None))
    return {**good, **{k + "~": v for k, v in bad.items()}}

def formula(m, y, x, w, epsilon, wX):""").replace("wy, wX = W@y, W@X", "wy = W@y")
for sc, slx in (({}, ""), ({"slx_lags": 1}, ", w.sparse@x")):
    R("D08", "ml_error_regimes.ML_Error_Regimes", ERRR.replace("@SLX@", slx).replace("@TOL@", "tol=epsilon").replace("@IC@", IC).replace("@RET@", RETE), sc={"method": "full", "w": P, **sc}, cut={"x": (N, K), "lam": (), "sig2": ()}, opaque=RX)
    for me in ("full", "LU"):
        R("D08", "ml_lag_regimes.ML_Lag_Regimes", LAG, sc={"method": me, "w": P, **sc}, cut={"x": (N, K), "rho": (), "sig2": (), "predy_e": (N, N1)}, opaque=RX)
