# Panels: T periods stacked by period, each with the same N units
FLOOR["D14"] = 40
TP = SYM("TP")
NT = NF().mul(TP, N)
PSH = {"y": (NT, N1), "x": (NT, K), "arr": (NT, K), "n": N, "t": TP, "phi": ()}
R("D14", "panel_utils.demean_panel", """
def spec(arr, n, t, phi):
    # unit means are taken over the periods; a share 1 - phi of them is removed
    return {"ret": arr - (1 - phi)*(np.kron(np.ones((t, t))/t, np.eye(n))@arr)}
""", sc={"phi": P}, shapes=PSH)
DM = ["panel_utils.demean_panel"]
LL = {"rho": (), "lam": (), "n": N, "t": TP, "e0": (NT, N1), "e1": (NT, N1), "I": (N, N), "Wsp": (N, N), "ylag": (NT, N1), "xlag": (NT, K), "y": (NT, N1), "x": (NT, K),
      "evals": (N,), "evecs": (N, N)}
for en, d in (("panel_fe.lag_c_loglik_sp", "1"), ("panel_re.lag_c_loglik_sp", "(n*t)"), ("panel.BaseML_LagFE.@lag_c_loglik_sp", "(n*t)"), ("panel.BaseML_LagRE.@lag_c_loglik_sp", "(n*t)")):
    R("D14", en, """
def spec(rho, n, t, e0, e1, I, Wsp):
    e = e0 - rho*e1
    return {"ret": n*t/2*np.log((e.T@e)/%s) - t*np.log(np.linalg.det(I - rho*Wsp))}
""" % d, shapes=LL)
for en in ("panel_fe.err_c_loglik_sp", "panel.BaseML_ErrorFE.@err_c_loglik_sp"):
    R("D14", en, """
def spec(lam, n, t, y, ylag, x, xlag, I, Wsp):
    ys = y - lam*ylag
    xs = x - lam*xlag
    e = ys - xs@(la.inv(xs.T@xs)@(xs.T@ys))
    return {"ret": n*t/2*np.log(e.T@e) - t*np.log(np.linalg.det(I - lam*Wsp))}
""", shapes=LL)
MIN = "from scipy.optimize import minimize_scalar, minimize\nfrom spreg.utils import inverse_prod, optim_moments\nfrom spreg.panel_utils import demean_panel\n"
PD = {"y": (NT, N1), "x": (NT, K), "bigy": (NT, N1), "bigx": (NT, K)}
LAGFE = MIN + """
def spec(m, y, x, w, epsilon):
    n = w.n
    t = y.shape[0]//n
    k = x.shape[1]
    W = w.sparse
    Wt = np.kron(np.eye(t), W)
    def dm(v):
        return v - np.kron(np.ones((t, t))/t, np.eye(n))@v
    Y, X = m.y, m.x
    wy = Wt@Y
    M = lambda v: v - X@(la.inv(X.T@X)@(X.T@v))
    e0, e1 = M(Y), M(wy)
    def f(rho):
        e = e0 - rho*e1
        return n*t/2*np.log((e.T@e)/@DIV@) - t*np.log(np.linalg.det(np.eye(n) - rho*W))
    res = minimize_scalar(f, 0.0, bounds=@B@, method="bounded", options={"xatol": epsilon})
    rho = m.rho
    b = la.inv(X.T@X)@(X.T@(Y - rho*wy))
    u = Y - rho*wy - X@b
    s = m.sig2
    G = W@la.inv(np.eye(n) - rho*W)
    t1, t2, t3 = np.trace(G), np.trace(G@G), np.trace(G.T@G)
    wp = np.kron(np.eye(t), G)@(X@b)
    a = X.T@wp
    I = np.vstack((np.hstack((X.T@X/s, a/s, np.zeros((k, 1)))),
                   np.hstack((a.T/s, t*(t2 + t3) + (wp.T@wp)/s, t*t1/s)),
                   np.hstack((np.zeros((1, k)), t*t1/s, n*t/(2*s**2)))))
    V = la.inv(I)
    pe = inverse_prod(Wt, X@b, rho, inv_method="power_exp", threshold=epsilon)
    return {"rho": res.x, "logll": -res.fun + @LL@ - n*t/2*np.log(2*pi) - n*t/2, @DV@"betas": np.vstack((b, rho)), "u": u, "predy": Y - u, "sig2": (u.T@u)/(n*t),
            "predy_e": pe, "e_pred": Y - m.predy_e, "vm1": V, "vm": V[:-1, :-1], "varb": la.inv(np.vstack((np.hstack((X.T@X/s, a/s)), np.hstack((a.T/s, t*(t2 + t3) + (wp.T@wp)/s))))), "n": n*t, "t": t, "y": dm(y), "x": dm(x), "k": k + @DK@}
"""
# recorded finding: the deprecated classes leave a constant out of the reported likelihood
DV = '"logll~": -res.fun - n*t/2*np.log(2*pi) - n*t/2, '
for en, b, div, dk, ll, dv in (("panel.BaseML_LagFE", "(-0.99, 0.99)", "(n*t)", 1, "0", ""), ("panel_fe.BasePanel_FE_Lag", "(-1.0, 1.0)", "1", 0, "n*t/2*np.log(n*t)", DV)):
    R("D14", en, LAGFE.replace("@LL@", ll).replace("@DV@", dv).replace("@B@", b).replace("@DIV@", div).replace("@DK@", str(dk)), sc={"w": P}, shapes=PD, cut={"x": (NT, K), "y": (NT, N1), "rho": (), "sig2": (), "predy_e": (NT, N1)}, opaque=["utils.inverse_prod"])
ERRFE = MIN + """
def spec(m, y, x, w, epsilon):
    n = w.n
    t = y.shape[0]//n
    k = x.shape[1]
    W = w.sparse
    Wt = np.kron(np.eye(t), W)
    def dm(v):
        return v - np.kron(np.ones((t, t))/t, np.eye(n))@v
    Y, X = m.y, m.x
    wy, wX = Wt@Y, Wt@X
    def f(lam):
        ys, xs = Y - lam*wy, X - lam*wX
        e = ys - xs@(la.inv(xs.T@xs)@(xs.T@ys))
        return n*t/2*np.log(e.T@e) - t*np.log(np.linalg.det(np.eye(n) - lam*W))
    res = minimize_scalar(f, 0.0, bounds=(-1.0, 1.0), method="bounded", options={"xatol": epsilon})
    lam = m.lam
    ys, xs = Y - lam*wy, X - lam*wX
    C = la.inv(xs.T@xs)
    b = C@(xs.T@ys)
    u = Y - X@b
    e = u - lam*(Wt@u)
    s = m.sig2
    G = W@la.inv(np.eye(n) - lam*W)
    t1, t2, t3 = np.trace(G), np.trace(G@G), np.trace(G.T@G)
    V = la.inv(np.vstack((np.hstack((t*(t2 + t3), t*t1/s)), np.hstack((t*t1/s, n*t/(2*s**2))))))
    vm = np.vstack((np.hstack((s*C, np.zeros((k, 1)))), np.hstack((np.zeros((1, k)), V[0, 0]*np.ones((1, 1))))))
    return {"lam": res.x, "logll": -res.fun - n*t/2*np.log(2*pi) - n*t/2 + n*t/2*np.log(n*t), @DV@ "betas": np.vstack((b, lam)), "u": u, "predy": Y - u, "e_filtered": e, "sig2": (e.T@e)/(n*t),
            "vm1": V, "vm": vm, "varb": s*C, "n": n*t, "t": t, "y": dm(y), "x": dm(x), "k": k}
"""
for en, dv in (("panel.BaseML_ErrorFE", ""), ("panel_fe.BasePanel_FE_Error", DV)):
    R("D14", en, ERRFE.replace("@DV@", dv), sc={"w": P}, shapes=PD, cut={"x": (NT, K), "y": (NT, N1), "lam": (), "sig2": ()})

for en in ("panel.BaseML_LagRE.@phi_c_loglik", "panel_re.phi_c_loglik"):
    R("D14", en, MIN + """
def spec(phi, rho, beta, bigy, bigx, n, t, W_nt):
    y, x = demean_panel(bigy, n, t, phi=phi), demean_panel(bigx, n, t, phi=phi)
    e = y - rho*(W_nt@y) - x@beta
    return {"ret": n*t/2*np.log(e.T@e) - n/2*np.log(phi**2)}
""", shapes={**PD, **LL, "beta": (K, N1), "W_nt": (NT, NT)})
LAGRE = MIN + """
def f1(phi, rho, beta, bigy, bigx, n, t, Wt):
    y, x = demean_panel(bigy, n, t, phi=phi), demean_panel(bigx, n, t, phi=phi)
    e = y - rho*(Wt@y) - x@beta
    return n*t/2*np.log(e.T@e) - n/2*np.log(phi**2)
def f2(rho, n, t, e0, e1, I, W):
    e = e0 - rho*e1
    return n*t/2*np.log((e.T@e)/(n*t)) - t*np.log(np.linalg.det(I - rho*W))
def spec(m, bigy, bigx, w, epsilon):
    n = w.n
    t = bigy.shape[0]//n
    k = bigx.shape[1]
    W = w.sparse
    Wt = np.kron(np.eye(t), W)
    rho = phi = 0.1
    b = la.inv(bigx.T@bigx)@(bigx.T@bigy)
    # alternate between the share of the unit means and the spatial coefficient
    for i in range(@N@):
        last = phi
        res = minimize_scalar(f1, 0.1, bounds=@BP@, args=(rho, b, bigy, bigx, n, t, Wt), method="bounded", options={"xatol": epsilon})
        phi = res.x
        Y, X = demean_panel(bigy, n, t, phi=phi), demean_panel(bigx, n, t, phi=phi)
        wy = Wt@Y
        M = lambda v: v - X@(la.inv(X.T@X)@(X.T@v))
        res = minimize_scalar(f2, 0.0, bounds=@B@, args=(n, t, M(Y), M(wy), np.eye(n), W), method="bounded", options={"xatol": epsilon})
        rho = res.x
        b = la.inv(X.T@X)@(X.T@(Y - rho*wy))
    fit = {"test[-1]": abs(last - phi) > 1e-7, "phi": phi, "rho": rho, "y": Y, "x": X, "logll": -res.fun + n/2*np.log(m.phi**2) - n*t/2*np.log(2*pi) - n*t/2, @PJ@}
    Y, X, rho, phi, s = m.y, m.x, m.rho, m.phi, m.sig2
    wy = Wt@Y
    b = la.inv(X.T@X)@(X.T@(Y - rho*wy))
    u = Y - rho*wy - X@b
    G = W@la.inv(np.eye(n) - rho*W)
    t1, t2, t3 = np.trace(G), np.trace(G@G), np.trace(G.T@G)
    wp = np.kron(np.eye(t), G)@(X@b)
    a = X.T@wp
    c = t*(t2 + t3) + (wp.T@wp)/s
    z = np.zeros((k, 1))
    I = np.vstack((np.hstack((X.T@X/s, a/s, z, z)),
                   np.hstack((a.T/s, c, -t1/s, t*t1/s)),
                   np.hstack((z.T, -t1/s, n*(1 + 1/phi**2), -n/s)),
                   np.hstack((z.T, t*t1/s, -n/s, n*t/(2*s**2)))))
    V = la.inv(I)
    pe = inverse_prod(Wt, X@b, rho, inv_method="power_exp", threshold=epsilon)
    J = np.vstack((np.hstack((X.T@X/s, a/s, z, z)),
                   np.hstack((a.T/s, c, -t1/s, t*t1/s)),
                   np.hstack((z.T, -t1/s, n*(1 + 1/phi**2), -n/s**2)),
                   np.hstack((z.T, t*t1/s, -n/s, n*t/(2*s**2)))))
    D = la.inv(J)
    return {**fit, "vm1~": D, "vm~": D[:-1, :-1], "betas": np.vstack((b, rho, phi)), "u": u, "predy": Y - u, "sig2": (u.T@u)/(n*t), "predy_e": pe, "e_pred": Y - m.predy_e,
            "vm1": V, "vm": V[:-1, :-1], "varb": la.inv(np.vstack((np.hstack((X.T@X/s, a/s)), np.hstack((a.T/s, c))))), "n": n*t, "t": t, "k": k + @DK@}
"""
OPQ = ["panel_utils.demean_panel", "utils.inverse_prod"]
for en, bp, bb, pj, dk, f in (("panel.BaseML_LagRE", "(1e-08, 0.99999999)", "(-0.99, 0.99)", "", 1, "panel.BaseML_LagRE.%s"), ("panel_re.BasePanel_RE_Lag", "(0.0, 1.0)", "(-1.0, 1.0)", '"logll~": -res.fun - n*t/2*np.log(2*pi) - n*t/2', 0, "panel_re.%s")):
    for k in (1, 2):
        R("D14", en, LAGRE.replace("@N@", str(k)).replace("@BP@", bp).replace("@B@", bb).replace("@PJ@", pj).replace("@DK@", str(dk)), sc={"w": P}, shapes=PD, loops=k, name="%d rounds" % k,
          cut={"x": (NT, K), "y": (NT, N1), "rho": (), "phi": (), "sig2": (), "predy_e": (NT, N1)}, opaque=OPQ)
PX = {"y": (NT, N1), "x": (NT, K)}
LMP = """
def spec(y, x, w):
    # Lagrange multiplier tests of the pooled regression, statistics with T*tr(W'W + WW)
    n = w.n
    t = y.shape[0]//n
    X = np.hstack((np.ones((n*t, 1)), x))
    M = lambda v: v - X@(la.inv(X.T@X)@(X.T@v))
    u = M(y)
    W = w.sparse
    Wt = np.kron(np.eye(t), W)
    s = (u.T@u)/(n*t - X.shape[1])
    b = t*np.trace(W@W + W.T@W)
    wxb = Wt@(y - u)
    J = (wxb.T@M(wxb) + @B@*s)/s
    le = (u.T@(Wt@u))/s
    ll = (u.T@(Wt@y))/s
    lm = @LM@
    D = (wxb.T@M(wxb) + (b/t)**2*s)/s
    return {"ret": (lm, stats.chi2.sf(lm, 1))@DV@}
"""
for nm, f, dv in (("LMlag", "ll**2/J", ', "ret~": (ll**2/D, stats.chi2.sf(ll**2/D, 1))'), ("LMerror", "le**2/b", ""), ("rLMlag", "(ll - le)**2/(J - b)", ""), ("rLMerror", "(le - b/J*ll)**2/(b*(1 - b/J))", "")):
    R("D14", "diagnostics_panel.panel_" + nm, LMP.replace("@B@", "b").replace("@LM@", f).replace("@DV@", dv), shapes=PX, sc={"w": P}, dims=True)
HAUS = """
def spec(panel_fe, panel_re):
    d = panel_fe.betas - panel_re.betas[1:-1]
    h = d.T@la.inv(panel_re.varb[1:, 1:] - panel_fe.varb)@d
    return {"ret": (h, stats.chi2.sf(h, panel_re.k))}
"""
R("D14", "diagnostics_panel.panel_Hausman", HAUS, attrs={"panel_fe.betas": (K, N1), "panel_re.betas": (NF().add(K, num(2)), N1), "panel_fe.varb": (K, K), "panel_re.varb": (NF().add(K, N1), NF().add(K, N1)), "panel_re.k": K})
BSK = """
def spec(reg, w):
    n = w.n
    t = reg.n//n
    y, x = reg.y, reg.x
    u = y - x@(la.inv(x.T@x)@(x.T@y))
    W = w.sparse
    b = np.trace(W.T@W + W@W)
    G = (u.T@np.kron(np.ones((t, t)), np.eye(n))@u)/(u.T@u) - 1
    H = (u.T@np.kron(np.eye(t), W)@u)/(u.T@u)
    a = np.sqrt(n*t/(2*(t - 1)))*G
    c = np.sqrt(n**2*t/b)*H
    return {@RET@}
"""
RT = {"LM1": "a", "LM2": "c"}
def CLS(names):
    # what the class of the given regression is
    def f(c):
        if c.op == "cmp" and any(isinstance(x, T) and x.op == "attr" and x.a[1] == "__name__" for x in c.a):
            s = {cval(x) for x in subterms(c) if isconst(x) and isinstance(cval(x), str)}
            return bool(s & set(names)) != (c.a[0] in ("!=", "not in"))
    return f
BA = {"reg.y": (NT, N1), "reg.x": (NT, K), "reg.n": NT, "reg.u": (NT, N1)}
for k, v in RT.items():
    R("D14", "diagnostics_panel.BSK_tests", BSK.replace("@RET@", '"ret[\'Statistic\'][0]": %s, "ret[\'p-value\'][0]": 1 - stats.norm.cdf(%s), "ret[\'df\'][0]": 1' % (v, v)), attrs=BA, sc={"w": P, "which": k}, assume=CLS(()))
R("D14", "diagnostics_panel.BSK_tests", BSK.replace("    return {@RET@}\n", """
    # one-sided joint test: only the parts with the sign of the alternative count
    j = a**2 + c**2
    pa, pc = 0.5*stats.chi2.sf(a**2, 1), 0.5*stats.chi2.sf(c**2, 1)
    if a > 0 and c > 0:
        s, p = j, 0.5*stats.chi2.sf(j, 1) + 0.25*stats.chi2.sf(j, 2)
    elif a > 0 and c <= 0:
        s, p = a**2, pa
    elif a <= 0 and c > 0:
        s, p = c**2, pc
    else:
        s, p = 0, 1.0
    return {"ret['Statistic'][0]": s, "ret['p-value'][0]": p, "ret['df'][0]": 2}
"""), attrs=BA, sc={"w": P, "which": "LMJ"}, assume=CLS(()))
R("D14", "diagnostics_panel.BSK_tests", """
def spec(reg, w):
    n = w.n
    t = reg.n//n
    u = reg.y - reg.x@reg.betas
    W = w.sparse
    b = np.trace(W.T@W + W@W)
    J = np.kron(np.ones((t, t))/t, np.eye(n))
    E = np.eye(n*t) - J
    s1 = (u.T@J@u)/n
    sv = (u.T@E@u)/(n*(t - 1))
    V = W + W.T
    D = 0.5*(sv/s1**2*(u.T@np.kron(np.ones((t, t))/t, V)@u) + (1/sv)*(u.T@np.kron(np.eye(t) - np.ones((t, t))/t, V)@u))
    s = D/np.sqrt((t - 1 + sv**2/s1**2)*b)
    return {"ret['Statistic'][0]": s, "ret['p-value'][0]": 1 - stats.norm.cdf(s), "ret['df'][0]": 1}
""", attrs=BA, sc={"w": P, "which": "LMC_spatial"}, assume=CLS(("PanelRE",)))
R("D14", "diagnostics_panel.BSK_tests", """
def spec(reg, w):
    n = w.n
    t = reg.n//n
    u, lam = reg.u, reg.betas[-1, 0]
    W = w.sparse
    B = np.eye(n) - lam*W
    BB = B.T@B
    v = np.kron(np.eye(t), B)@u
    sv = (v.T@v)/(n*t)
    V = W.T@B + B.T@W
    h, d, e = np.trace(BB), np.trace(V), np.trace(BB@BB)
    g, c = np.trace(V@la.inv(BB)), np.trace(V@la.inv(BB)@V@la.inv(BB))
    D = -t/(2*sv)*h + (u.T@np.kron(np.ones((t, t)), BB@BB)@u)/(2*sv**2)
    num = 2/t*(n*c - g**2)
    if num < 0:
        num = 0
    den = t*n*e*c - n*d**2 - t*g**2*e + 2*g*h*d - h**2*c
    if den < 0:
        den = 0
    den = sv*np.sqrt(den)
    s = 0 if den == 0 else D*sv**2*np.sqrt(num)/den
    return {"ret['Statistic'][0]": s, "ret['p-value'][0]": 1 - stats.norm.cdf(s), "ret['df'][0]": 1}
""", attrs=BA, sc={"w": P, "which": "LMC_RE"}, assume=CLS(("BaseML_ErrorPooled",)))
PFE = """
def spec(m, y, x, w):
    n = w.n
    t = y.shape[0]//n
    k = x.shape[1]
    dm = lambda v: v - np.kron(np.ones((t, t))/t, np.eye(n))@v
    X, Y = dm(x), dm(y)
    C = la.inv(X.T@X)
    b = C@(X.T@Y)
    e = Y - X@b
    s = (e.T@e)/(n*t - n)
    mu = np.kron(np.ones((1, t)), np.eye(n))@(y - x@m.betas)/t
    return {"betas": b, "u": y - x@b, "predy": x@b, "sig2": s, "vm": s*C, "std_err": np.sqrt(np.diag(s*C)), "fixed_effects": mu, "mu_i": mu, "mean_mu_i": np.sum(mu)/n,
            "t": t, "n": n*t, "k": k, "y": y, "x": x, "df_resid": n*t - n}
"""
R("D14", "panel.PanelFE", PFE, shapes=PX, sc={"w": P, "vm": False}, dims=True, cut={"betas": (K, N1)})
POLS = """
def spec(m, y, x, w):
    n = w.n
    t = y.shape[0]//n
    X = np.hstack((np.ones((n*t, 1)), x))
    C = la.inv(X.T@X)
    b = C@(X.T@y)
    u = y - X@b
    s = (u.T@u)/(n*t - X.shape[1])
    return {"betas": b, "u": u, "predy": X@b, "sig2": s, "vm": s*C, "t": t, "n": n*t, "k": X.shape[1], "y": y, "x": X}
"""
R("D14", "panel.PooledOLS", POLS, shapes=PX, sc={"w": P, "vm": False, "spat_diag": False}, dims=True)
PRE_ = """
def spec(m, y, x, w):
    n = w.n
    t = y.shape[0]//n
    X = np.hstack((np.ones((n*t, 1)), x))
    k = X.shape[1]
    mean = lambda v: np.kron(np.ones((1, t)), np.eye(n))@v/t
    rep = lambda v: np.kron(np.ones((t, 1)), np.eye(n))@v
    # within regression, on the columns that vary over time
    Xd, Yd = X - rep(mean(X)), y - rep(mean(y))
    ok = np.var(Xd, axis=0) > 1e-12
    Xw = Xd[:, ok]
    C = la.inv(Xw.T@Xw)
    bw = C@(Xw.T@Yd)
    ew = Yd - Xw@bw
    se = (ew.T@ew)/(n*t - n - np.sum(ok))
    # between regression
    Xb, Yb = mean(X), mean(y)
    eb = Yb - Xb@(la.inv(Xb.T@Xb)@(Xb.T@Yb))
    sm = (eb.T@eb)/(n - k) - m.sigma2_epsilon/t
    if sm < 0:
        sm = 0.0
    th = 1 - np.sqrt(m.sigma2_epsilon/(m.sigma2_epsilon + t*m.sigma2_mu))
    Xs, Ys = X - m.theta*rep(mean(X)), y - m.theta*rep(mean(y))
    Ci = la.inv(Xs.T@Xs)
    b = Ci@(Xs.T@Ys)
    es = Ys - Xs@b
    s = (es.T@es)/(n*t)
    d = bw - m.betas[ok]
    h = d.T@la.inv(m.sigma2_epsilon*C - m.vm[np.ix_(ok, ok)])@d
    return {"sigma2_epsilon": se, "sigma2_mu": sm, "theta": th, "betas": b, "u": y - X@m.betas, "predy": X@m.betas, "sig2": s, "vm": m.sig2*Ci, "std_err": np.sqrt(np.diag(m.vm)),
            "t": t, "n": n*t, "k": k, "y": y, "x": X, "hausman_df": np.sum(ok), "hausman_stat": h, "hausman_p": 1 - stats.chi2.cdf(h, np.sum(ok))}
"""
def VARY(c):
    # some regressor varies over time
    if c.op == "and" and all(VARY(x) for x in c.a):
        return True
    if c.op == "cmp" and c.a[0] == "is not" and c.a[2] is NONE and any(isconst(x) and cval(x) == 1e-12 for x in subterms(c)):
        return True
    if c.op == "not" and c.a[0].op == "cmp" and c.a[0].a[0] == "is":
        return VARY(mk("cmp", "is not", *c.a[0].a[1:]))
    if c.op == "cmp" and c.a[0] in (">", "<", "!=") and any(isconst(x) and cval(x) == 1e-12 for x in subterms(c)):
        if any(x.op in ("call", "method") and x.a[0] in ("sum", "numpy.sum") for x in c.a if isinstance(x, T)):
            return True
R("D14", "panel.PanelRE", PRE_, shapes=PX, sc={"w": P, "vm": False, "spat_diag": False}, dims=True, assume=VARY, sym=["cut:vm"], cut={"sigma2_epsilon": (), "sigma2_mu": (), "theta": (), "betas": (NF().add(K, N1), N1), "vm": (NF().add(K, N1), NF().add(K, N1)), "sig2": ()})
for en, d, mn in (("panel_re.err_c_loglik_ord", "1", (NT, None)), ("panel.BaseML_ErrorRE.@err_c_loglik_ord", "(n*t)", (N, None))):
    R("D14", en, """
def spec(lam_phi, evals, evecs, n, t, bigy, bigx, ylag, xlag, y_mean, x_mean, I, Wsp):
    # data transformed by the root of the inverse error covariance, given the eigenvalues and eigenvectors of the weights
    lam, phi = lam_phi
    P = np.diag((t*phi**2 + 1/(1 - lam*evals)**2)**(-0.5))@evecs.T
    B = np.eye(n) - lam*Wsp
    up = @UP@
    ys = bigy + up(y_mean) - lam*ylag
    xs = bigx + up(x_mean) - lam*xlag
    b = la.inv(xs.T@xs)@(xs.T@ys)
    s = (ys.T@ys - ys.T@xs@b)/@D@
    return {"ret": n*t/2*np.log(s) + 0.5*np.sum(np.log(1 + t*phi**2*(1 - lam*evals)**2)) - t*np.sum(np.log(1 - lam*evals))}
""".replace("@D@", d).replace("@UP@", "lambda v: np.kron(np.eye(t), P - B)@v" if mn[0] is NT else "lambda v: np.kron(np.ones((t, 1)), (P - B)@v)"),
      shapes={**LL, "phi": (), "bigy": (NT, N1), "bigx": (NT, K), "y_mean": (mn[0], N1), "x_mean": (mn[0], K)}, sc={"lam_phi": mk("tuple", mk("param", "lam"), mk("param", "phi")), "I": mk("call", "numpy.eye", (mk("param", "n"),), ())})
ERRRE = MIN + """
def spec(m, y, x, w, epsilon):
    n = w.n
    t = y.shape[0]//n
    k = x.shape[1]
    W = w.sparse
    In = np.eye(n)
    Wt = np.kron(np.eye(t), W)
    J = np.kron(np.ones((t, t))/t, In)
    rep = lambda A: np.kron(np.ones((t, t))/t, A)
    wy, wx = Wt@y, Wt@x
    def obj(p, root, d):
        lam, phi = p
        B = In - lam*W
        ys = y - lam*wy + rep(root(lam, phi) - B)@y
        xs = x - lam*wx + rep(root(lam, phi) - B)@x
        b = la.inv(xs.T@xs)@(xs.T@ys)
        s = (ys.T@ys - ys.T@xs@b)/d
        ev = la.eig(W)[0]
        return n*t/2*np.log(s) + 0.5*np.sum(np.log(1 + t*phi**2*(1 - lam*ev)**2)) - t*np.sum(np.log(1 - lam*ev))
    def good(lam, phi):
        v, V = la.eigh(t*phi**2*In + la.inv((In - lam*W).T@(In - lam*W)))
        return V@np.diag(v**(-0.5))@V.T
    def bad(lam, phi):
        v, V = la.eig(W)
        return np.diag((t*phi**2 + 1/(1 - lam*v)**2)**(-0.5))@V.T
    def off(p):
        return obj(p, bad, @OFF@)
    def opt(f):
        return minimize(f, (0.0, 0.1), bounds=@B@, method="L-BFGS-B"@OPT@)
    r1, r2 = opt(lambda p: obj(p, good, n*t)), opt(off)
    lam, r = m.lam, @R@
    B = In - lam*W
    A = la.inv(B.T@B)
    V = la.inv(t*r*In + A)
    def gls(P):
        # y and x transformed so that the errors are uncorrelated
        ys, xs = y - lam*wy + rep(P - B)@y, x - lam*wx + rep(P - B)@x
        C = la.inv(xs.T@xs)
        b = C@(xs.T@ys)
        return b, y - x@b, ys - xs@b, C
    b, u, ef, C = gls(good(lam, @SQ@))
    b2, u2, ef2, C2 = gls(bad(lam, @SQ@))
    s = m.sig2
    D = W.T@B + B.T@W
    def cov(C, a, c, d, e, f, g):
        I = np.vstack((np.hstack((a, c, d)), np.hstack((c, e, f)), np.hstack((d, f, g))))
        return np.vstack((np.hstack((s*C, np.zeros((k, 2)))), np.hstack((np.zeros((2, k)), la.inv(I)[:2, :2]))))
    def blocks(V):
        S, G = V@A, D@A
        SG = S@G
        return S, G, SG, t/(2*s)*np.trace(SG@V), (t - 1)/(2*s)*np.trace(G) + np.trace(SG@S)/(2*s), t/(2*s**2)*np.trace(S@V)
    S, G, SG, c, d, f = blocks(V)
    Z = la.inv(t*@Z@*In + A)
    S2, G2, SG2, c2, d2, f2 = blocks(Z)
    return {"lam": r1.x[0], "lam~": r2.x[0], "phi": @PHI1@, "phi~": @PHI2@, "logll": -r1.fun - n*t/2*np.log(2*pi) - n*t/2, "logll~": -r2.fun - n*t/2*np.log(2*pi) - n*t/2,
            "betas": np.vstack((b, lam, m.sig2_u)), "u": u, "predy": x@b, "sig2": (m.e_filtered.T@m.e_filtered)/(n*t), "e_filtered": ef, "sig2_u": r*s, @DV@
            "vm": cov(C, (t - 1)/2*np.trace(G@G) + 0.5*np.trace(SG@SG), c, d, t**2/(2*s**2)*np.trace(V@V), f, ((t - 1)*n + np.trace(S@S))/(2*s**2)),
            "vm~": cov(@C2@, (t - 1)/2*np.trace(G)**2 + 0.5*np.trace(SG2)**2, c2, d2, t**2/(2*s**2)*np.trace(Z)**2, f2, ((t - 1)*n + np.trace(S2)**2)/(2*s**2)),
            "n": n*t, "t": t, "k": k}
"""
for en, off, bb, r, z, p1, p2, opt, sq, c2, dv in (
        ("panel.BaseML_ErrorRE", "n*t", "((-0.999, 0.999), (1e-08, 1000000000.0))", "m.phi", "np.sqrt(m.phi)", "r1.x[1]**2", "r2.x[1]**2", ', options={"ftol": 1e-9}', "np.sqrt(m.phi)", "C", ""),
        ("panel_re.BasePanel_RE_Error", "1", "((-1.0, 1.0), (0.0, 10000.0))", "m.phi**2", "m.phi", "r1.x[1]", "r2.x[1]", "", "m.phi", "C2",
         '"betas~": np.vstack((b2, lam, m.sig2_u)), "u~": u2, "predy~": x@b2, "e_filtered~": ef2,')):
    s = ERRRE
    for a, b in (("@OFF@", off), ("@B@", bb), ("@R@", r), ("@Z@", z), ("@PHI1@", p1), ("@PHI2@", p2), ("@OPT@", opt), ("@SQ@", sq), ("@C2@", c2), ("@DV@", dv)):
        s = s.replace(a, b)
    R("D14", en, s, sc={"w": P}, shapes=PSH, cut={"lam": (), "phi": (), "sig2": (), "sig2_u": (), "e_filtered": (NT, N1)}, assume=lambda c: False if c.op == "cmp" and any(x.op == "method" and x.a[0] == "asymmetry" for x in subterms(c)) else None)
MOK = """
def spec(ws, u, trace_w2=None):
    # Kapoor, Kelejian and Prucha: within (i = 0) and between (i = 1) error moments
    N = ws.shape[0]
    T = u.shape[0]//N
    Q = <Q>
    Wt = np.kron(np.eye(T), ws)
    ub = Wt@u
    uu = Wt@ub
    d = <D>
    tr = np.trace(ws.T@ws)<TT>
    G = np.array([[2*(u.T@Q@ub), -(ub.T@Q@ub), <C1>], [2*(uu.T@Q@ub), -(uu.T@Q@uu), <C2>], [u.T@Q@uu + ub.T@Q@ub, -(ub.T@Q@uu), <C3>]])/d
    g = np.array([[u.T@Q@u], [ub.T@Q@ub], [u.T@Q@ub]])/d
    return {"ret": ([G, g], np.trace(ws.T@ws))}
"""
for en in ("panel.BaseGM_ErrorRE.@_moments_kkp", "sp_panels._moments_kkp"):
    for i in (0, 1):
        s = MOK
        for a, b in (("<Q>", "np.kron(np.eye(T) - np.ones((T, T))/T, np.eye(N))" if i == 0 else "np.kron(np.ones((T, T))/T, np.eye(N))"), ("<D>", "N*(T - 1)" if i == 0 else "N"), ("<TT>", "*(T - 1)" if i == 0 else ""),
                     ("<C1>", "N*(T - 1)" if i == 0 else "0, N"), ("<C2>", "tr" if i == 0 else "0, tr"), ("<C3>", "0" if i == 0 else "0, 0")):
            s = s.replace(a, b)
        R("D14", en, s, sc={"i": i, "trace_w2": None}, shapes={"ws": (N, N), "u": (NT, N1)})

for en in ("panel.BaseGM_ErrorRE.@_get_Tau", "sp_panels._get_Tau"):
    R("D14", en, """
def spec(ws, trace_w2):
    # variance pattern of the moment conditions; recorded finding: the two entries named below
    n = ws.shape[0]
    A = ws.T@ws
    t33 = np.trace(ws@ws + A)
    t23 = np.trace(A@(ws + ws.T))
    return {"ret": np.array([[2*n, 2*trace_w2, 0], [2*trace_w2, 2*np.trace(A@A), t23], [0, t23, t33]])/n,
            "ret~": np.array([[2*n, 2*trace_w2/n, 0], [2*trace_w2/n, np.trace(A@A), t23], [0, t23, t33]])/n}
""", shapes={"ws": (N, N), "trace_w2": ()})
KKP = MIN + """
def mom(W, u, n, t, i):
    Q = np.kron(np.eye(t) - np.ones((t, t))/t if i == 0 else np.ones((t, t))/t, np.eye(n))
    ub = np.kron(np.eye(t), W)@u
    uu = np.kron(np.eye(t), W)@ub
    tr = np.trace(W.T@W)
    d = n*(t - 1)**(1 - i)
    c = ([d], [d*tr/n], [0]) if i == 0 else ([0, d], [0, d*tr/n], [0, 0])
    A = np.array([[2*(u.T@Q@ub), -(ub.T@Q@ub)] + c[0], [2*(uu.T@Q@ub), -(uu.T@Q@uu)] + c[1], [u.T@Q@uu + ub.T@Q@ub, -(ub.T@Q@uu)] + c[2]])/d
    return A, np.array([[u.T@Q@u], [ub.T@Q@ub], [u.T@Q@ub]])/d
def spec(m, y, x, w):
    n = w.n
    t = y.shape[0]//n
    C = la.inv(x.T@x)
    u0 = y - x@(C@(x.T@y))
    W = w.sparse
    Wt = np.kron(np.eye(t), W)
    J = np.kron(np.ones((t, t))/t, np.eye(n))
    A0, g0 = mom(W, u0, n, t, 0)
    A1, g1 = mom(W, u0, n, t, 1)
    z = np.zeros((3, 1))
    l1, sv = optim_moments([A0, g0], all_par=True)
    e0 = u0 - l1*(Wt@u0)
    s1 = (e0.T@J@e0)/n
    a = np.trace(W.T@W)
    c = np.trace(W.T@W@(W + W.T))
    d = np.trace(W@W + W.T@W)
    tau = np.array([[2*n, 2*a, 0], [2*a, 2*np.trace(W.T@W@W.T@W), c], [0, c, d]])/n
    off = np.array([[2*n, 2*a/n, 0], [2*a/n, np.trace(W.T@W@W.T@W), c], [0, c, d]])/n
    G = np.vstack((np.hstack((A0, z)), A1))
    def fgls(Tau):
        # moments weighted by their variances under normality, block by block
        Xi = np.kron(np.diag((sv**2/(t - 1), s1**2)), Tau)
        l2, sb, s1b = optim_moments([G, np.vstack((g0, g1))], vcX=Xi, all_par=True, start=[l1, sv, s1])
        th = 1 - np.sqrt(sb)/np.sqrt(s1b)
        F = (np.eye(n*t) - th*J)@(np.eye(n*t) - l2*Wt)
        X, Y = F@x, F@y
        Ci = la.inv(X.T@X)
        b = Ci@(X.T@Y)
        e = Y - X@b
        u = y - x@b
        return np.vstack((b, l2, sb, s1b)), u, x@b, ((e.T@e)/(n*t - x.shape[1]))*Ci, u - l2*(Wt@u)
    r = fgls(<TAU>)
    o = fgls(off)
    return {"betas": r[0], "u": r[1], "predy": r[2], "vm": r[3], "e_filtered": r[4], "t": t, "n": <N>, "k": x.shape[1], "xtx": x.T@x<DV>}
"""
DV = ', ' + ', '.join('"%s~": o[%d]' % (k, i) for i, k in enumerate(("betas", "u", "predy", "vm", "e_filtered")))
for en, nn in (("panel.BaseGM_ErrorRE", "n*t"), ("sp_panels.BaseGM_KKP", "n")):
    for fw, ts, dv in ((False, "np.eye(3)", ""), (True, "tau", DV)):
        R("D14", en, KKP.replace("<TAU>", ts).replace("<N>", nn).replace("<DV>", dv), shapes=PSH, sc={"w": P, "full_weights": fw}, opaque=["utils.optim_moments"],
          assume=lambda c: False if c.op == "cmp" and c.a[0] == "==" and any(x.op == "num" and x.a[0] == 1 or isconst(x) and cval(x) == 1 for x in c.a[1:]) else None)

POOL = """
from spreg.error_sp_het import BaseGM_Error_Het
from spreg.ml_error import BaseML_Error
def spec(m, y, x, w, <A>):
    # the cross-sectional estimator with the weights of all periods on the diagonal
    r = <CALL>
    return {"betas": r.betas, "u": r.u, "predy": r.predy, "e_filtered": r.e_filtered, "vm": r.vm, "n": r.n, "k": r.k, "x": r.x, "y": r.y<M>}
"""
R("D14", "panel.BaseGM_ErrorPooled", POOL.replace("<A>", "max_iter, step1c").replace("<CALL>", "BaseGM_Error_Het(y, x, np.kron(np.eye(y.shape[0]//w.n), w.sparse), max_iter=max_iter, step1c=step1c)").replace("<M>", ', "iter_stop": r.iter_stop, "iteration": r.iteration'),
  shapes=PSH, sc={"w": P, "max_iter": 1, "step1c": P}, opaque=["utils.optim_moments"])
USERP = """
from spreg.panel import <B>
def spec(m, y, x, w, epsilon):
    # the reported panel model is the estimator on the stacked data
    n = w.n
    t = y.shape[0]//n
    X = <X>
    r = <B>(y, X, w, epsilon=epsilon)
    return {"betas": r.betas, "vm": r.vm, "u": r.u, "predy": r.predy, "logll": r.logll, "sig2": r.sig2, "n": r.n, "k": r.k, "t": t,
            "aic": -2*m.logll + 2*m.k, "schwarz": -2*m.logll + m.k*np.log(m.n)<M>}
"""
MU = ', "mu_i": np.kron(np.ones((1, t)), np.eye(n))@(<U>)/t, "mean_mu_i": np.sum(m.mu_i)/n'
for c, b, fe in (("ML_LagFE", "BaseML_LagFE", 1), ("ML_ErrorFE", "BaseML_ErrorFE", 1), ("ML_ErrorRE", "BaseML_ErrorRE", 0)):
    mu = ""
    if c == "ML_LagFE":
        # recorded finding: the lag term is left out
        mu = MU.replace("<U>", "y - m.betas[-1]*(np.kron(np.eye(t), w.sparse)@y) - X@m.betas[:-1]") + ', "mu_i~": np.kron(np.ones((1, t)), np.eye(n))@(y - X@m.betas[:-1])/t'
    elif fe:
        mu = MU.replace("<U>", "y - X@m.betas[:-1]")
    R("D14", "panel." + c, USERP.replace("<B>", b).replace("<X>", "x" if fe else "np.hstack((np.ones((n*t, 1)), x))").replace("<M>", mu), shapes=PX, sc={"w": P, "vm": False, **({"spat_impacts": None} if "Lag" in c else {})}, dims=True,
      opaque=["utils.inverse_prod"], cut={"betas": (NF().add(K, num(1 if fe else (2 if "Lag" in c else 3))), N1), "logll": (), "k": (), "n": (), **({"mu_i": (N, N1)} if fe else {})})
for en in ("panel_utils.check_panel", "sp_panels._get_panel_data"):
    R("D14", en, """
def spec(y, x, w):
    # wide data: the columns of each variable are its periods, stacked one under the other
    return {"ret[0]": np.vstack((y[:, 0:1], y[:, 1:2])), "ret[1]": np.hstack((np.vstack((x[:, 0:1], x[:, 1:2])), np.vstack((x[:, 2:3], x[:, 3:4])))), "ret[2]": None, "ret[3]": None}
""", sc={"w": P, "name_x": None, "name_y": None}, shapes={"y": (N, num(2)), "x": (N, num(4))}, dims=True)
