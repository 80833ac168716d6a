# Seemingly unrelated regressions
FLOOR["D13"] = 80
WP = {"w": P}
G = SYM("G")


def sysm(n, **kw):
    """n equations: dependent variables, regressors with their own number of columns"""
    sc = {"bigy": eqs("bigy", n), "bigX": eqs("bigX", n)}
    sh = {}
    for i in range(n):
        sh["bigy%d" % i] = (N, N1)
        sh["bigX%d" % i] = (N, SYM("K%d" % i))
        sh["bigyend%d" % i] = (N, SYM("E%d" % i))
        sh["bigq%d" % i] = (N, SYM("Q%d" % i))
    sc.update(kw)
    return dict(sc=sc, shapes=sh, dims=True)


SY = '''
def ols(y, X):
    return {r: la.inv(X[r].T@X[r])@(X[r].T@y[r]) for r in range(len(y))}
def res(y, X, b):
    return np.hstack([y[r] - X[r]@b[r] for r in range(len(y))])
def gls(y, X, E):
    # generalized least squares with the error covariance E'E/n
    g = range(len(y))
    n = E.shape[0]
    S = (E.T@E)/n
    Si = la.inv(S)
    A = np.vstack([np.hstack([Si[r, t]*(X[r].T@X[t]) for t in g]) for r in g])
    c = []
    for r in g:
        v = 0
        for t in g:
            v = v + Si[r, t]*(X[r].T@y[t])
        c.append(v)
    V = la.inv(A)
    return V@np.vstack(c), V, S
def split(b, X):
    d, k = {}, 0
    for r in range(len(X)):
        d[r] = b[k:k + X[r].shape[1], :]
        k = k + X[r].shape[1]
    return d
'''
for n in (2, 3):
    R("D13", "sur.BaseSUR", SY + """
def spec(bigy, bigX):
    y, X = bigy, bigX
    E = res(y, X, ols(y, X))
    b, V, S = gls(y, X, E)
    B = split(b, X)
    U = res(y, X, B)
    d = {'varb': V, 'sig': S, 'bigE': U, 'bigYP': np.hstack([X[r]@B[r] for r in range(len(y))])}
    return d
""", **sysm(n, iter=False))

FIT = """
def corr(S, g):
    return np.array([[S[r, t]/np.sqrt(S[r, r]*S[t, t]) for t in g] for r in g])
"""
for n in (2, 3):
    # iterated estimation: the residuals of one round give the error covariance of the next
    R("D13", "sur.BaseSUR", SY + """
def spec(bigy, bigX, epsilon):
    y, X = bigy, bigX
    E = res(y, X, ols(y, X))
    b, V, S0 = gls(y, X, E)
    l = [la.slogdet(S0)[1]]
    for i in range(2):
        E = res(y, X, split(b, X))
        b, V, S = gls(y, X, E)
        l.append(la.slogdet(S)[1])
    B = split(b, X)
    return {'varb': V, 'sig': S, 'sig_ols': S0, 'bigE': res(y, X, B), 'bigYP': np.hstack([X[r]@B[r] for r in range(len(y))]), 'ldetS1': la.slogdet(S)[1], 'niter': 2,
            'test[-1]': abs(l[2] - l[1]) > epsilon, 'test[-2]': abs(l[1] - l[0]) > epsilon}
""", loops=2, **sysm(n, iter=True, maxiter=5, epsilon=P))
    R("D13", "sur.BaseSUR", SY + """
def spec(m, bigy, bigX):
    n, S, k = bigy[0].shape[0], m.sig, len(bigy)
    return {'ldetS0': np.sum(np.log(np.diagonal(S))), 'ldetS1': la.slogdet(S)[1],
            'llik': -(n/2)*(k*(1 + np.log(2*np.pi)) + la.slogdet(S)[1]), 'corr': S/np.sqrt(np.diagonal(S).reshape(k, 1)@np.diagonal(S).reshape(1, k))}
""", name="fit", cut={"sig": (num(n), num(n))}, **sysm(n, iter=False))
    R("D13", "sur.BaseThreeSLS", SY + """
def spec(bigy, bigX, bigyend, bigq):
    y, X, g = bigy, bigX, range(len(bigy))
    Z, F = {}, {}
    for r in g:
        Z[r] = np.hstack((X[r], bigyend[r]))
        H = np.hstack((X[r], bigq[r]))
        F[r] = np.hstack((X[r], H@(la.inv(H.T@H)@(H.T@bigyend[r]))))
    E = res(y, Z, ols(y, F))
    b, V, S = gls(y, F, E)
    return {'varb': V, 'sig': S, 'bigE': res(y, Z, split(b, Z))}
""", **sysm(n, bigyend=eqs("bigyend", n), bigq=eqs("bigq", n)))

# diagnostics
SQ = {"sig": (num(2), num(2)), "varb": (SYM("KK"), SYM("KK")), "WS": (N, N), "vm": (num(2), num(2)), "lam": (num(2), N1)}
R("D13", "diagnostics_sur.sur_lrtest", """
def spec(n, n_eq, ldetS0, ldetS1):
    M = n_eq*(n_eq - 1)/2
    LR = n*(ldetS0 - ldetS1)
    return {'ret[0]': LR, 'ret[1]': int(M), 'ret[2]': stats.chi2.sf(LR, M)}
""", sc={"n": P, "n_eq": P, "ldetS0": P, "ldetS1": P}, shapes={k: () for k in ("n", "n_eq", "ldetS0", "ldetS1")})
for n in (2, 3):
    sq = {k: tuple(num(n) if d is num(2) else d for d in v) for k, v in SQ.items()}
    R("D13", "diagnostics_sur.sur_lmtest", """
def spec(n, n_eq, sig):
    k = n_eq
    c = 0
    for i in range(k):
        for j in range(k):
            c = c + sig[i, j]**2/(sig[i, i]*sig[j, j])
    d = np.sqrt(np.diagonal(sig).reshape(k, 1)@np.diagonal(sig).reshape(1, k))
    r = sig/d
    LM = n/2*(np.trace(r.T@r) - k)
    return {'ret[0]': LM, 'ret[1]': %d, 'ret[2]': stats.chi2.sf(LM, %d)}
""" % (n * (n - 1) // 2, n * (n - 1) // 2), sc={"n": P, "n_eq": n, "sig": P}, shapes=dict(sq, n=()), dims=True)
    R("D13", "diagnostics_sur.surLMe", """
def spec(n_eq, WS, bigE, sig):
    si = la.inv(sig)
    s = np.sum(si*(bigE.T@WS@bigE), axis=0).reshape(1, n_eq)
    V = np.trace(WS@WS)*np.eye(n_eq) + np.trace(WS.T@WS)*(si*sig)
    LM = (s@la.inv(V)@s.T)[0][0]
    return {'ret[0]': LM, 'ret[1]': n_eq, 'ret[2]': stats.chi2.sf(LM, n_eq)}
""", sc={"n_eq": n, "WS": P, "bigE": P, "sig": P}, shapes=dict(sq, bigE=(N, num(n))), dims=True)
    R("D13", "diagnostics_sur.surLMlag", """
def spec(n_eq, WS, bigy, bigX, bigE, bigYP, sig, varb):
    g = range(n_eq)
    si = la.inv(sig)
    Y = np.hstack([bigy[r] for r in g])
    s = np.sum(si*(bigE.T@WS@Y), axis=0).reshape(1, n_eq)  # score of rho_j: sum over i of sigma^ij e_i'W y_j
    WP = WS@bigYP
    I = np.trace(WS@WS)*np.eye(n_eq) + np.trace(WS.T@WS)*(si*sig) + si*(WP.T@WP)
    B = np.vstack([si[r, :]*(bigX[r].T@WP) for r in g])
    LM = (s@la.inv(I - B.T@varb@B)@s.T)[0][0]
    return {'ret[0]': LM, 'ret[1]': n_eq, 'ret[2]': stats.chi2.sf(LM, n_eq)}
""", sc={"n_eq": n, "WS": P, "bigy": eqs("bigy", n), "bigX": eqs("bigX", n), "bigE": P, "bigYP": P, "sig": P, "varb": P}, shapes=dict(sq, bigE=(N, num(n)), bigYP=(N, num(n)), **sysm(n)["shapes"]), dims=True)
    b = {"bigB%d" % i: (SYM("K%d" % i), N1) for i in range(n)}
    ks = num(0)
    R("D13", "diagnostics_sur.sur_setp", """
def spec(bigB, varb):
    b = np.vstack([bigB[r] for r in range(%d)])
    se = np.sqrt(np.diagonal(varb)).reshape(varb.shape[0], 1)
    z = b/se
    a = np.hstack((se, z, stats.norm.sf(abs(z))*2))
    d, k = {}, 0
    for r in range(%d):
        d['ret[%%d]' %% r] = a[k:k + bigB[r].shape[0], :]
        k = k + bigB[r].shape[0]
    return d
""" % (n, n), sc={"bigB": eqs("bigB", n), "varb": P}, shapes=dict(b, varb=(SYM("KK"), SYM("KK"))), dims=True)
    R("D13", "diagnostics_sur.lam_setp", """
def spec(lam, vm):
    se = np.sqrt(np.diagonal(vm)).reshape(%d, 1)
    return {'ret[0]': se, 'ret[1]': lam/se, 'ret[2]': stats.norm.sf(abs(lam/se))*2}
""" % n, sc={"lam": P, "vm": P}, shapes=sq, dims=True, name="%d equations" % n)
    R("D13", "sur_error._momentsGM_sur_Error", """
def spec(w, u):
    n = w.shape[0]
    d = {}
    for r in range(%d):
        e = u[:, r].reshape(n, 1)
        we = w@e
        wwe = w@we
        G = np.array([[2*(e.T@we)[0][0], -(we.T@we)[0][0], n], [2*(wwe.T@we)[0][0], -(wwe.T@wwe)[0][0], np.trace(w.T@w)], [(e.T@wwe)[0][0] + (we.T@we)[0][0], -(wwe.T@we)[0][0], 0]])/n
        d['ret[%%d][0]' %% r] = G
        d['ret[%%d][1]' %% r] = np.array([[(e.T@e)[0][0], (we.T@we)[0][0], (e.T@we)[0][0]]]).T/n
    return d
""" % n, sc={"w": P, "u": P}, shapes={"w": (N, N), "u": (N, num(n))}, dims=True, name="%d equations" % n, types={"w": "csr_matrix"})

WALD = """
def wald(b, R, q, V):
    d = R@b - q
    return (d.T@la.inv(R@V@R.T)@d)[0][0]
"""
for n, k in ((2, 2), (3, 2)):
    BS = eqs("bSUR", n)
    shp = {"bSUR%d" % i: (num(k), N1) for i in range(n)}
    shp["varb"] = (num(n * k), num(n * k))
    # equality of the coefficients of variable i over the equations
    R("D13", "diagnostics_sur.sur_chow", WALD + """
def spec(bSUR, varb):
    n, k = %d, %d
    b = np.vstack([bSUR[r] for r in range(n)])
    d = {}
    for i in range(k):
        R = np.array([[1 if c == i else (-1 if c == i + k*(j + 1) else 0) for c in range(n*k)] for j in range(n - 1)])
        w = wald(b, R, np.zeros((n - 1, 1)), varb)
        d['ret[%%d][0]' %% i] = w
        d['ret[%%d][1]' %% i] = n - 1
        d['ret[%%d][2]' %% i] = stats.chi2.sf(w, n - 1)
    return d
""" % (n, k), sc={"n_eq": n, "bigK": mk("call", "numpy.array", (mk("list", *[mk("list", C(k)) for i in range(n)]),), ()), "bSUR": BS, "varb": P}, shapes=shp, dims=True, name="%d equations" % n)

for ks in ((2, 2), (2, 2, 2), (3, 2), (2, 4, 3)):
    # the last coefficient of every equation is zero
    n = len(ks)
    R("D13", "diagnostics_sur.sur_joinrho", WALD + """
def spec(bSUR, varb):
    ks = %r
    n, K = len(ks), sum(ks)
    b = np.vstack([bSUR[r] for r in range(n)])
    R = np.array([[1 if c == sum(ks[:i + 1]) - 1 else 0 for c in range(K)] for i in range(n)])
    w = wald(b, R, np.zeros((n, 1)), varb)
    return {'ret[0]': w, 'ret[1]': n, 'ret[2]': stats.chi2.sf(w, n)}
""" % (ks,), sc={"n_eq": n, "bigK": mk("call", "numpy.array", (mk("list", *[mk("list", C(k)) for k in ks]),), ()), "bSUR": eqs("bSUR", n), "varb": P},
      shapes={**{"bSUR%d" % i: (num(k), N1) for i, k in enumerate(ks)}, "varb": (num(sum(ks)),) * 2}, dims=True, name="%s coefficients" % "+".join(map(str, ks)))

for n in (2, 3):
    sq = {k: tuple(num(n) if d is num(2) else d for d in v) for k, v in SQ.items()}
    # concentrated log-likelihood of the spatial error model (with the opposite sign)
    R("D13", "sur_error.clik", """
def spec(lam, n, n2, n_eq, bigE, I, WS):
    F = bigE - (WS@bigE)*lam.reshape(1, n_eq)
    J = 0
    for r in range(n_eq):
        J = J + np.sum(np.log(np.abs(SP.linalg.splu((I - lam[r]*WS)).U.diagonal())))
    return {'ret': n2*la.slogdet((F.T@F)/n)[1] - J}
""", sc={"lam": P, "n": P, "n2": P, "n_eq": n, "bigE": P, "I": P, "WS": P}, shapes={"lam": (num(n),), "n": (), "n2": (), "bigE": (N, num(n)), "WS": (N, N), "I": (N, N)}, dims=True, types={"WS": "csr_matrix"}, name="%d equations" % n)
    R("D13", "sur_error.BaseSURerrorGM", SY + """
def spec(m, bigy, bigX, w):
    y, X, W, g = bigy, bigX, w.sparse, range(len(bigy))
    l = m.lamsur
    E0 = res(y, X, ols(y, X))
    ys = {r: y[r] - l[r, 0]*(W@y[r]) for r in g}
    Xs = {r: X[r] - l[r, 0]*(W@X[r]) for r in g}
    b, V, S = gls(ys, Xs, E0 - (W@E0)*l.T)
    return {'varb': V, 'sig': S, 'bigE': res(y, X, split(b, X))}
""", cut={"lamsur": (num(n), N1)}, attrs={"w.sparse": (N, N)}, **sysm(n, w=P))
    # information matrix of the spatial parameters and the distinct elements of the error covariance
    R("D13", "sur_error.surerrvm", """
def spec(n, n_eq, w, lam, sig):
    W, g = w.sparse, range(n_eq)
    s = la.inv(sig)
    D = {r: W@la.inv((np.eye(n) - lam[r, 0]*W)) for r in g}
    Vll = np.array([[(np.trace(D[i]@D[i]) if i == j else 0) + s[i, j]*sig[i, j]*np.trace(D[min(i, j)].T@D[max(i, j)]) for j in g] for i in g])
    pairs = [(i, j) for i in g for j in g if i <= j]
    Vls = np.array([[(s[i, h] if i != h else s[i, k])*np.trace(D[i]) if i in (h, k) else 0 for h, k in pairs] for i in g])
    def d(i, j, h, k):
        v = s[i, h]*s[j, k] + s[i, k]*s[j, h]
        if i == j:
            v = v/2
        if h == k:
            v = v/2
        return v
    Vss = n*np.array([[d(i, j, h, k) for h, k in pairs] for i, j in pairs])
    return {'ret': la.inv(np.vstack((np.hstack((Vll, Vls)), np.hstack((Vls.T, Vss)))))}
""", sc={"n": P, "n_eq": n, "w": P, "lam": P, "sig": P}, shapes=dict(sq, n=(), lam=(num(n), N1)), attrs={"w.sparse": (N, N)}, dims=True, name="%d equations" % n, types={"w": "W"}, sym={"sig"})

# the classes: which results are handed to which test
DIAG = """
from spreg.diagnostics_sur import sur_setp, sur_lrtest, sur_lmtest, surLMe, surLMlag, sur_chow, sur_joinrho, lam_setp
"""
HELP = ["diagnostics_sur." + f for f in ("sur_setp", "sur_lrtest", "sur_lmtest", "surLMe", "surLMlag", "sur_chow", "sur_joinrho", "lam_setp")]
TSLS = SY + """
def tsls(y, X, Y, Q):
    g = range(len(y))
    Z, F = {}, {}
    for r in g:
        Z[r] = np.hstack((X[r], Y[r]))
        H = np.hstack((X[r], Q[r]))
        F[r] = np.hstack((X[r], H@(la.inv(H.T@H)@(H.T@Y[r]))))
    E = res(y, Z, ols(y, F))
    b, V, S = gls(y, F, E)
    return {'varb': V, 'sig': S, 'bigE': res(y, Z, split(b, Z))}
"""
n = 2
for q, sc in (("", {}), ("[bigq_[r], W@x, W@bigq_[r]]", {}), ("[bigq_[r], W@x]", {"lag_q": False})):
    for wl in (1, 2):
        src = TSLS + """
def spec(bigy, bigX, w, bigyend, bigq):
    W, g = w.sparse, range(len(bigy))
    Y, Q = {}, {}
    for r in g:
        x = bigX[r][:, 1:]
        l = W@bigy[r]
        %s
    return tsls(bigy, bigX, Y, Q)
"""
        wx = "W@x" if wl == 1 else "W@x, W@(W@x)"
        wq = "" if "lag_q" in sc else ", W@bigq[r]" if wl == 1 else ", W@bigq[r], W@(W@bigq[r])"
        if q:
            src %= "Y[r] = np.hstack((bigyend[r], l)); Q[r] = np.hstack((bigq[r], %s%s))" % (wx, wq)
            kw = dict(bigyend=eqs("bigyend", n), bigq=eqs("bigq", n))
        else:
            src %= "Y[r] = l; Q[r] = np.hstack((%s,))" % wx
            kw = {}
        R("D13", "sur_lag.SURlagIV", src, attrs={"w.sparse": (N, N)}, opaque=["output.SUR"] + HELP, fresh=True, types={"w": "W"},
          name="w_lags %d%s" % (wl, ", endogenous" if q else ""), **sysm(n, w=P, w_lags=wl, **kw, **sc))
R("D13", "sur_lag.SURlagIV", DIAG + """
def spec(m):
    return {'joinrho': sur_joinrho(m.n_eq, m.bigK, m.b3SLS, m.varb), 'tsls_inf': sur_setp(m.b3SLS, m.varb)}
""", attrs={"w.sparse": (N, N)}, opaque=["output.SUR"] + HELP, types={"w": "W"}, name="tests", **sysm(n, w=P, spat_diag=True))
R("D13", "sur.SUR", DIAG + """
def spec(m, w, bigy, bigX):
    return {'sur_inf': sur_setp(m.bSUR, m.varb), 'lrtest': sur_lrtest(m.n, m.n_eq, m.ldetS0, m.ldetS1), 'lmtest': sur_lmtest(m.n, m.n_eq, m.sig_ols),
            'lmEtest': surLMe(m.n_eq, w.sparse, m.bigE, m.sig), 'lmlagtest': surLMlag(m.n_eq, w.sparse, bigy, bigX, m.bigE, m.bigYP, m.sig, m.varb)}
""", attrs={"w.sparse": (N, N)}, opaque=["output.SUR"] + HELP, types={"w": "W"}, name="tests", **sysm(n, w=P, spat_diag=True))
R("D13", "sur_error.SURerrorGM", DIAG + """
def spec(m):
    return {'sur_inf': sur_setp(m.bSUR, m.varb)}
""", attrs={"w.sparse": (N, N)}, opaque=["output.SUR"] + HELP, types={"w": "W"}, name="tests", **sysm(n, w=P))
R("D13", "sur_error.SURerrorML", DIAG + """
from spreg.sur_error import surerrvm
def spec(m, w):
    c = -(m.n/2)*(m.n_eq*(1 + np.log(2*np.pi)))
    M = m.n_eq*(m.n_eq - 1)/2
    L1, L2 = c + m.clikerr, c + m.cliksurerr
    V = surerrvm(m.n, m.n_eq, w, m.lamsur, m.sig)
    v = V[:2, :2]
    l = m.lamsur
    R = np.array([[1, -1]])
    d = ((R@l).T@la.inv(R@v@R.T)@(R@l))[0][0]
    j = (l.T@la.inv(v)@l)[0][0]
    return {'sur_inf': sur_setp(m.bSUR, m.varb), 'errllik': L1, 'surerrllik': L2, 'lrtest[0]': 2*(L2 - L1), 'lrtest[1]': 1, 'lrtest[2]': stats.chi2.sf(2*(L2 - L1), 1),
            'likrlambda[0]': 2*(L2 - m.llik), 'likrlambda[1]': 2, 'likrlambda[2]': stats.chi2.sf(2*(L2 - m.llik), 2), 'vm': V, 'lamsetp': lam_setp(l, v),
            'lamtest[0]': d, 'lamtest[1]': 1, 'lamtest[2]': stats.chi2.sf(d, 1), 'joinlam[0]': j, 'joinlam[1]': 2, 'joinlam[2]': stats.chi2.sf(j, 2)}
""", attrs={"w.sparse": (N, N)}, opaque=["output.SUR", "sur_error.surerrvm"] + HELP, types={"w": "W"}, name="tests", loops=1,
  cut={"lamsur": (num(2), N1), "clikerr": (), "cliksurerr": (), "llik": (), "vm": (num(5), num(5)), "sig": (num(2), num(2)), "varb": (SYM("KK"), SYM("KK"))}, **sysm(n, w=P, spat_diag=True, vm=True))
