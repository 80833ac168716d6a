# White (1980) and HAC (Kelejian and Prucha 2007) sandwich variances
FLOOR["D05"] = 14
SW = '''
def const(x):
    return np.hstack((np.ones((x.shape[0], 1)), x))

def white(X, u, c):
    xu = X*u
    return c*(xu.T@xu)

def hac(X, u, K):
    xu = X*u
    return xu.T@(K@xu)

def ls(m, X, psi):
    G = la.inv(X.T@X)
    return {"vm": G@psi@G}

def iv(m, Z, H, psi):
    F = Z.T@H@la.inv(H.T@H)
    V = la.inv(F@H.T@Z)
    return {"vm": V@F@psi@F.T@V}
'''
DIV = {True: "m.n/(m.n-m.k)", False: "1"}
for nk in (True, False):
    for g in (None, P):
        R("D05", "ols.BaseOLS", SW + '''
def spec(m, y, x):
    return ls(m, x, white(x, m.u, %s))
''' % DIV[nk], sc={"robust": "white", "gwk": g, "sig2n_k": nk}, name="gwk given" if g else None)
        R("D05", "ols.OLS", SW + '''
def spec(m, y, x):
    X = const(x)
    return ls(m, X, white(X, m.u, %s))
''' % DIV[nk], sc={"robust": "white", "gwk": g, "sig2n_k": nk}, name="gwk given" if g else None)
        R("D05", "twosls.TSLS", SW + '''
def spec(m, y, x, yend, q):
    Z = np.hstack((const(x), yend))
    H = np.hstack((const(x), q))
    return iv(m, Z, H, white(H, m.u, %s))
''' % DIV[nk], sc={"robust": "white", "gwk": g, "sig2n_k": nk}, name="gwk given" if g else None)
        R("D05", "twosls_sp.GM_Lag", SW + '''
def spec(m, y, x, w):
    W = w.sparse
    Z = np.hstack((const(x), W@y))
    H = np.hstack((const(x), W@x))
    return iv(m, Z, H, white(H, m.u, %s))
''' % DIV[nk], sc={"robust": "white", "gwk": g, "sig2n_k": nk, "w": P}, name="gwk given" if g else None)
    R("D05", "ols.OLS", SW + '''
def spec(m, y, x, gwk):
    X = const(x)
    return ls(m, X, hac(X, m.u, gwk.sparse))
''', sc={"robust": "hac", "gwk": P, "sig2n_k": nk})
    R("D05", "twosls.TSLS", SW + '''
def spec(m, y, x, yend, q, gwk):
    Z = np.hstack((const(x), yend))
    H = np.hstack((const(x), q))
    return iv(m, Z, H, hac(H, m.u, gwk.sparse))
''', sc={"robust": "hac", "gwk": P, "sig2n_k": nk})
    R("D05", "twosls_sp.GM_Lag", SW + '''
def spec(m, y, x, w, gwk):
    W = w.sparse
    Z = np.hstack((const(x), W@y))
    H = np.hstack((const(x), W@x))
    return iv(m, Z, H, hac(H, m.u, gwk.sparse))
''', sc={"robust": "hac", "gwk": P, "sig2n_k": nk, "w": P})
