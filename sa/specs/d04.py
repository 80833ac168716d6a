# Closed-form least squares and two-stage least squares
FLOOR["D04"] = 40
LS = '''
def ls(m, y, X, div):
    b = la.inv(X.T@X)@(X.T@y)
    u = y - X@b
    s2 = (u.T@u)/div
    return {"betas": b, "u": u, "predy": X@b, "sig2": s2, "vm": s2*la.inv(X.T@X), "x": X, "n": X.shape[0], "k": X.shape[1]}

def tsls(m, y, Z, H, div):
    P = H@la.inv(H.T@H)@H.T
    b = la.inv(Z.T@P@Z)@(Z.T@P@y)
    u = y - Z@b
    s2 = (u.T@u)/div
    return {"betas": b, "u": u, "predy": Z@b, "sig2": s2, "vm": s2*la.inv(Z.T@P@Z), "z": Z, "h": H, "n": Z.shape[0], "k": Z.shape[1]}

def const(x):
    return np.hstack((np.ones((x.shape[0], 1)), x))
'''
for nk, div in [(True, "x.shape[0]-x.shape[1]"), (False, "x.shape[0]")]:
    R("D04", "ols.BaseOLS", LS + '''
def spec(m, y, x):
    return ls(m, y, x, %s)
''' % div, sc={"sig2n_k": nk})
for nk, div in [(True, "x.shape[0]-x.shape[1]-1"), (False, "x.shape[0]")]:
    R("D04", "ols.OLS", LS + '''
def spec(m, y, x):
    return ls(m, y, const(x), %s)
''' % div, sc={"sig2n_k": nk})
    R("D04", "ols.OLS", LS + '''
def spec(m, y, x, w):
    X = np.hstack((const(x), w.sparse@x))
    return ls(m, y, X, %s)
''' % div.replace("x.shape[1]", "2*x.shape[1]"), sc={"sig2n_k": nk, "w": P, "slx_lags": 1})
    R("D04", "twosls.BaseTSLS", LS + '''
def spec(m, y, x, yend, q):
    Z = np.hstack((x, yend))
    H = np.hstack((x, q))
    return tsls(m, y, Z, H, %s)
''' % ("x.shape[0]-x.shape[1]-yend.shape[1]" if nk else "x.shape[0]"), sc={"q": P, "h": None, "sig2n_k": nk})
    R("D04", "twosls.BaseTSLS", LS + '''
def spec(m, y, x, yend, h):
    Z = np.hstack((x, yend))
    return tsls(m, y, Z, h, %s)
''' % ("x.shape[0]-x.shape[1]-yend.shape[1]" if nk else "x.shape[0]"), sc={"q": None, "h": P, "sig2n_k": nk}, name="h")
    R("D04", "twosls.TSLS", LS + '''
def spec(m, y, x, yend, q):
    Z = np.hstack((const(x), yend))
    H = np.hstack((const(x), q))
    return tsls(m, y, Z, H, %s)
''' % ("x.shape[0]-x.shape[1]-1-yend.shape[1]" if nk else "x.shape[0]"), sc={"sig2n_k": nk})
    R("D04", "twosls_sp.GM_Lag", LS + '''
def spec(m, y, x, w):
    Z = np.hstack((const(x), w.sparse@y))
    H = np.hstack((const(x), w.sparse@x))
    return tsls(m, y, Z, H, %s)
''' % ("x.shape[0]-x.shape[1]-2" if nk else "x.shape[0]"), sc={"sig2n_k": nk, "w": P, "yend": None, "q": None})
    R("D04", "twosls_sp.GM_Lag", LS + '''
def spec(m, y, x, yend, q, w):
    Z = np.hstack((const(x), yend, w.sparse@y))
    H = np.hstack((const(x), q, w.sparse@x, w.sparse@q))
    return tsls(m, y, Z, H, %s)
''' % ("x.shape[0]-x.shape[1]-2-yend.shape[1]" if nk else "x.shape[0]"), sc={"sig2n_k": nk, "w": P, "yend": P, "q": P})
R("D04", "twosls_sp.GM_Lag", LS + '''
def spec(m, y, x, w):
    W = w.sparse
    Z = np.hstack((const(x), W@x, W@y))
    H = np.hstack((const(x), W@x, W@W@x))
    return tsls(m, y, Z, H, x.shape[0])
''', sc={"w": P, "yend": None, "q": None, "slx_lags": 1})
R("D04", "twosls_sp.GM_Lag", LS + '''
def spec(m, y, x, w):
    W = w.sparse
    Z = np.hstack((const(x), W@y))
    H = np.hstack((const(x), W@x, W@W@x))
    return tsls(m, y, Z, H, x.shape[0])
''', sc={"w": P, "yend": None, "q": None, "w_lags": 2})
R("D04", "twosls_sp.GM_Lag", LS + '''
def spec(m, y, x, yend, q, w):
    W = w.sparse
    Z = np.hstack((const(x), yend, W@y))
    H = np.hstack((const(x), q, W@x))
    return tsls(m, y, Z, H, x.shape[0])
''', sc={"w": P, "yend": P, "q": P, "lag_q": False})
R("D04", "twosls_sp.BaseGM_Lag", LS + '''
def spec(m, y, x, w):
    W = w.sparse
    Z = np.hstack((x, W@y))
    H = np.hstack((x, W@x[:, 1:]))
    return tsls(m, y, Z, H, x.shape[0])
''', sc={"w": P, "yend": None, "q": None})
