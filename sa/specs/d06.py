# Spatial dependence tests: Anselin (1988), Anselin et al. (1996), Cliff and Ord (1981), Anselin and Kelejian (1997), Koley and Bera (2024)
COMMON = '''
def parts(ols, w):
    W = w.sparse
    s2 = ols.utu/ols.n
    xb = ols.predy
    wxb = W@xb
    T = ((W.T + W)@W).diagonal().sum()
    ML = wxb.T@wxb - (wxb.T@ols.x)@la.inv(ols.x.T@ols.x)@(ols.x.T@wxb)
    nJ = (ML + T*s2)/s2
    de = (ols.u.T@(W@ols.u))/s2
    dl = (ols.u.T@(W@ols.y))/s2
    return de, dl, T, nJ
'''
A = {"ols.xtxi": None}
OLSREG = '''
    ols_xtxi = ols.xtxi
'''
for t, key, f, df in [("lme", "lme", "de**2/T", 1), ("lml", "lml", "dl**2/nJ", 1), ("rlme", "rlme", "(de - T*dl/nJ)**2/(T*(1 - T/nJ))", 1),
                      ("rlml", "rlml", "(dl-de)**2/(nJ-T)", 1), ("sarma", "sarma", "(dl-de)**2/(nJ-T) + de**2/T", 2)]:
    R("D06", "diagnostics_sp.LMtests", COMMON + '''
def spec(ols, w):
    de, dl, T, nJ = parts(ols, w)
    lm = %s
    return {"%s[0]": lm, "%s[1]": stats.chi2.sf(lm, %d)}
''' % (f, key, key, df), sc={"tests": [t]})
R("D06", "diagnostics_sp.MoranRes", '''
def spec(m, ols, w):
    return {"I": (w.n/w.s0)*(ols.u.T@(w.sparse@ols.u))/(ols.u.T@ols.u)}
''', sc={"z": False})
R("D06", "diagnostics_sp.MoranRes", '''
def spec(m, ols, w):
    W = w.sparse
    n, k = w.n, ols.k
    G = la.inv(ols.x.T@ols.x)
    A = G@(ols.x.T@W@ols.x)
    U = (W + W.T)/2
    C = G@(ols.x.T@U@ols.x)
    B = G@(ols.x.T@U@U@ols.x)
    eI = -(n/w.s0)*A.diagonal().sum()/(n-k)
    vI = (n**2/(w.s0**2*(n-k)*(n-k+2)))*(w.s1 + 2*(C@C).diagonal().sum() - 4*B.diagonal().sum() - 2*A.diagonal().sum()**2/(n-k))
    z = (m.I - m.eI)/np.sqrt(m.vI)
    return {"eI": eI, "vI": vI, "zI": z, "p_norm": 2*stats.norm.sf(abs(z))}
''', sc={"z": True})
R("D06", "diagnostics_sp.AKtest", COMMON + '''
def spec(m, iv, w):
    W = w.sparse
    s2 = iv.utu/iv.n
    T = ((W.T + W)@W).diagonal().sum()
    lm = ((iv.u.T@(W@iv.u))/s2)**2/T
    return {"ak": lm, "p": stats.chi2.sf(lm, 1), "mi": (w.n/w.s0)*(iv.u.T@(W@iv.u))/(iv.u.T@iv.u)}
''', sc={"case": "nosp"})
R("D06", "diagnostics_sp.AKtest", COMMON + '''
def spec(m, iv, w):
    W = w.sparse
    s2 = iv.utu/iv.n
    I = (w.n/w.s0)*(iv.u.T@(W@iv.u))/(iv.u.T@iv.u)
    T = ((W.T + W)@W).diagonal().sum()
    a = (iv.u.T@W@iv.z)@iv.varb@(iv.z.T@W.T@iv.u)
    s12 = (w.s0/w.n)**2
    phi2 = (T + 4/s2*a)/(s12*w.n)
    ak = w.n*I**2/phi2
    return {"ak": ak, "p": stats.chi2.sf(ak, 1), "mi": I}
''', sc={"case": "gen"})
R("D06", "diagnostics_sp.comfac_test", '''
def spec(rho, beta, gamma, vm):
    g = rho*beta + gamma
    D = np.vstack((rho*np.eye(beta.shape[0]), np.eye(beta.shape[0]), beta.T))
    W = g.T@la.inv(D.T@vm@D)@g
    return {"ret[0]": W, "ret[1]": stats.chi2.sf(W, beta.shape[0])}
''', shapes={"beta": (SYM("P"), N1), "gamma": (SYM("P"), N1), "rho": (), "vm": (2*0 or SYM("V"), SYM("V"))})
FLOOR["D06"] = 16
DUR = '''
def sel(reg):
    try:
        return reg.x[:, reg.output["var_type"] == "x"]
    except KeyError:
        return reg.x[:, reg._var_type == "x"]
'''
R("D06", "diagnostics_sp.lm_wx", DUR + '''
def spec(reg, w):
    wx = w.sparse@sel(reg)
    d = wx.T@reg.u
    M = wx.T@wx - (wx.T@reg.x)@la.inv(reg.x.T@reg.x)@(reg.x.T@wx)
    lm = (d.T@la.inv(M)@d)[0][0]/(reg.utu/reg.n)
    return {"ret[0]": lm, "ret[1]": stats.chi2.sf(lm, reg.k - 1)}
''')
R("D06", "diagnostics_sp.lm_spdurbin", DUR + '''
def spec(reg, w):
    s2 = reg.utu/reg.n
    X = reg.x
    wx = w.sparse@sel(reg)
    wxb = w.sparse@reg.predy
    d = np.vstack(((w.sparse@reg.y).T@reg.u, wx.T@reg.u))/s2
    A = la.inv(X.T@X)
    p = lambda a, b: a.T@b - (a.T@X)@A@(X.T@b)
    J = np.vstack((np.hstack((p(wxb, wxb) + w.trcWtW_WW*s2, p(wxb, wx))), np.hstack((p(wx, wxb), p(wx, wx)))))
    lm = s2*(d.T@la.inv(J)@d)[0][0]
    return {"ret[0]": lm, "ret[1]": stats.chi2.sf(lm, reg.x.shape[1])}
''')
R("D06", "diagnostics_sp.rlm_wx", '''
def spec(reg, lmspdurbin, lmlag):
    lm = lmspdurbin[0] - lmlag[0]
    return {"ret[0]": lm, "ret[1]": stats.chi2.sf(lm, reg.k - 1)}
''')
R("D06", "diagnostics_sp.rlm_durlag", '''
def spec(lmspdurbin, lmwx):
    lm = lmspdurbin[0] - lmwx[0]
    return {"ret[0]": lm, "ret[1]": stats.chi2.sf(lm, 1)}
''')
R("D06", "diagnostics_sp.lm_slxerr", '''
def spec(reg, lmerr, lmwx):
    lm = lmerr[0] + lmwx[0]
    return {"ret[0]": lm, "ret[1]": stats.chi2.sf(lm, reg.k)}
''')
