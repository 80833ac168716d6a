# Non-spatial diagnostics: textbook definitions (Greene; Anselin 1988), reg is any fitted model
R("D07", "diagnostics.f_stat", '''
def spec(reg):
    ess = ((reg.predy - reg.mean_y)**2).sum()
    F = (ess/(reg.k-1))/(reg.utu/(reg.n-reg.k))
    return {"ret[0]": F, "ret[1]": stats.f.sf(F, reg.k-1, reg.n-reg.k)}
''', sc={"df": 0})
R("D07", "diagnostics.f_stat", '''
def spec(reg):
    x0 = reg.x[:, :-2]
    e0 = reg.y - x0@(la.inv(x0.T@x0)@(x0.T@reg.y))
    F = ((e0.T@e0 - reg.utu)/2)/(reg.utu/(reg.n-reg.k))
    return {"ret[0]": F, "ret[1]": stats.f.sf(F, 2, reg.n-reg.k)}
''', sc={"df": 2})
R("D07", "diagnostics.r2", '''
def spec(reg):
    return {"ret": 1 - reg.utu/((reg.y-reg.mean_y)**2).sum()}
''')
R("D07", "diagnostics.ar2", '''
def spec(reg):
    r2 = 1 - reg.utu/((reg.y-reg.mean_y)**2).sum()
    return {"ret": 1 - (1-r2)*(reg.n-1)/(reg.n-reg.k)}
''')
R("D07", "diagnostics.log_likelihood", '''
def spec(reg):
    s2 = reg.utu/reg.n
    return {"ret": -reg.n/2*np.log(2*pi) - reg.n/2*np.log(s2) - reg.utu/(2*s2)}
''')
R("D07", "diagnostics.akaike", '''
def spec(reg):
    return {"ret": -2*reg.logll + 2*reg.k}
''', name="ml")
# without a likelihood: the Gaussian one at the least squares estimate
R("D07", "diagnostics.akaike", '''
def spec(reg):
    ll = -reg.n/2*(np.log(2*pi) + np.log(reg.utu/reg.n) + 1)
    return {"ret": 2*reg.k - 2*ll}
''', name="ols", fail=True)
R("D07", "diagnostics.schwarz", '''
def spec(reg):
    ll = -reg.n/2*(np.log(2*pi) + np.log(reg.utu/reg.n) + 1)
    return {"ret": reg.k*np.log(reg.n) - 2*ll}
''', name="ols", fail=True)
R("D07", "diagnostics.schwarz", '''
def spec(reg):
    return {"ret": -2*reg.logll + reg.k*np.log(reg.n)}
''', name="ml")
R("D07", "diagnostics.condition_index", '''
def spec(reg):
    A = reg.xtx/np.diagonal(reg.xtx)
    ev = np.linalg.eigvals(A)
    return {"ret": np.sqrt(max(ev)/min(ev))}
''')
R("D07", "diagnostics.jarque_bera", '''
def spec(reg):
    m2 = (reg.u**2).sum()/reg.n
    m3 = (reg.u**3).sum()/reg.n
    m4 = (reg.u**4).sum()/reg.n
    s = m3/m2**1.5
    k = m4/m2**2
    jb = reg.n/6*(s**2 + (k-3)**2/4)
    return {"ret['df']": 2, "ret['jb']": jb, "ret['pvalue']": stats.chi2.sf(jb, 2)}
''')
R("D07", "diagnostics.likratiotest", '''
def spec(reg0, reg1):
    lr = 2*(reg1.logll - reg0.logll)
    lr = -lr if lr < 0 else lr
    df = reg1.k - reg0.k
    df = df if df > 0 else 1
    return {"ret['likr']": lr, "ret['df']": df, "ret['p-value']": stats.chi2.sf(lr, df)}
''')
R("D07", "diagnostics.se_betas", '''
def spec(reg):
    return {"ret": np.sqrt(np.diag(reg.vm))}
''')
R("D07", "diagnostics_tsls.pr2_aspatial", '''
def spec(tslsreg):
    return {"ret": stats.pearsonr(tslsreg.y.flatten(), tslsreg.predy.flatten())[0]**2}
''')
R("D07", "diagnostics_tsls.pr2_spatial", '''
def spec(tslsreg):
    return {"ret": stats.pearsonr(tslsreg.y.flatten(), tslsreg.predy_e.flatten())[0]**2}
''')
FLOOR["D07"] = 20
# columns that repeat an earlier one do not count
DUP = '''
def dedup(z):
    n, p = z.shape
    omitcolumn = []
    for i in range(p):
        current = z[:, i]
        for j in range(p):
            check = z[:, j]
            if i < j:
                test = abs(current - check).sum()
                if test == 0:
                    omitcolumn.append(j)
    omitcolumn = list(set(omitcolumn))
    omitcolumn.sort()
    omitcolumn.reverse()
    for c in omitcolumn:
        z = np.delete(z, c, 1)
    return z
'''
for zz, sc in (("reg.x*reg.x", {}), ("z", {"z": P})):
    R("D07", "diagnostics.breusch_pagan", DUP + '''
def spec(reg, z):
    Z = dedup(%s)
    g = reg.u**2/(reg.utu/reg.n) - 1
    b = Z@(la.inv(Z.T@Z)@(Z.T@g))
    lm = ((g.T@b)/2)[0][0]
    df = Z.shape[1] - 1
    return {"ret['df']": df, "ret['bp']": lm, "ret['pvalue']": stats.chi2.sf(lm, df)}
''' % zz, sc=sc)
    R("D07", "diagnostics.koenker_bassett", DUP + '''
def spec(reg, z):
    Z = dedup(%s)
    g = reg.u**2 - reg.utu/reg.n
    v = ((reg.u**2 - reg.utu/reg.n)**2).sum()/reg.n
    lm = (g.T@(Z@(la.inv(Z.T@Z)@(Z.T@g)))/v)[0][0]
    df = Z.shape[1] - 1
    return {"ret['df']": df, "ret['kb']": lm, "ret['pvalue']": stats.chi2.sf(lm, df)}
''' % zz, sc=sc)
CI = mk("call", "@diagnostics.condition_index", (mk("param", "reg"),), ())
R("D07", "diagnostics.white", '''
from spreg.sputils import spmultiply, sphstack, spmax, spmin
import scipy.sparse as SP
def dedup(X, n, k):
    if type(X).__name__ == "ndarray":
        A = np.zeros((n, (k * (k + 1)) // 2))
    elif type(X).__name__ == "csc_matrix" or type(X).__name__ == "csr_matrix":
        A = SP.lil_matrix((n, (k * (k + 1)) // 2))
    else:
        raise Exception("unknown X type, %s" % type(X).__name__)
    counter = 0
    for i in range(k):
        for j in range(i, k):
            v = spmultiply(X[:, i], X[:, j], False)
            A[:, counter] = v
            counter += 1
    A = sphstack(X, A)
    n, k = A.shape
    omitcolumn = []
    for i in range(k):
        current = A[:, i]
        if spmax(current) == spmin(current):
            omitcolumn.append(i)
        for j in range(k):
            check = A[:, j]
            if i < j:
                test = abs(current - check).sum()
                if test == 0:
                    omitcolumn.append(j)
    omitcolumn = list(set(omitcolumn))
    if type(A).__name__ == "ndarray":
        A = np.delete(A, omitcolumn, 1)
    elif type(A).__name__ == "csc_matrix" or type(A).__name__ == "csr_matrix":
        keepcolumn = list(range(k))
        for i in omitcolumn:
            keepcolumn.remove(i)
        A = A[:, keepcolumn]
    else:
        raise Exception("unknown A type, %s" % type(X).__name__)
    return sphstack(np.ones((A.shape[0], 1)), A)
def spec(reg):
    A = dedup(reg.x, int(reg.n), int(reg.k))
    e = reg.u**2
    u = e - A@(la.inv(A.T@A)@(A.T@e))
    r2 = 1 - (u.T@u)/((e - np.mean(e))**2).sum()
    df = A.shape[1] - 1
    wh = r2*A.shape[0]
    return {"ret['df']": df, "ret['wh']": wh, "ret['pvalue']": stats.chi2.sf(wh, df)}
''', opaque=["diagnostics.condition_index"], facts=[(mk("cmp", "<", C(30), CI), False), (mk("cmp", ">", CI, C(30)), False)])
R("D07", "diagnostics.vif", '''
from libpysal.common import MISSINGVALUE
def spec(reg):
    res = []
    for j in range(reg.x.shape[1]):
        Z = np.delete(reg.x.copy(), j, 1)
        y = reg.x[:, j]
        u = y - Z@(la.inv(Z.T@Z)@(Z.T@y))
        tss = sum((y - np.mean(y))**2)
        if tss == 0:
            v = MISSINGVALUE
        else:
            tol = (u.T@u)/tss
            v = (1/tol, tol)
        res.append(v)
    return {"ret": res}
''')
R("D07", "diagnostics.dwh", '''
def spec(reg):
    n, ny = reg.n, reg.yend.shape[1]
    py = np.zeros((n, ny))
    for i in range(ny):
        yy = reg.yend[:, i].reshape(n, 1)
        py[0:n, i] = (reg.h@(la.inv(reg.h.T@reg.h)@(reg.h.T@yy))).flatten()
    X = np.hstack((reg.z, py))
    u = reg.y - X@(la.inv(X.T@X)@(X.T@reg.y))
    X0 = X[:, :-ny]
    u0 = reg.y - X0@(la.inv(X0.T@X0)@(X0.T@reg.y))
    df2 = n - X.shape[1]
    F = ((u0.T@u0 - u.T@u)/ny)/((u.T@u)/df2)
    return {"ret[0]": F, "ret[1]": stats.f.sf(F, ny, df2)}
''')
