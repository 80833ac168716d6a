# Probit: likelihood, derivatives, predictions, tests, marginal effects
FLOOR["D12"] = 32
WP = {"w": P}
PL = '''
from scipy.stats import norm
import scipy.optimize as op
def lam(y, x, b):
    q = 2*y - 1
    return q*norm.pdf(q*(x@b))/norm.cdf(q*(x@b))
def logl(y, x, b):
    q = 2*y - 1
    return np.sum(np.log(norm.cdf(q*(x@b))))
def score(y, x, b):
    return (lam(y, x, b).T@x)[0]
def hess(y, x, b):
    l = lam(y, x, b)
    return -x.T@np.diag((l*(l + x@b)).flatten())@x
def newton(y, x, n):
    b = la.inv(x.T@x)@(x.T@y)
    for i in range(n):
        o = b
        b = b + la.inv(-hess(y, x, b))@(lam(y, x, b).T@x).T
    return b, lam(y, x, o).T@x@la.inv(-hess(y, x, o))@(lam(y, x, o).T@x).T
def results(y, x, b):
    xb = x@b
    p, f = norm.cdf(xb), norm.pdf(xb)
    return {'logl': logl(y, x, b), 'vm': -la.inv(hess(y, x, b)), 'xb': xb, 'predy': p, 'phiy': f, 'u_naive': y - p, 'u_gen': f*(y - p)/(p*(1 - p)), 'predybin': (p > 0.5)*1,
            'xmean': np.mean(x, axis=0).reshape(-1, 1)}
'''
BP = dict(shapes={"maxiter": ()})
for k in (1, 2):
    R("D12", "probit.BaseProbit", PL + "def spec(m, y, x):\n    b, m = newton(y, x, %d)\n    return {'betas': b, 'test[-1]': m >= 1e-4}\n" % k, sc={"optim": "newton", "bstart": False}, loops=k, name="%d steps" % k, assume=lambda c: True if c.op == "cmp" and mk("param", "maxiter") in c.a[1:] and c.a[0] in ("<", ">") else None, **BP)
R("D12", "probit.BaseProbit", PL + "def spec(m, y, x):\n    return results(y, x, m.betas)\n", sc={"optim": "newton", "bstart": False}, loops=1, name="results", cut=["betas"], **BP)
for o, call in (("bfgs", "op.fmin_bfgs(f, s, g, full_output=1, disp=0)"), ("ncg", "op.fmin_ncg(f, s, g, fhess=h, full_output=1, disp=0)")):
    src = PL + "def spec(m, y, x):\n    f = lambda b: -logl(y, x, np.reshape(np.array(b), (x.shape[1], 1)))\n    g = lambda b: -score(y, x, np.reshape(np.array(b), (x.shape[1], 1)))\n    h = lambda b: -hess(y, x, np.reshape(np.array(b), (x.shape[1], 1)))\n"
    src += "    s = la.inv(x.T@x)@(x.T@y)\n    r = %s\n    return {'betas': r[0].reshape(-1, 1), 'logl': -r[1].item()}\n" % call
    R("D12", "probit.BaseProbit", src, sc={"optim": o, "bstart": False}, **BP)
    R("D12", "probit.BaseProbit", PL.replace("'logl': logl(y, x, b), ", "") + "def spec(m, y, x):\n    return results(y, x, m.betas)\n", sc={"optim": o, "bstart": False}, name="results", cut=["betas"], **BP)
PROB = dict(shapes={"regprob": None, "reg": None}, attrs={"scale": (), "phiy": (N, N1), "predybin": (N, N1), "u_gen": (N, N1), "xmean": (K, N1), "scalem": None, "L0": ()})
R("D12", "diagnostics_probit.probit_lrtest", """
def spec(regprob):
    p = np.mean(regprob.y)
    l0 = regprob.n*(p*np.log(p) + (1 - p)*np.log(1 - p))
    lr = 2*(regprob.logl - l0)
    return {"ret['L0']": l0, "ret['likr']": lr, "ret['df']": regprob.k - 1, "ret['p-value']": stats.chi2.sf(lr, regprob.k - 1)}
""", **PROB)
R("D12", "diagnostics_probit.mcfad_rho", "def spec(regprob):\n    return {'ret': 1 - regprob.logl/regprob.L0}\n", **PROB)
APE = """
def spec(regprob):
    r = regprob
    xb = r.xmean.T@r.betas
    scale = %s
    J = np.eye(r.k) - xb*(r.betas@r.xmean.T)
    V = scale**2*(J@r.vm@J.T)
    sl = (r.betas[1:, 0]*scale).reshape(-1, 1)
    se = np.sqrt(V[1:, 1:].diagonal()).reshape(-1, 1)
    z = sl/se
    return {'ret[0]': scale, 'ret[1]': sl, 'ret[2]': V[1:, 1:], 'ret[3]': se, 'ret[4]': [(z[i, 0], 2*stats.norm.sf(abs(z[i, 0]))) for i in range(len(sl))]}
"""
for s, v in (("xmean", "stats.norm.pdf(xb)"), ("phimean", "np.mean(r.phiy, axis=0)")):
    R("D12", "diagnostics_probit.probit_ape", APE % v, facts=[(mk("cmp", "==", at(mk("param", "regprob"), "scalem"), C(z)), z == s) for z in ("xmean", "phimean")], name=s, **PROB)
R("D12", "diagnostics_probit.moran_KP", """
def spec(w, u, sig2i):
    W = w.sparse
    E = np.diag(sig2i.flatten())
    m = (u.T@W@u)/np.sqrt(np.trace(W@E@W@E + W.T@E@W@E))
    return {'ret[0]': m.item(), 'ret[1]': 2*stats.norm.sf(abs(m.item()))}
""", sc=WP, shapes={"sig2i": (N, N1)})
TST = """
def spec(regprob):
    r = regprob
    W = r.w.sparse
    P = r.predy*(1 - r.predy)
    s2 = np.sum(r.phiy**2/P)/r.n
    a = ((r.u_gen.T@W@r.u_gen)**2/(s2**2*np.trace(W@W + W@W.T))).item()
    E = np.diag(P.flatten())
    m = ((r.u_naive.T@W@r.u_naive)/np.sqrt(np.trace(W@E@W@E + W.T@E@W@E))).item()
    u = r.u_naive/np.sqrt(P)
    c = ((u.T@W@u)**2/np.trace(W@W + W.T@W)).item()
    return {'ret[0][0]': a, 'ret[0][1]': stats.chi2.sf(a, 1), 'ret[1][0]': m, 'ret[1][1]': 2*stats.norm.sf(abs(m)), 'ret[2][0]': c, 'ret[2][1]': stats.chi2.sf(c, 1)}
"""
R("D12", "diagnostics_probit.sp_tests", TST, sc={"regprob": P, "obj_list": None}, types={"regprob.w": "W"}, facts=[(mk("param", "regprob"), True)], **PROB)
R("D12", "diagnostics_probit.pred_table", """
def spec(reg):
    y, p, n = reg.y, reg.predybin, reg.n
    d = {'actpos': int(np.sum(y)), 'actneg': int(n - np.sum(y)), 'predpos': np.sum(p), 'predneg': n - np.sum(p), 'truepos': np.sum((p == 1)*1*((y == 1)*1)), 'trueneg': np.sum((p == 0)*1*((y == 0)*1)), 'falsepos': np.sum((p == 1)*1*((y == 0)*1)), 'falseneg': np.sum((p == 0)*1*((y == 1)*1))}
    return {"ret['actpos']": d['actpos'], "ret['actneg']": d['actneg'], "ret['predpos']": d['predpos'], "ret['predneg']": d['predneg'], "ret['truepos']": d['truepos'], "ret['trueneg']": d['trueneg'], "ret['falsepos']": d['falsepos'], "ret['falseneg']": d['falseneg']}
""", **PROB)
R("D12", "diagnostics_probit.probit_fit", """
def spec(reg):
    t = reg.predtable
    a, b = 100*t['truepos']/t['actpos'], 100*t['trueneg']/t['actneg']
    return {"ret['TPR']": a, "ret['TNR']": b, "ret['BA']": (a + b)/2, "ret['PREDPC']": 100*(t['truepos'] + t['trueneg'])/reg.n}
""", attrs={"predtable": None})
