"""C15 integer least squares (LAMBDA) and the Kalman measurement update"""
import numpy as np
from math import sqrt, erf
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same
from cssrlib import gnss as g
from cssrlib.mlambda import mlambda
from cssrlib.pppssr import pppos


# ------------------------------------------------------------ generator

SCALE = 20
def unimod(r, n, ops, big):
    """random unimodular matrix and its exact inverse (python ints)"""
    Z = [[int(i == j) for j in range(n)] for i in range(n)]
    W = [[int(i == j) for j in range(n)] for i in range(n)]
    for _ in range(ops):
        i, j = (int(v) for v in r.integers(0, n, 2))
        if i == j:
            continue
        u = r.random()
        if u < .15:                       # swap
            for M in Z:
                M[i], M[j] = M[j], M[i]
            W[i], W[j] = W[j], W[i]
        elif u < .25:                     # sign
            for M in Z:
                M[i] = -M[i]
            W[i] = [-x for x in W[i]]
        else:                             # column j += m*column i
            m = int(r.integers(-3, 4))
            if max(abs(Z[k][j]+m*Z[k][i]) for k in range(n)) > big or \
               max(abs(W[i][k]-m*W[j][k]) for k in range(n)) > big:
                continue
            for k in range(n):
                Z[k][j] += m*Z[k][i]
                W[i][k] -= m*W[j][k]
    return np.array(Z, dtype=float), np.array(W, dtype=float)


def problem(c):
    """Q (possibly strongly correlated), its decorrelated form, ahat"""
    n, seed = c['n'], c['seed']
    r = np.random.default_rng(seed)
    A = r.standard_normal((n, n+2))
    Qz = A@A.T/(n+2)+0.05*np.eye(n)
    D = np.diag(np.sqrt(10.0**r.uniform(-1, 1, n)))
    Qz = D@Qz@D*10.0**c['sc']
    if c['diag']:
        Qz = np.diag(np.diag(Qz))
    if c['sc'] <= 0 and c['ops']:
        Z, W = unimod(r, n, c['ops']*n, 200 if n < 8 else 60)
    else:
        Z = W = np.eye(n)
    Q = Z@Qz@Z.T
    # double precision; conditional variances below 1e-10 are refused
    if np.linalg.cond(Q) > 1e9 or np.linalg.eigvalsh(Q)[0] < 1e-8:
        Z = W = np.eye(n)
        Q = Qz
    Q = (Q+Q.T)/2
    off = np.round(r.uniform(-1, 1, n)*10.0**c['off'])
    if c['kind'] == 'near':       # float solution of true integers
        zt = np.zeros(n)
        e = np.linalg.cholesky(Qz)@r.standard_normal(n)*c['amp']
    elif c['kind'] == 'exact':
        zt = np.zeros(n)
        e = np.zeros(n)
    elif c['kind'] == 'half':
        zt = np.zeros(n)
        e = np.where(r.random(n) < .5, .5, 0.)
    else:
        zt = np.zeros(n)
        e = r.uniform(-.5, .5, n)
    a = off+np.round(Z@zt)+Z@e
    # Z maps z to a: a = Z z, z = W a
    return Q, Qz, Z, W, off, a, e


PROB = st.fixed_dictionaries(dict(
    n=st.sampled_from([1, 2, 2, 3, 4, 5, 6, 8, 10, 12]),
    seed=st.integers(0, 2**32-1),
    sc=st.sampled_from([-4, -3, -2, -1, -0.5, 0]),
    ops=st.sampled_from([0, 1, 3, 6, 10]),
    off=st.sampled_from([0, 1, 3, 6, 8]),
    kind=st.sampled_from(['near', 'near', 'near', 'uni', 'exact', 'half']),
    amp=st.sampled_from([.3, 1, 3]),
    diag=st.sampled_from([False, False, False, True]),
    nc=st.sampled_from([1, 2, 2, 2, 3, 5])))


# --------------------------------------------------------------- oracle

def enum_ils(Qz, e, bound, limit=20000):
    """all integer z with (e-z)' Qz^-1 (e-z) <= bound (Fincke-Pohst)"""
    n = len(e)
    R = np.linalg.cholesky(np.linalg.inv(Qz)).T   # upper: |R(e-z)|^2
    out = []
    z = np.zeros(n)

    def rec(k, left):
        if len(out) > limit:
            return
        s = sum(R[k, j]*(e[j]-z[j]) for j in range(k+1, n))/R[k, k]
        c = e[k]+s
        w = sqrt(max(left, 0))/R[k, k]
        for v in range(int(np.ceil(c-w-1e-12)), int(np.floor(c+w+1e-12))+1):
            z[k] = v
            d = (R[k, k]*(c-v))**2
            if d > left:
                continue
            if k == 0:
                out.append((bound-left+d, z.copy()))
            else:
                rec(k-1, left-d)
        z[k] = 0

    rec(n-1, bound)
    out.sort(key=lambda t: t[0])
    return out


def phi_int(s):
    """P(|N(0,s)| < 1/2)"""
    return erf(0.5/s/sqrt(2))


# --------------------------------------------------------------- facets

@facet('ils', PROB, quick=500, thorough=12000,
       rule='correlated covariance or a non-trivial float solution')
def ils(c):
    Q, Qz, Z, W, off, a, e = problem(c)
    n, nc = c['n'], c['nc']
    Q0, a0 = Q.copy(), a.copy()
    afix, s, nfix, Ps = mlambda(a, Q, nc, 1)
    check(np.array_equal(Q, Q0) and np.array_equal(a, a0),
          'input vector or covariance modified')
    same('nfix', nfix, n)
    same('shape', np.shape(afix), (n, nc))
    same('number of norms', len(s), nc)
    check(np.array_equal(afix, np.round(afix)), 'not integer: %r', afix)
    check(all(s[i] <= s[i+1] for i in range(nc-1)), 'norms unsorted %r', s)
    # candidates in the decorrelated space, relative to the offset
    Qi = np.linalg.inv(Qz)
    ez = W@(a-off)
    zs = []
    # rounding of the decorrelated float solution
    err = 1e-15*n*n*(np.max(np.abs(off))+1)*np.max(np.abs(W))**2
    lam = np.linalg.eigvalsh(Qi)[-1]

    cq = 2e-15*n*np.linalg.cond(Q)

    def tol(q):
        return (1e-6+cq)*(1+q)+err*err*lam+2*err*sqrt(q*lam)

    for i in range(nc):
        z = np.round(W@(afix[:, i]-off))
        zs.append(tuple(z))
        q = float((ez-z)@Qi@(ez-z))
        eq('norm of candidate %d' % i, s[i], q, tol(q))
    check(len(set(zs)) == nc, 'duplicate candidates %r', zs)
    b = float(s[-1])+tol(s[-1])
    best = enum_ils(Qz, ez, b)
    check(len(best) >= nc, 'enumeration found only %d of %d', len(best), nc)
    for i in range(nc):
        eq('squared norm %d' % i, s[i], best[i][0], 2*tol(s[i]))
    if nc == 1 or s[1] > s[0]+2*tol(s[0]):
        if len(best) < 2 or best[1][0]-best[0][0] > 2*tol(s[0]):
            same('integer minimiser', zs[0], tuple(best[0][1]))
    return 'n=%d %s' % (n, c['kind'])


@facet('invariance', PROB, quick=250, thorough=6000,
       rule='any problem with a unique minimiser')
def invariance(c):
    """translation by integers, reordering, and the number of candidates do
    not change the solution"""
    Q, Qz, Z, W, off, a, e = problem(dict(c, off=min(c['off'], 3)))
    n = c['n']
    r = np.random.default_rng(c['seed'] ^ 0x55)
    afix, s, nfix, Ps = mlambda(a, Q, 2, 1)
    if s[1]-s[0] < 1e-4*(1+s[0]):
        return False
    sh = np.round(r.uniform(-1e4, 1e4, n))
    f1, s1, _, _ = mlambda(a+sh, Q, 2, 1)
    check(np.array_equal(f1[:, 0]-sh, afix[:, 0]), 'integer shift')
    eq('norms after shift', s1, s, 1e-5, 1e-5)
    p = r.permutation(n)
    f2, s2, _, _ = mlambda(a[p], Q[p][:, p].copy(), 2, 1)
    check(np.array_equal(f2[:, 0], afix[p, 0]), 'permutation')
    eq('norms after permutation', s2, s, 1e-5, 1e-5)
    f3, s3, _, _ = mlambda(a, Q, 1, 1)
    check(np.array_equal(f3[:, 0], afix[:, 0]), 'one candidate')
    f4, s4, _, _ = mlambda(a, Q, 4, 1)
    check(np.array_equal(f4[:, 0], afix[:, 0]), 'four candidates')
    eq('first norms of four', s4[:2], s, 1e-5, 1e-5)
    k = 10.0**r.uniform(-1, 1)
    f5, s5, _, P5 = mlambda(a, Q*k, 2, 1)
    check(np.array_equal(f5[:, 0], afix[:, 0]), 'scaled covariance')
    eq('norms scale', s5*k, s, 1e-5, 1e-5)
    return True


@facet('success', PROB, quick=250, thorough=6000,
       rule='success rate not within 1e-9 of 0 or 1')
def success(c):
    Q, Qz, Z, W, off, a, e = problem(c)
    n = c['n']
    _, _, _, Ps = mlambda(a, Q, 2, 1)
    check(0.0 <= Ps <= 1.0, 'success rate %r', Ps)
    # bootstrapping can not be better than the ADOP bound
    _, ld = np.linalg.slogdet(Qz)
    adop = np.exp(ld/(2*n))
    ub = phi_int(adop)**n
    check(Ps <= ub*(1+1e-6)+1e-9, 'success rate %r above ADOP bound %r', Ps,
          ub)
    # and not worse than the worst direction alone allows
    if n == 1:
        eq('success rate n=1', Ps, phi_int(sqrt(Q[0, 0])), 1e-9, 1e-7)
    if c['diag'] and (np.array_equal(Z, np.eye(n))):
        eq('success rate of independent ambiguities', Ps,
           np.prod([phi_int(sqrt(Qz[i, i])) for i in range(n)]), 1e-9, 1e-6)
    if n == 2:      # a reduced basis of two is unique: shortest vector last
        m1 = shortest2(Qz)
        eq('success rate of two ambiguities', Ps, phi_int(sqrt(m1)) *
           phi_int(sqrt(np.linalg.det(Qz)/m1)), 1e-6, 1e-3)
    # with more precise ambiguities the rate does not fall
    _, _, _, P2 = mlambda(a, Q/4, 2, 1)
    check(P2 >= Ps-1e-6 or n > 1 and P2 >= Ps*0.98, 'rate %r -> %r', Ps, P2)
    return 1e-9 < Ps < 1-1e-9


def frac(x):
    return np.abs(x-np.round(x))


def shortest2(Q):
    """smallest variance of an integer combination of two (Gauss)"""
    u, v = np.array([1., 0.]), np.array([0., 1.])
    for _ in range(1000):
        if u@Q@u > v@Q@v:
            u, v = v, u
        k = np.round((u@Q@v)/(u@Q@u))
        if k == 0:
            break
        v = v-k*u
    return float(min(u@Q@u, v@Q@v))


@facet('partial', st.tuples(PROB, st.sampled_from([.5, .9, .99, .995,
                                                   .9999])),
       quick=400, thorough=9000,
       rule='a partial or complete fix was made')
def partial(cc):
    """parmode=2: full fix, all but one decorrelated ambiguity, or none"""
    c, P0 = cc
    c = dict(c, off=min(c['off'], 3))
    Q, Qz, Z, W, off, a, e = problem(c)
    n, nc = c['n'], c['nc']
    _, sf, _, Pf = mlambda(a, Q, nc, 1)
    afix, s, nfix, Ps = mlambda(a, Q, nc, 2, P0)
    check(nfix in (0, n-1, n), 'nfix %r of %d', nfix, n)
    # the rate without the worst one, where the reduced basis is unique
    P1 = None
    if n == 2:
        P1 = phi_int(sqrt(shortest2(Qz)))
    elif n > 2 and c['diag'] and np.array_equal(Z, np.eye(n)):
        P1 = np.prod([phi_int(sqrt(x)) for x in sorted(np.diag(Qz))[:-1]])
    if P1 is not None and abs(P1-P0) > 1e-4 and abs(Pf-P0) > 1e-9:
        same('number of fixed ambiguities (rates %r %r, P0 %r)'
             % (float(Pf), float(P1), P0), nfix,
             n if Pf > P0 else n-1 if P1 > P0 else 0)
    if nfix == 0:
        check(Pf <= P0, 'full success rate %r > P0 but nothing fixed', Pf)
        eq('float solution', np.ravel(afix), a, 1e-6, 1e-9)
        check(len(s) == 0, 'norms without a fix')
        return 'none'
    check(Ps >= P0, 'success rate %r below P0 %r', Ps, P0)
    same('shape', np.shape(afix), (n, nc))
    same('number of norms', len(s), nc)
    check((Pf >= P0) == (nfix == n), 'nfix %d of %d with full rate %r, P0 %r',
          nfix, n, Pf, P0)
    Qi = np.linalg.inv(Qz)
    ez = W@(a-off)
    for i in range(nc):
        z = W@(afix[:, i]-off)
        # the conditional solution of the others: residual norm in the metric
        # of Q is the norm of the fixed subset
        q = float((ez-z)@Qi@(ez-z))
        eq('norm %d' % i, s[i], q, 1e-5, 1e-4)
        if nfix == n:
            check(np.max(frac(z)) < 1e-6, 'complete fix is not integer')
    check(all(s[i] <= s[i+1] for i in range(nc-1)), 'norms unsorted %r', s)
    if nfix == n:
        eq('norms', s, sf, 1e-6, 1e-6)
        return 'full'
    # a subset of constraints never costs more than all of them
    check(s[0] <= sf[0]*(1+1e-6)+1e-6, 'subset norm %r > full %r', s[0],
          sf[0])
    return 'partial'


# --------------------------------------------------------------- Kalman

KF = st.fixed_dictionaries(dict(
    n=st.integers(1, 12), m=st.integers(1, 14),
    seed=st.integers(0, 2**32-1),
    zero=st.sampled_from([0, 0, .3, .6]),
    sc=st.sampled_from([-2, 0, .7]),
    corr=st.booleans(), dup=st.booleans()))


def kfprob(c):
    r = np.random.default_rng(c['seed'])
    n, m = c['n'], c['m']
    A = r.standard_normal((n, n+3))
    P = A@A.T/(n+3)+.05*np.eye(n)
    D = np.diag(10.0**r.uniform(-1, 1, n)*10.0**c['sc'])
    P = D@P@D
    act = r.random(n) >= c['zero']
    x = r.standard_normal(n)*100
    P[~act, :] = 0
    P[:, ~act] = 0
    H = r.standard_normal((m, n))
    H[r.random((m, n)) < .3] = 0
    if c['dup'] and m > 1:
        H[1] = H[0]
    if c['corr']:
        B = r.standard_normal((m, m+2))
        R = B@B.T/m+.1*np.eye(m)
    else:
        R = np.diag(10.0**r.uniform(-2.5, 1, m))
    v = r.standard_normal(m)*3
    return r, x, P, H, v, R, act


def info_update(x, P, H, v, R, act):
    """weighted least squares with the prior as pseudo-observations"""
    i = np.flatnonzero(act)
    Pn, xn = P.copy(), x.copy()
    if len(i) == 0:
        return xn, Pn
    Hs = H[:, i]
    Pi = np.linalg.inv(P[np.ix_(i, i)])
    Ri = np.linalg.inv(R)
    C = np.linalg.inv(Pi+Hs.T@Ri@Hs)
    xn[i] += C@(Hs.T@(Ri@v))
    Pn[np.ix_(i, i)] = C
    return xn, Pn


def judge(tag, x1, P1, S1, x0, P0, H, v, R, act):
    ex, eP = info_update(x0, P0, H, v, R, act)
    sd = np.sqrt(np.maximum(np.diag(P0), 1e-30))
    d = np.abs(x1-ex)/np.where(act, sd, 1)
    check(np.all(d < 1e-6*(1+np.max(np.abs(v)))*1e2), '%s: state %r expected '
          '%r', tag, x1, ex)
    N = np.outer(sd, sd)
    check(np.all(np.abs(P1-eP) <= 1e-7*N+1e-12*(1-np.outer(act, act))),
          '%s: covariance %r expected %r', tag, P1, eP)
    check(np.array_equal(x1[~act], x0[~act]), '%s: inactive state changed',
          tag)
    eS = H@P0@H.T+R
    check(np.all(np.abs(S1-eS) <= 1e-9*np.max(np.abs(eS))), '%s: innovation '
          'covariance', tag)
    check(np.all(np.abs(P1-P1.T) <= 1e-9*N+1e-20), '%s: asymmetric', tag)
    w = P1[np.ix_(act, act)]/N[np.ix_(act, act)]
    if len(w):
        check(np.linalg.eigvalsh((w+w.T)/2)[0] > -1e-9, '%s: not positive',
              tag)
        check(np.all(np.diag(P1)[act] <= np.diag(P0)[act]*(1+1e-9)),
              '%s: a variance grew', tag)


@facet('kalman', KF, quick=400, thorough=8000,
       rule='at least one active state')
def kalman(c):
    r, x, P, H, v, R, act = kfprob(c)
    x1, P1, S1 = g.kfupdate(x.copy(), P.copy(), H, v, R)
    judge('gnss.kfupdate', x1, P1, S1, x, P, H, v, R, act)
    p = object.__new__(pppos)
    x2, P2, S2 = p.kfupdate(x.copy(), P.copy(), H, v, R)
    judge('pppos.kfupdate', x2, P2, S2, x, P, H, v, R, act)
    return bool(act.any())


@facet('sequential', KF, quick=200, thorough=4000,
       rule='at least two measurements and an active state')
def sequential(c):
    """measurements processed one at a time = all at once"""
    c = dict(c, corr=False)
    r, x, P, H, v, R, act = kfprob(c)
    z = v+H@x
    p = object.__new__(pppos)
    for tag, kf in (('gnss', g.kfupdate), ('pppos', p.kfupdate)):
        xs, Ps = x.copy(), P.copy()
        for k in r.permutation(len(v)):
            xs, Ps, _ = kf(xs, Ps, H[k:k+1], np.array([z[k]-H[k]@xs]),
                           R[k:k+1, k:k+1])
        ex, eP = info_update(x, P, H, v, R, act)
        sd = np.sqrt(np.maximum(np.diag(P), 1e-30))
        check(np.all(np.abs(xs-ex)/np.where(act, sd, 1) <
                     1e-4*(1+np.max(np.abs(v)))), '%s sequential: %r '
              'expected %r', tag, xs, ex)
        check(np.all(np.abs(Ps-eP) <= 1e-6*np.outer(sd, sd)+1e-20),
              '%s sequential covariance', tag)
    return len(v) > 1 and bool(act.any())


@facet('dop', st.fixed_dictionaries(dict(
    n=st.integers(4, 30), seed=st.integers(0, 2**32-1),
    elmin=st.sampled_from([0, 5, 15, 30]))), quick=200, thorough=4000,
    rule='four or more satellites above the mask with usable geometry')
def dop(c):
    """DOP = standard deviations of the unit-weight solution in ENU"""
    r = np.random.default_rng(c['seed'])
    n = c['n']
    az = r.uniform(0, 2*np.pi, n)
    el = r.uniform(np.deg2rad(1), np.pi/2, n)
    m = np.deg2rad(c['elmin'])
    use = el >= m
    if use.sum() < 4:
        return False
    A = np.array([[np.cos(b)*np.sin(a), np.cos(b)*np.cos(a), np.sin(b), 1.]
                  for a, b in zip(az[use], el[use])])
    _, sv, vt = np.linalg.svd(A, full_matrices=False)
    if sv[-1] < 1e-3*sv[0]:
        return False
    C = (vt.T/sv**2)@vt
    G, Pd, Hd, Vd = g.dops(az, el, m)
    eq('GDOP', G, sqrt(np.trace(C)), 0, 1e-6)
    eq('PDOP', Pd, sqrt(np.trace(C[:3, :3])), 0, 1e-6)
    eq('HDOP', Hd, sqrt(C[0, 0]+C[1, 1]), 0, 1e-6)
    eq('VDOP', Vd, sqrt(C[2, 2]), 0, 1e-6)
    eq('GDOP from design matrix', g.dops_h(A), [G, Pd, Hd, Vd], 0, 1e-6)
    return True
