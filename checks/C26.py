"""C26 RTK: base and rover carrier phases"""
from copy import deepcopy
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same, Quiet
from vlib import gen, possim, ppsim
from vlib.possim import Sim, enu
from cssrlib import gnss as g
from cssrlib.gnss import Nav, uGNSS, uTYP, rSigRnx
from cssrlib.rtk import rtkpos

SCALE = 2
EV = ['lli', 'gf', 'gap', 'blli', 'bgf', 'bgap', 'few', 'cn0', 'noL', 'noP',
      'bnoL']
SYSN = ['G', 'GE', 'GEJ', 'GC', 'GEC', 'E', 'C', 'GR', 'R', 'GEJCR', 'GI']
FAULT = ['svh', 'excl', 'eph', 'beph']


@st.composite
def scene(draw, systems=None, nmin=7, events=True, kin=None):
    nf = draw(st.sampled_from([2, 2, 2, 2, 1, 3]))
    sysn = systems or draw(st.sampled_from(SYSN))
    if nf == 3:
        sysn = sysn.replace('R', '').replace('I', '') or 'G'
    low = draw(st.integers(0, 2))
    sats = draw(possim.sat_list(sysn, nmin+len(sysn)//2, 11, low=low))
    nb = draw(st.integers(0, 2))
    bad = draw(possim.sat_list(sysn, nb, nb)) if nb else []
    have = {(s['c'], s['prn']) for s in sats}
    bad = [b for b in bad if (b['c'], b['prn']) not in have]
    for b in bad:
        b['fault'] = draw(st.sampled_from(FAULT))
        b['el'] = max(b['el'], 20.0)
    n = draw(st.integers(3, 7))
    ev = []
    if events:
        for _ in range(draw(st.integers(0, 4))):
            ev.append(dict(k=draw(st.sampled_from(EV)),
                           ep=draw(st.integers(1, n-1)),
                           sat=draw(st.integers(0, len(sats)-low-1)),
                           n=draw(st.integers(1, 3)),
                           f=draw(st.integers(0, nf-1)),
                           bl=draw(st.booleans()),
                           sz=[draw(st.integers(-50, 50)) for _ in range(nf)]))
    i8 = st.integers(-1000, 1000).map(lambda x: x*1e-3)
    return dict(
        site=draw(possim.site()), sats=sats, bad=bad, systems=sysn, nf=nf,
        week=draw(st.integers(1700, 2700)),
        tow=draw(st.integers(0, 604800//30-1))*30,
        p0=[draw(st.integers(-6, 6))*1.0 for _ in range(3)],
        bl=[draw(i8)*5000, draw(i8)*5000, draw(i8)*60],
        clk=[draw(i8)*3e5+137.3, draw(i8)*3e5], drift=[draw(i8)*3, draw(i8)*3],
        dz=draw(i8)*0.1, vel=[draw(i8)*0.4 for _ in range(3)],
        kin=draw(st.booleans()) if kin is None else kin, dt=draw(st.sampled_from([1, 5, 30])),
        hold=draw(st.booleans()), seed=draw(st.integers(0, 10**6)),
        arr=draw(st.booleans()), n=n, ev=ev,
        opt=draw(st.sampled_from([(1, 1), (1, 1), (1, 0), (0, 0), (0, 1)]))
        if nf > 1 else draw(st.sampled_from([(0, 0), (1, 0)])))


def amb(sats, nf, rng):
    """integers, but not for satellites below the ambiguity mask"""
    a = rng.randint(-10**6, 10**6, (len(sats), nf)).astype(float)
    for i, k in enumerate(sats):
        if k['el'] < 19:
            a[i] += rng.choice([0.0, 0.37, 0.5], nf)
    return a


def mk(s):
    rng = np.random.RandomState(s['seed'])
    sats = s['sats']+s['bad']
    n, nf = len(sats), s['nf']
    sim = Sim(s['site'], sats, s['week'], s['tow'])
    codes = {c: possim.CODE[c][:nf] for c in s['systems']}
    base = sim.rr+enu(sim.llh).T@np.array(s['bl'])
    I = rng.uniform(0.5, 15, n)
    dI = rng.uniform(-0.5, 0.5, n) if s['opt'][1] else np.zeros(n)
    err = rng.uniform(-5, 5, n)/ppsim.C
    kw = dict(dz=s['dz'], shap=True, clock=lambda i, t: err[i])
    ru = ppsim.Rx(sim, codes, s['systems'], clk=s['clk'][0],
                  drift=s['drift'][0], vel=s['vel'] if s['kin'] else (0, 0, 0),
                  iono=list(I+dI), amb=amb(sats, nf, rng),
                  **kw)
    rb = ppsim.Rx(sim, codes, s['systems'], rr=base, clk=s['clk'][1],
                  drift=s['drift'][1], iono=list(I),
                  amb=rng.randint(-10**6, 10**6, (n, nf)), **kw)
    ru.gf, rb.gf = {}, {}
    nav = Nav(nf=nf)
    nav.pmode = 1 if s['kin'] else 0
    nav.rb = base.copy() if s['arr'] else list(base)
    ng = len(s['sats'])
    nob = []
    skip = []
    for j, b in enumerate(s['bad']):
        if b['fault'] == 'eph':
            skip.append(ng+j)
        if b['fault'] == 'beph':
            nob.append(ng+j)
    sim.load(nav, skip)
    for i, (c, k, _) in enumerate(sim.sats):
        if c == 'R':
            nav.glo_ch[sim.satno(i)] = k['frq']
    for j, b in enumerate(s['bad']):
        sat = sim.satno(ng+j)
        if b['fault'] == 'excl':
            nav.excl_sat.append(sat)
        if b['fault'] == 'svh':
            for e in nav.eph+nav.geph:
                if e.sat == sat:
                    e.svh = 1
    for i in range(ng, n):
        if s['bad'][i-ng]['fault'] != 'beph':
            ru.cb[i] = rng.uniform(-1e4, 1e4)
    nav.t = g.gpst2time(s['week'], s['tow'])
    nav.parmode = 1
    cfg = deepcopy(g.default_config)
    cfg['nav']['trop_opt'], cfg['nav']['iono_opt'] = s['opt']
    rtk = rtkpos(nav, pos0=sim.rr+np.array(s['p0']), config=None if
                 tuple(s['opt']) == (1, 1) else cfg)
    nav.parmode = 1
    nav.armode = 3 if s['hold'] else 1
    return sim, ru, rb, nav, rtk, nob, rng


def lam(rx, i, f):
    return ppsim.C/rx.fr(i, f)


def jump(rx, i, sz, mode):
    """change the ambiguities; mode 'gf' makes it visible to the
    geometry-free combination of the first two signals"""
    d = np.array(sz, dtype=float)
    if not np.any(d):
        d[0] = 3
    if mode == 'gf' and (len(d) < 2 or
                         abs(d[0]*lam(rx, i, 0)-d[1]*lam(rx, i, 1)) < 0.2):
        d[:] = 0
        d[0] = 7
    rx.amb[i] += d


def blind(rx, i):
    """change the ambiguities of the first two signals such that the
    geometry-free combination stays"""
    a, b = lam(rx, i, 0), lam(rx, i, 1)
    for n in range(5, 400):
        m = round(n*a/b)
        if abs(n*a-m*b) < 0.02:
            break
    rx.amb[i, 0] += n
    rx.amb[i, 1] += m


def epoch(s, k, ru, rb, nob, rng, noise):
    """observations of epoch k and the satellites which cannot be used"""
    t = k*s['dt']*1.0
    nf = s['nf']
    out = set()
    post = []
    keep_u = set(range(len(ru.sim.sats)))
    keep_b = keep_u-set(nob)
    few = [e for e in s['ev'] if e['k'] == 'few' and e['ep'] == k]
    for e in s['ev']:
        i, kd = e['sat'], e['k']
        if kd in ('gap', 'bgap'):
            if e['ep'] <= k < e['ep']+e['n']:
                (keep_u if kd == 'gap' else keep_b).discard(i)
                out.add(i)
                if k == e['ep']:
                    jump(ru if kd == 'gap' else rb, i, e['sz'], '')
            continue
        if e['ep'] != k:
            continue
        if kd in ('lli', 'blli'):
            rx = ru if kd == 'lli' else rb
            if e.get('bl') and nf > 1:
                blind(rx, i)
            else:
                jump(rx, i, e['sz'], '')
            post.append((kd, i, e['f']))
            out.add(i)
        elif kd in ('gf', 'bgf'):
            if nf == 1:
                continue
            rx = ru if kd == 'gf' else rb
            jump(rx, i, e['sz'], 'gf')
            out.add(i)
        elif kd in ('cn0', 'noL', 'noP', 'bnoL'):
            post.append((kd, i, e['f']))
            out.add(i)
    if few:
        # most satellites lost, the rest slips
        rest = list(range(5))
        keep_u &= set(rest)
        for i in rest:
            jump(ru, i, [5]*nf, '')
        post += [('lli', i, f) for i in rest for f in range(nf)]
        out |= set(range(len(ru.sim.sats)))
    o = ru.obs(t, noise)
    ob = rb.obs(t, noise)
    for kd, i, f in post:
        if kd == 'lli':
            o.lli[i, f] = 1
        elif kd == 'blli':
            ob.lli[i, f] = 1
        elif kd == 'cn0':
            # too weak to be used, and wrong
            o.S[i, f] = 10.0
            o.P[i, f] += 500.0
            o.L[i, f] += 5.3*(i % 2)
        elif kd == 'noL':
            o.L[i, f] = 0.0
        elif kd == 'noP':
            o.P[i, f] = 0.0
        elif kd == 'bnoL':
            ob.L[i, f] = 0.0
    # what the geometry-free combination of the first two signals sees
    if nf > 1:
        for rx, obs, keep in ((ru, o, keep_u), (rb, ob, keep_b)):
            for i in keep:
                if obs.L[i, 0] == 0 or obs.L[i, 1] == 0:
                    continue
                gf = obs.L[i, 0]*lam(rx, i, 0)-obs.L[i, 1]*lam(rx, i, 1)
                d = abs(gf-rx.gf.get(i, gf))
                if abs(d-0.15) < 0.02:
                    return None
                if d > 0.15:
                    out.add(i)
                rx.gf[i] = gf
    pu = sorted(keep_u)
    pb = sorted(keep_b)
    rng.shuffle(pu)
    rng.shuffle(pb)
    ppsim.pick(o, pu)
    ppsim.pick(ob, pb)
    return t, o, ob, out


def geometry(s, rx, out):
    """DD position dilution of the usable satellites above the mask"""
    ng = len(s['sats'])
    extra = [ng+j for j, b in enumerate(s['bad']) if b['fault'] == 'none']
    N = np.zeros((3, 3))
    N2 = np.zeros((3, 3))
    nu = 0
    edge = False
    for c in s['systems']:
        u, u2 = [], []
        for i in list(range(ng))+extra:
            if rx.sim.sats[i][0] != c:
                continue
            az, el = rx.info[i]
            d = np.rad2deg(el)
            if abs(d-15) < 0.3 or abs(d-20) < 0.3:
                edge = True
            if i in out or d < 15:
                continue
            e = [np.cos(el)*np.sin(az), np.cos(el)*np.cos(az), np.sin(el)]
            u.append(e)
            if d > 20:
                u2.append(e)
        nu += len(u)
        for M, x in ((N, u), (N2, u2)):
            if len(x) > 1:
                d = np.array(x)-np.mean(x, axis=0)
                M += d.T@d
    if edge or nu < 6 or np.linalg.matrix_rank(N2) < 3:
        return nu, 1e9, edge
    return nu, np.sqrt(np.trace(np.linalg.inv(N2))), edge


def run(s, noise=None, parmode=1):
    sim, ru, rb, nav, rtk, nob, rng = mk(s)
    nav.parmode = parmode
    res = []
    dh = 0.0
    up = enu(sim.llh)[2]
    for k in range(s['n']):
        r = epoch(s, k, ru, rb, nob, rng, noise)
        if r is None:
            break
        t, o, ob, out = r
        nu, dop, edge = geometry(s, ru, out)
        if edge:
            break
        nav.smode = 0
        mv = np.linalg.norm(nav.x[:3]-ru.pos(t)) if s['kin'] and k else 0.0
        # height error of the linearisation point: the model troposphere
        # (3E-4 of it) goes into the solution
        dh = max(dh, abs(up@(nav.x[:3]-ru.pos(t))))
        with Quiet():
            rtk.process(o, obsb=ob)
        res.append(dict(k=k, dh=dh, mv=mv, nu=nu, dop=dop, mode=nav.smode,
                        xa=nav.xa[:3]-ru.pos(t), x=nav.x[:3]-ru.pos(t),
                        sd=np.sqrt(np.trace(nav.P[:3, :3])), rb=np.array(nav.rb)-rb.rr0))
    return res


def judge(s):
    good = 0
    lost = False
    for r in run(s):
        k, d = r['k'], r['dop']
        same('base station position given by the user (epoch %d)' % k,
             r['rb'].tolist(), [0.0, 0.0, 0.0])
        if s['kin'] and d > 1e8:
            lost = True
        if r['nu'] < 6:
            check(r['mode'] == 0, 'epoch %d: solution with %d satellites', k,
                  r['nu'])
            continue
        if d > 12 or lost:
            # (a position predicted over several epochs is far off)
            continue
        check(r['mode'] in (4, 5), 'epoch %d: no solution', k)
        e = np.linalg.norm(r['x'])
        check(e < 0.05*max(d, 1)+r['mv'], 'epoch %d: float solution off by %.4f m '
              '(DOP %.1f)', k, e, d)
        if d > 6:
            continue
        check(r['mode'] == 4, 'epoch %d: ambiguities not resolved (DOP %.1f, '
              '%d satellites)', k, d, r['nu'])
        e = np.linalg.norm(r['xa'])
        check(e < (0.004+6e-4*r['dh'])*max(d, 2), 'epoch %d: fixed solution off by %.4f m '
              '(DOP %.1f)', k, e, d)
        good += 1
    if good < 2:
        return False
    return ','.join(sorted({e['k'] for e in s['ev']})) or 'plain'


@facet('static', scene(kin=False), 100, 900,
       'static rover, every epoch of noise-free base and rover data: fixed '
       'solution against the truth, cycle slips, gaps and unusable satellites '
       'included')
def static(s):
    return judge(s)


@facet('kinematic', scene(kin=True), 100, 900,
       'as static with a moving rover')
def kinematic(s):
    return judge(s)


@facet('noise', scene(events=False), 40, 600,
       'noisy data, partial ambiguity resolution: errors of float and fixed '
       'solution against the standard deviation stated by the filter')
def noisy(s):
    s = dict(s, hold=False)
    rng = np.random.RandomState(s['seed']+1)
    good = n = 0
    for r in run(s, (0.1, 0.001, rng), 2):
        if r['nu'] < 6:
            check(r['mode'] == 0, 'epoch %d: solution with %d satellites',
                  r['k'], r['nu'])
        if r['dop'] > 6:
            break
        check(r['mode'] in (4, 5), 'epoch %d: no solution', r['k'])
        lim = 5*r['sd']+(0.003+6e-4*r['dh'])*max(r['dop'], 2)
        e = np.linalg.norm(r['x'])
        check(e < lim, 'epoch %d: float solution off by %.4f m, standard '
              'deviation %.4f m', r['k'], e, r['sd'])
        n += 1
        if r['mode'] == 4:
            good += 1
            e = np.linalg.norm(r['xa'])
            check(e < lim, 'epoch %d: fixed solution off by %.4f m, standard '
                  'deviation of the float one %.4f m', r['k'], e, r['sd'])
    return 'fixed' if good else None if n < 2 else 'float'


@facet('hold', scene(events=False), 40, 500,
       'a held ambiguity stays fixed: with noisy pseudoranges the float '
       'solution after a fix is as good as the fixed one')
def hold(s):
    s = dict(s, hold=True)
    rng = np.random.RandomState(s['seed']+7)
    good = 0
    for r in run(s, (0.04, 0.0, rng)):
        if r['dop'] > 6:
            break
        check(r['mode'] in (4, 5), 'epoch %d: no solution', r['k'])
        lim = (0.008+6e-4*r['dh'])*max(r['dop'], 2)
        if r['mode'] != 4 or np.linalg.norm(r['xa']) > lim:
            if good:
                break       # other satellites
            continue
        e = np.linalg.norm(r['x'])
        check(e < 2*lim, 'epoch %d: solution off by %.4f m after the '
              'ambiguities were held', r['k'], e)
        good += 1
    return good > 0
