"""C21 single point positioning"""
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same, Quiet
from vlib import gen, orb, possim, atm
from vlib.possim import Sim, C, freq
from cssrlib import gnss as g
from cssrlib.gnss import Nav, Obs, rSigRnx, uTYP
from cssrlib.pntpos import stdpos

SCALE = 4
RULE = ('noise-free pseudoranges of a simulated receiver (own geometry, '
        'clocks, TGD, troposphere, ionosphere) over several epochs')

ION = st.tuples(
    st.tuples(st.integers(0, 127), st.integers(-60, 60), st.integers(-60, 60),
              st.integers(-60, 60)),
    st.tuples(st.integers(0, 100), st.integers(-60, 60),
              st.integers(-60, 60), st.integers(-60, 60))).map(
    lambda x: [[x[0][i]*2.0**(-30, -27, -24, -24)[i] for i in range(4)],
               [x[1][i]*2.0**(11, 14, 16, 16)[i] for i in range(4)]])

FAULT = ['eph', 'svh', 'excl', 'lli', 'P', 'L', 'cn0', 'nosig']


def sysset():
    return st.sampled_from(['G', 'GE', 'GR', 'GEJCR', 'GC', 'EC', 'E', 'C',
                            'GJ', 'R', 'GEC'])


@st.composite
def scene(draw, kin=False, iflc=False):
    systems = draw(sysset())
    if iflc:
        systems = systems.replace('R', '') or 'G'
        systems = systems.replace('C', '') or 'E'
    nmax = 11
    if systems == 'R':
        nmax = 10
    sats = draw(possim.sat_list(systems, 6, nmax, low=draw(
        st.integers(0, 3))))
    nb = draw(st.integers(0, 3))
    bad = draw(possim.sat_list(systems, nb, nb)) if nb else []
    have = {(s['c'], s['prn']) for s in sats}
    bad = [s for s in bad if (s['c'], s['prn']) not in have]
    for s in bad:
        s['fault'] = draw(st.sampled_from(FAULT))
        s['el'] = max(s['el'], 20.0)
        s['err'] = draw(st.integers(-10**6, 10**6))*1.0
    return dict(
        site=draw(possim.site()), sats=sats, bad=bad, systems=systems,
        week=draw(st.integers(1700, 2700)),
        tow=draw(st.integers(0, 604800//30-1))*30,
        ion=draw(ION),
        p0=[draw(st.integers(-40, 40))*1.0 for _ in range(3)],
        clk0=draw(st.one_of(st.integers(-300000, 300000), st.just(0),
                            st.integers(-300, 300)))*1.0,
        dt=draw(st.sampled_from([1, 5, 30])),
        n=draw(st.integers(5, 8)) if kin else draw(st.integers(2, 5)),
        jump=draw(st.sampled_from([0, 0, 1])),
        jsz=draw(st.one_of(st.integers(300, 200000),
                           st.integers(-200000, -300)))*1.0,
        vel=[draw(st.integers(-15, 15))*0.1 for _ in range(3)] if kin
        else [0.0]*3,
        drift=draw(st.integers(-20, 20))*(0.05 if kin else 0.0),
        seed=draw(st.integers(0, 10**6)))


def mk_obs(s, sim, nb0, t, dtr, nf, codes, iono, rr, cs=False):
    """observations of all satellites at receiver time tag t0+t"""
    obs = Obs()
    obs.t = g.timeadd(g.gpst2time(s['week'], s['tow']), t)
    # t is the receiver reading
    ttrue = t-dtr/C
    n = len(sim.sats)
    obs.sat = np.array([sim.satno(i) for i in range(n)])
    obs.P = np.zeros((n, nf))
    obs.L = np.zeros((n, nf))
    obs.S = np.full((n, nf), 45.0)
    obs.D = np.zeros((n, nf))
    obs.lli = np.zeros((n, nf), dtype=int)
    info = []
    obs.ion1 = []
    llh = possim.ecef2llh(rr)
    d = atm.doy(s['week'], s['tow']+t)
    zh, zw = atm.mops_zenith(d, llh[0], llh[2])
    rng = np.random.RandomState(s['seed'])
    stec = rng.uniform(0.5, 30.0, n)
    amb = rng.randint(-10**6, 10**6, (n, nf))
    for i, (c, k, _) in enumerate(sim.sats):
        rho, az, el, dts, _ = sim.geom(i, ttrue, rr)
        info.append((az, el))
        T = (zh+zw)*atm.mops_map(el) if el > 0.05 else 0.0
        if iono is None:
            I1 = stec[i]
        else:
            I1 = atm.klobuchar((s['tow']+t) % 604800, llh[0], llh[1], az, el,
                               iono[0], iono[1]) if el > 0.0 else 0.0
        obs.ion1.append(I1)
        f0 = freq(c, codes[c][0], k.get('frq', 0))
        for f in range(nf):
            ff = freq(c, codes[c][f], k.get('frq', 0))
            I = I1*(1575.42e6/ff)**2
            tgd = k.get('tgd', 0.0)*(f0/ff)**2
            obs.P[i, f] = rho+dtr-C*(dts-tgd)+T+I
            obs.L[i, f] = (rho+dtr-C*dts+T-I)*ff/C+amb[i, f]
    obs.sig = {}
    for c in s['systems']:
        obs.sig[gen.SYS[c]] = {
            uTYP.C: [rSigRnx(c+'C'+codes[c][f]) for f in range(nf)],
            uTYP.L: [rSigRnx(c+'L'+codes[c][f]) for f in range(nf)],
            uTYP.S: [rSigRnx(c+'S'+codes[c][f]) for f in range(nf)]}
    return obs, info


def spoil(obs, sim, s, nav, first):
    """make the bad satellites unusable"""
    n0 = len(s['sats'])
    for j, b in enumerate(s['bad']):
        i = n0+j
        sat = int(obs.sat[i])
        obs.P[i, 0] += b['err']
        ft = b['fault']
        if ft == 'lli':
            obs.lli[i, 0] = 1
        elif ft == 'P':
            obs.P[i, 0] = 0.0
        elif ft == 'L':
            obs.L[i, 0] = 0.0
        elif ft == 'cn0':
            obs.S[i, 0] = 20.0
        if first:
            if ft == 'eph':
                nav.eph = [e for e in nav.eph if e.sat != sat]
                nav.geph = [e for e in nav.geph if e.sat != sat]
            elif ft == 'svh':
                for e in nav.eph+nav.geph:
                    if e.sat == sat:
                        e.svh = 1
            elif ft == 'excl':
                nav.excl_sat = nav.excl_sat+[sat]
    drop = [i for i in range(len(obs.sat)) if i >= n0 and
            s['bad'][i-n0]['fault'] == 'nosig']
    if drop:
        keep = [i for i in range(len(obs.sat)) if i not in drop]
        for a in ('sat', 'P', 'L', 'S', 'D', 'lli'):
            setattr(obs, a, getattr(obs, a)[keep])


def ref_dop(info, use):
    H = np.array([[np.cos(e)*np.sin(a), np.cos(e)*np.cos(a), np.sin(e), 1.0]
                  for (a, e), u in zip(info, use) if u])
    Q = np.linalg.inv(H.T@H)
    d = np.diag(Q)
    return np.sqrt([d.sum(), d[:3].sum(), d[:2].sum(), d[2]]), H


def run(s, kin, rmode, csm=False, nz=None):
    nf = 1 if rmode == 0 else 2
    codes = {c: [x for x in possim.CODE[c]] for c in s['systems']}
    if rmode == 2:
        codes = {c: [x[0], '5Q'] for c, x in codes.items()}
    if rmode == 1:
        codes = {c: [x[0], '7Q' if c == 'E' else x[1]]
                 for c, x in codes.items()}
    sats = s['sats']+s['bad']
    sim = Sim(s['site'], sats, s['week'], s['tow'])
    nav = Nav(nf=nf)
    nav.pmode = 1 if kin else 0
    nav.ephopt = 0
    sim.load(nav)
    nav.ion = np.array(s['ion'])
    t0 = g.gpst2time(s['week'], s['tow'])
    nav.t = t0
    spp = stdpos(nav, pos0=sim.rr+np.array(s['p0']), rmode=rmode,
                 csmooth=csm)
    ic = 6 if kin else 3
    out = []
    base = s['clk0']
    step = 0.0
    for n in range(s['n']):
        t = n*s['dt']*1.0
        dtr = base+s['drift']*t
        if s['jump'] and n == s['n']//2 and n > 0:
            base += s['jsz']
            dtr += s['jsz']
        rr = sim.rr+np.array(s['vel'])*t
        obs, info = mk_obs(s, sim, 0, t, dtr, nf, codes,
                           s['ion'] if rmode == 0 else None, rr)
        # the broadcast model jumps where its cosine series is cut off: the
        # smoothed pseudorange does not follow
        ion = np.array(obs.ion1)
        if n > 0 and csm and rmode == 0:
            step = max(step, np.max(np.abs(ion-ion0)))
        ion0 = ion
        if nz is not None:      # alternating errors of the pseudoranges
            for i in range(len(obs.sat)):
                obs.P[i, :] += nz*(1 if (i*7+s['seed']) % 3 else -1)*(-1)**n
        spoil(obs, sim, s, nav, n == 0)
        with Quiet():
            spp.process(obs)
        ng = len(s['sats'])
        use = [np.rad2deg(e) > 10.0 for _, e in info[:ng]]
        if any(abs(np.rad2deg(e)-10.0) < 0.05 for _, e in info[:ng]):
            return 'edge', out
        dop, H = ref_dop(info[:ng], use)
        out.append(dict(step=4*step if step > 0.1 else 0.0, x=nav.x.copy(), P=nav.P.copy(), rr=rr, dtr=dtr,
                        dop=dop, nsat=sum(use), spp=spp, nav=nav,
                        ic=ic, gdop=spp.dop, ns=spp.nsat, info=info))
    return '', out


def judge(out, s, tol):
    worst = 'ok'
    for n, o in enumerate(out):
        k = max(o['dop'][0], 1.0)
        same('satellites used (epoch %d)' % n, int(o['ns']), int(o['nsat']))
        eq('DOP', o['gdop'], o['dop'], 1e-3, 1e-3)
        if k > 20:
            worst = 'weak'
            continue
        e = np.linalg.norm(o['x'][:3]-o['rr'])
        check(e < (tol(n)+o['step'])*k, 'epoch %d: position off by %.3f m '
              '(GDOP %.1f)', n, e, k)
        eq('epoch %d: receiver clock [m]' % n, o['x'][o['ic']], o['dtr'],
           (tol(n)+o['step'])*k)
    return worst


@facet('static', st.fixed_dictionaries({'s': scene(), 'cs': st.booleans()}),
       60, 800, 'position, clock and DOP of every epoch against the truth')
def static(c):
    s = c['s']
    st_, out = run(s, False, 0, c['cs'])
    if st_:
        return False
    for o in out:
        same('solution status', o['nav'].smode, 1)
    if judge(out, s, lambda n: 0.08) == 'weak':
        return False
    return '%s%s' % (s['systems'], '/jump' if s['jump'] else '')


@facet('kinematic', st.fixed_dictionaries({'s': scene(kin=True),
                                           'cs': st.booleans()}),
       60, 800, 'as static for a moving receiver: position, velocity, clock')
def kinematic(c):
    s = c['s']
    st_, out = run(s, True, 0, c['cs'])
    if st_:
        return False
    tol = {1: [.08, 1., .9, .7, .6, .5, .5, .5],
           5: [.08, 1., .6, .45, .35, .25, .2, .2],
           30: [.08, 1., .6, .3, .15, .1, .08, .08]}[s['dt']]
    w = judge(out, s, lambda n: tol[n])
    o = out[-1]
    k = max(o['dop'][0], 1)
    if w == 'ok':
        eq('velocity', o['x'][3:6], s['vel'], {1: .2, 5: .05, 30: .02}[
            s['dt']]*k)
        eq('clock drift', o['x'][7], s['drift'],
           {1: .2, 5: .05, 30: .02}[s['dt']]*k)
    return '%ds/%s' % (s['dt'], w)


@facet('iflc', st.fixed_dictionaries({'s': scene(iflc=True),
                                      'r': st.sampled_from([1, 2]),
                                      'cs': st.booleans()}),
       60, 800, 'ionosphere-free pseudoranges with arbitrary dispersive delay')
def iflc(c):
    s = c['s']
    st_, out = run(s, False, c['r'], c['cs'])
    if st_:
        return False
    return judge(out, s, lambda n: 0.08) == 'ok'


@facet('smoothing', st.fixed_dictionaries({
    's': scene(iflc=True), 'r': st.sampled_from([0, 1, 2]),
    'n': st.integers(45, 56), 'nz': st.floats(0.8, 2.0)}), 25, 300,
    'errors of the pseudoranges that alternate between epochs are averaged '
    'out with the carrier phases')
def smoothing(c):
    s = dict(c['s'], dt=1, n=c['n'], jump=0)
    if c['r'] == 0:         # no code-carrier divergence
        s['ion'] = [[0.0]*4, [0.0]*4]
    st_, out = run(s, False, c['r'], True, round(c['nz'], 2))
    if st_:
        return False
    o = out[-1]
    k = max(o['dop'][0], 1.0)
    e = np.linalg.norm(o['x'][:3]-o['rr'])
    if k > 12:
        return False
    check(e < (0.01+0.14*c['nz'])*k, 'smoothed position off by %.3f m '
          'after %d epochs (GDOP %.1f, errors %.1f m)', e, c['n'], k, c['nz'])
    return 'rmode %d' % c['r']


@facet('hatch', st.fixed_dictionaries({
    'ns': st.sampled_from([100, 3, 2, 10]),
    'ops': st.lists(st.tuples(
        st.integers(1, 3), st.sampled_from([1, 1, 1, 0, .5, .25, 2, 5]),
        st.sampled_from(['', '', '', '', '', 'slip', 'noP', 'noL', 'big']),
        st.integers(-3000, 3000)), min_size=1, max_size=40)}),
    300, 4000, 'carrier smoothing of every epoch against a textbook Hatch '
    'filter per satellite')
def hatch(c):
    nav = Nav(nf=1)
    nav.pmode = 0
    spp = stdpos(nav, csmooth=True)
    ref = {}
    t = g.gpst2time(2200, 0)
    rho = {1: 2.1e7, 2: 2.3e7, 3: 3.7e7}
    amb = {1: 10.0, 2: -2e5, 3: 5e6}
    n = 0
    for sat, dt, ev, nz in c['ops']:
        t = g.timeadd(t, dt)
        for k in rho:
            rho[k] += 300.0*dt*(k-2)
        if ev == 'slip':
            amb[sat] += 300.0
        P = rho[sat]+nz*1e-3+(50.0 if ev == 'big' else 0)
        L = rho[sat]+amb[sat]
        if ev == 'noP':
            P = 0.0
        if ev == 'noL':
            L = 0.0
        o = Obs()
        o.t = t
        got = spp.csmooth(o, sat, P, L, ns=c['ns'])
        if P == 0.0 or L == 0.0:
            ref.pop(sat, None)
            eq('measurement without carrier', got, P, 0)
            continue
        r = ref.get(sat)
        if r is None or g.timediff(t, r['t']) > 1 or \
                abs(P-(r['Ps']+L-r['L'])) >= 10:
            r = dict(m=1, Ps=P)
        else:
            m = min(r['m']+1, c['ns'])
            r = dict(m=m, Ps=P/m+(m-1)/m*(r['Ps']+L-r['L']))
            n += 1
        r['L'], r['t'] = L, t
        ref[sat] = r
        eq('smoothed pseudorange', got, r['Ps'], 1e-6)
    return n > 0
