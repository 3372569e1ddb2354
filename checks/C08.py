"""C08 precise orbits and clocks (SP3, Clock-RINEX)"""
import datetime
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from vlib.core import facet, check, eq, same, viol
from vlib import gen, orb
from cssrlib import gnss as g
from cssrlib.gnss import uGNSS, Nav, rCST
from cssrlib.peph import peph, peph_t, NMAX
from cssrlib.rinex import rnxdec, pclk_t

T0 = datetime.datetime(2000, 1, 1)
SCALE = 10
OFS = {'J': 192, 'S': 100}
SATS = [(c, p) for c in 'GECRJI' for p in range(gen.PRN[c][0],
                                                gen.PRN[c][1]+1)]
SATS = [s for s in SATS if not (s[0] == 'J' and s[1] > 202)]


def sid(c, p):
    return '%s%02d' % (c, p-OFS.get(c, 0))


def sno(c, p):
    return int(g.prn2sat(gen.SYS[c], p))


def gt(d):
    return g.epoch2time([d.year, d.month, d.day, d.hour, d.minute,
                         d.second+d.microsecond*1e-6])


def with_file(txt, fn):
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'f.txt')
    with open(p, 'w', encoding='latin-1') as f:
        f.write(txt)
    try:
        return fn(p)
    finally:
        os.unlink(p)
        os.rmdir(d)


@st.composite
def sp3(draw):
    n = draw(st.one_of(st.integers(1, 6), st.sampled_from([16, 17, 18, 34,
                                                           85, 90])))
    sats = draw(st.permutations(SATS))[:n]
    vel = draw(st.booleans())
    t = draw(st.integers(0, 86400*365*30))
    step = draw(st.sampled_from([300, 900, 30]))
    eps = []
    rnd = draw(st.randoms(use_true_random=False))
    for k in range(draw(st.integers(1, 3))):
        rows = []
        for _ in sats:
            bad = rnd.random() < 0.12
            x = [0, 0, 0] if bad else [rnd.randint(-42*10**9, 42*10**9)
                                       for _ in range(3)]
            c = None if bad or rnd.random() < 0.1 else \
                rnd.randint(-10**9, 10**9)
            sd = [rnd.choice([None, rnd.randint(1, 60)]) for _ in range(3)]
            sd.append(rnd.choice([None, rnd.randint(1, 200)]))
            v = None if bad else [rnd.randint(-40*10**9, 40*10**9)
                                  for _ in range(3)]+[rnd.choice(
                                      [None, rnd.randint(-10**7, 10**7)])]
            fl = rnd.choice(['', '', 'o', 'c', 'oc'])
            rows.append(dict(x=x, c=c, sd=sd, v=v, fl=fl,
                             cut=rnd.random() < 0.3, bad=bad))
        eps.append(dict(t=t+k*step, rows=rows))
    return dict(sats=[list(s) for s in sats], vel=vel, eps=eps,
                ver=draw(st.sampled_from('cd')),
                opt=draw(st.sampled_from([0, 0, 0, 1, 2])),
                ep=draw(st.booleans()), com=draw(st.integers(0, 4)),
                base=[draw(st.sampled_from([1.25, 1.5, 0.0])),
                      draw(st.sampled_from([1.025, 1.01, 0.0]))])


def sp3_text(c):
    d = T0+datetime.timedelta(seconds=c['eps'][0]['t'])
    o = '#%s%s%4d %2d %2d %2d %2d %11.8f %7d ORBIT IGS14 HLM  IGS\n' % (
        c['ver'], 'V' if c['vel'] else 'P', d.year, d.month, d.day, d.hour,
        d.minute, d.second, len(c['eps']))
    w = (d-datetime.datetime(1980, 1, 6)).days
    o += '## %4d %15.8f %14.8f %5d %15.13f\n' % (
        w//7, w % 7*86400, 900.0, 44244+w, 0)
    ids = [sid(*s) for s in c['sats']]
    n = len(ids)
    nl = max(5, -(-n//17))
    for i in range(nl):
        l = ids[i*17:i*17+17]
        o += '+ %4s   %s\n' % (n if i == 0 else '',
                               ''.join(l+['  0']*(17-len(l))))
    for i in range(nl):
        o += '++       '+''.join(['  0']*17)+'\n'
    o += '%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n'
    o += '%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n'
    o += '%%f %10.7f %12.9f  0.00000000000  0.000000000000000\n' % tuple(
        c['base'])
    o += '%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n'
    o += '%i    0    0    0    0      0      0      0      0         0\n'*2
    o += '/* COMMENT\n'*c['com']
    for e in c['eps']:
        d = T0+datetime.timedelta(seconds=e['t'])
        o += '*  %4d %2d %2d %2d %2d %11.8f\n' % (
            d.year, d.month, d.day, d.hour, d.minute, d.second)
        for i, r in zip(ids, e['rows']):
            l = 'P'+i+''.join('%14.6f' % (x*1e-6) for x in r['x'])
            l += '%14.6f' % (999999.999999 if r['c'] is None else
                             r['c']*1e-6)
            sd = r['sd']
            l += ''.join(' %2s' % ('' if s is None else s) for s in sd[:3])
            l += ' %3s' % ('' if sd[3] is None else sd[3])
            l += '  '+('P' if 'c' in r['fl'] else ' ')+'   ' + \
                ('P' if 'o' in r['fl'] else ' ')
            if r['cut'] and not r['fl']:
                l = l.rstrip()
            o += l+'\n'
            if c['ep']:
                o += 'EP '+' 55'*3+'\n'
            if c['vel']:
                v = r['v'] or [None]*4
                o += 'V'+i+''.join('%14.6f' % (
                    999999.999999 if x is None else x*1e-6)
                    for x in v)+'\n'
                if c['ep']:
                    o += 'EV '+' 22'*3+'\n'
    return o+'EOF\n'


@facet('sp3 reader', sp3, quick=400, thorough=6000,
       rule='at least one valid record')
def sp3_reader(c):
    nav = Nav()
    nav.ne = 0
    with_file(sp3_text(c), lambda p: peph().parse_sp3(p, nav, c['opt']))
    opt = c['opt']
    keep = []
    for e in c['eps']:
        rows = []
        anyv = False
        for r in e['rows']:
            po, pc = 'o' in r['fl'], 'c' in r['fl']
            # (opt 1) observed only, (opt 2) predicted only
            uo = not (opt == 1 and po) and not (opt == 2 and not po)
            uc = not (opt == 1 and pc) and not (opt == 2 and not pc)
            p = [x*1e-6*1e3 if uo else np.nan for x in r['x']]
            p.append(r['c']*1e-12 if r['c'] is not None and uc else np.nan)
            rows.append((p, r, uo, uc))
            anyv = anyv or uo or (uc and r['c'] is not None)
        if anyv:
            keep.append((e, rows))
    same('epochs', (len(nav.peph), nav.ne), (len(keep), len(keep)))
    n = 0
    for (e, rows), p in zip(keep, nav.peph):
        eq('epoch', g.timediff(p.time, gt(T0+datetime.timedelta(
            seconds=e['t']))), 0, atol=1e-6)
        used = np.zeros(int(uGNSS.MAXSAT), dtype=bool)
        for s, (x, r, uo, uc) in zip(c['sats'], rows):
            i = sno(*s)-1
            used[i] = True
            eq(sid(*s)+' position', p.pos[i], x, rtol=1e-13, atol=1e-18)
            n += uo
            # a line cut before column 74 carries no deviations
            full = not (r['cut'] and not r['fl'] and r['sd'][3] is None)
            if full:
                sd = [0.0 if v is None or b == 0 else b**v*k for v, b, k in
                      zip(r['sd'], [c['base'][0]]*3+[c['base'][1]],
                          [1e-3]*3+[1e-12])]
                eq(sid(*s)+' std', p.std[i], sd, rtol=1e-9)
            if c['vel'] and opt == 0 and r['v'] is not None:
                v = [np.nan if q is None else q*1e-6*k for q, k in
                     zip(r['v'], [0.1]*3+[1e-10])]
                eq(sid(*s)+' velocity', p.vel[i], v, rtol=1e-12, atol=1e-20)
        check(np.isnan(p.pos[~used]).all(), 'position of a satellite that is '
              'not in the file')
    return n > 0


@facet('sp3 writer', sp3, quick=200, thorough=3000,
       rule='library output read back, at least one valid record')
def sp3_writer(c):
    nav = Nav()
    nav.ne = 0
    n = 0
    sats = sorted(sno(*s) for s in c['sats'])
    for e in c['eps']:
        p = peph_t(gt(T0+datetime.timedelta(seconds=e['t'])))
        for s, r in zip(c['sats'], e['rows']):
            i = sno(*s)-1
            if not r['bad']:
                p.pos[i, 0:3] = np.array(r['x'])*1e-3
                n += 1
            if r['c'] is not None:
                p.pos[i, 3] = r['c']*1e-12
        nav.peph.append(p)
        nav.ne += 1
    nv2 = Nav()
    nv2.ne = 0

    def io(p):
        peph().write_sp3(p, nav, sats)
        with open(p) as f:
            lines = f.read().splitlines()
        d0 = T0+datetime.timedelta(seconds=c['eps'][0]['t'])
        dd = d0-datetime.datetime(1858, 11, 17)
        same('number of epochs', int(lines[0][32:39]), len(c['eps']))
        same('modified julian day', int(lines[1][39:44]), dd.days)
        eq('day fraction', float(lines[1][45:60]), dd.seconds/86400, 1e-12)
        eq('seconds of week', float(lines[1][8:23]),
           (d0-datetime.datetime(1980, 1, 6)).total_seconds() % 604800, 1e-7)
        if len(c['eps']) > 1:
            eq('interval', float(lines[1][24:38]),
               c['eps'][1]['t']-c['eps'][0]['t'], 1e-7)
        same('satellites', int(lines[2][3:6]), len(sats))
        check(all(len(x) <= 80 for x in lines), 'line beyond column 80')
        lst = [x for x in lines if x.startswith('+ ')]
        check(all(len(x) <= 60 for x in lst), 'satellite list beyond column 60')
        lst = ''.join(x[9:60].rstrip() for x in lst)
        same('satellites of the list', [
            x for x in (lst[i:i+3] for i in range(0, len(lst), 3))
            if x != '  0'], [g.sat2id(s) for s in sats])
        d = peph()
        d.parse_sp3(p, nv2)
        same('satellite list', [int(x) for x in d.sat], sats)
        eq('week', d.week0, g.time2gpst(nav.peph[0].time)[0])
        eq('header time', g.timediff(d.t0, nav.peph[0].time), 0, atol=1e-6)
    with_file('', io)
    same('epochs', len(nv2.peph), len(nav.peph))
    for a, b in zip(nav.peph, nv2.peph):
        eq('time', g.timediff(b.time, a.time), 0, atol=1e-6)
        x = a.pos.copy()
        for s in sats:
            if np.isnan(x[s-1, 0:3]).any():
                x[s-1, 0:3] = 0.0
        eq('positions', b.pos[:, 0:3], x[:, 0:3], atol=5.1e-4)
        eq('clocks', b.pos[:, 3], x[:, 3], atol=5.1e-13)
    return n > 0


# ------------------------------------------------------------- clocks

@st.composite
def clk(draw):
    n = draw(st.integers(1, 5))
    sats = draw(st.permutations(SATS))[:n]
    t = draw(st.integers(0, 86400*365*25))
    step = draw(st.sampled_from([30, 300, 5]))
    eps = []
    for k in range(draw(st.integers(1, 4))):
        rows = []
        for s in sats:
            if draw(st.integers(0, 4)) == 0:
                continue
            rows.append([list(s), draw(st.integers(-10**12, 10**12)),
                         draw(st.sampled_from([None, 1, 77, 9999]))])
        eps.append([t+k*step, rows, draw(st.booleans())])
    return dict(ver=draw(st.sampled_from([3.00, 3.01, 3.02, 3.04])), eps=eps)


def clk_text(c):
    new = c['ver'] >= 3.04
    if new:
        o = '%4.2f                 CLOCK DATA           GPS' % c['ver']
        o = '%-65sRINEX VERSION / TYPE\n' % o
        o += '%-65sEND OF HEADER\n' % ''
    else:
        o = '%9.2f           %-20s%-20s%-20s\n' % (
            c['ver'], 'C', 'M', 'RINEX VERSION / TYPE')
        o += '%-60s%-20s\n' % ('', 'END OF HEADER')
    for t, rows, ar in c['eps']:
        d = T0+datetime.timedelta(seconds=t)
        e = '%4d %2s %2s %2s %2s%10.6f' % (
            d.year, '%02d' % d.month, '%02d' % d.day, '%02d' % d.hour,
            '%02d' % d.minute, d.second)
        nm = '%-9s' if new else '%-4s'
        L = []
        if ar:
            L.append('AR %s %s  1   %19.12E\n' % (nm % 'BRUX', e, 1e-9))
        for s, v, sd in rows:
            l = 'AS %s %s%3d   %19.12E' % (nm % sid(*s), e,
                                           1 if sd is None else 2, v*1e-15)
            if sd is not None:
                l += ' %19.12E' % (sd*1e-14)
                if new:
                    l = l[:64]+' '+l[64:].lstrip() if False else l
            L.append(l+'\n')
        o += ''.join(L)
    return o


@facet('clock reader', st.tuples(clk(), clk(), st.booleans()), quick=250,
       thorough=4000, rule='at least two epochs')
def clock_reader(case):
    a, b, two = case
    nav = Nav()
    seq = [a, b] if two else [a]
    for c in seq:
        with_file(clk_text(c), lambda p: rnxdec().decode_clk(p, nav))
    eps = [e for e in seq[-1]['eps'] if e[1]]
    same('epochs', (len(nav.pclk), nav.nc), (len(eps), len(eps)))
    for (t, rows, _), p in zip(eps, nav.pclk):
        eq('epoch', g.timediff(p.time, gt(T0+datetime.timedelta(seconds=t))),
           0, atol=1e-6)
        x = np.zeros(int(uGNSS.MAXSAT))
        sdv = np.zeros(int(uGNSS.MAXSAT))
        for s, v, sd in rows:
            x[sno(*s)-1] = float('%.12E' % (v*1e-15))
            sdv[sno(*s)-1] = 0 if sd is None else float('%.12E' % (sd*1e-14))
        eq('clocks', p.clk, x)
        eq('std', p.std, sdv)
    return len(eps) > 1


# -------------------------------------------------------- interpolation

@st.composite
def arc(draw):
    k = dict(a=draw(st.integers(25500, 30000))*1e3,
             e=draw(st.integers(0, 10))*1e-3,
             i=draw(st.integers(0, 120)), O=draw(gen.angle()),
             w=draw(gen.angle()), M=draw(gen.angle()))
    step = draw(st.sampled_from([300, 900]))
    n = draw(st.integers(NMAX+1, 20))
    q = draw(st.one_of(st.integers(0, (n-1)*1000).map(lambda v: v*1e-3),
                       st.integers(0, n-1).map(float)))
    return dict(k=k, step=step, n=n, q=round(q*step, 3)/step,
                sat=draw(st.integers(0, 100)),
                c0=draw(st.integers(-10**6, 10**6))*1e-9+3.7e-10,
                c1=draw(st.integers(-1000, 1000))*1e-14,
                t=draw(st.integers(0, 20*365*86400)),
                use=draw(st.booleans()),
                cs=draw(st.sampled_from([None, 30, 300, 60])),
                hole=draw(st.sampled_from([None, None, 'pos', 'nan', 'clk'])),
                hk=draw(st.integers(0, 19)),
                noise=draw(st.booleans()),
                sd=draw(st.sampled_from([0.0, 1e-10, 3e-11])))


MU = 3.986004418e14


def truth(k, t):
    """position and velocity in the Earth-fixed frame"""
    n = np.sqrt(MU/k['a']**3)
    M = k['M']+n*t
    E = M
    for _ in range(30):
        E = E-(E-k['e']*np.sin(E)-M)/(1-k['e']*np.cos(E))
    a, e = k['a'], k['e']
    x = np.array([a*(np.cos(E)-e), a*np.sqrt(1-e*e)*np.sin(E), 0])
    Ed = n/(1-e*np.cos(E))
    v = np.array([-a*np.sin(E)*Ed, a*np.sqrt(1-e*e)*np.cos(E)*Ed, 0])
    R = orb.rz(-k['O'])@orb.rx(-np.deg2rad(k['i']))@orb.rz(-k['w'])
    x, v = R@x, R@v
    th = rCST.OMGE*t
    S = orb.rz(th)
    x, v = S@x, S@v
    return x, v-np.cross([0, 0, rCST.OMGE], x)


@facet('interpolation', arc, quick=400, thorough=8000,
       rule='orbit returned for an epoch between nodes')
def interpolation(c):
    nav = Nav()
    nav.ne = nav.nc = 0
    nav.pclk = []
    sat = 1+c['sat']
    t0 = gt(T0+datetime.timedelta(seconds=c['t']))
    ck = []
    # clock nodes: those of the orbits, or of a file with its own interval
    cs, cn, cq, ct = c['step'], c['n'], c['q'], 0.0
    off = 0.0
    if c['use'] and c['cs'] is not None:
        cs, off = c['cs'], 3e-7
        k0 = int(c['q']*c['step']//cs)-c['hk'] % 6
        k0 = max(0, min(k0, (c['n']-1)*c['step']//cs-12))
        ct, cn, cq = k0*cs, 13, c['q']*c['step']/cs-k0
    for j in range(c['n']):
        p = peph_t(g.timeadd(t0, j*c['step']))
        p.pos[sat-1, 0:3] = truth(c['k'], j*c['step'])[0]
        y = c['c0']+c['c1']*j*c['step']
        if c['noise']:
            y += ((j*7919) % 13-6)*1e-9
        ck.append(y)
        p.pos[sat-1, 3] = y
        if off and y:
            p.pos[sat-1, 3] += off
        p.std[sat-1, :3] = 0.02
        p.std[sat-1, 3] = c['sd']
        nav.peph.append(p)
        nav.ne += 1
    if c['use']:
        if off:
            ck = [c['c0']+c['c1']*(ct+j*cs)+(
                ((j*7919) % 13-6)*1e-9 if c['noise'] else 0)
                for j in range(cn)]
        for j in range(cn):
            q = pclk_t(g.timeadd(t0, ct+j*cs))
            q.clk[sat-1] = ck[j]
            q.std[sat-1] = c['sd']
            nav.pclk.append(q)
            nav.nc += 1
    h = c['hk'] % c['n']
    if c['hole'] == 'pos':
        nav.peph[h].pos[sat-1, 0:3] = 0.0
    elif c['hole'] == 'nan':
        nav.peph[h].pos[sat-1, :] = np.nan
    elif c['hole'] == 'clk':
        if c['use']:
            hc = c['hk'] % cn
            nav.pclk[hc].clk[sat-1] = 0.0
            if not off:
                nav.peph[h].pos[sat-1, 3] = np.nan
        else:
            hc = h
            nav.peph[h].pos[sat-1, 3] = np.nan
    dt = c['q']*c['step']
    t = g.timeadd(t0, dt)
    rs, dts, var = peph().peph2pos(t, sat, nav, True)
    # bracketing nodes
    lo = max(int(np.ceil(c['q']-1e-9))-1, 0)
    br = (lo, lo+1)
    m = sorted(range(c['n']), key=lambda j: abs(j-c['q']))
    if c['hole'] in ('pos', 'nan'):
        # a window of eleven nodes around the epoch is needed
        if h in m[:4]:
            check(rs is None, 'orbit interpolated across a missing node')
            return False
        if rs is None:
            # the hole is within reach of the window
            check(abs(h-c['q']) <= NMAX+1.01, 'orbit refused without need')
            return False
    clo = max(int(np.ceil(cq-1e-9))-1, 0)
    cbr = (clo, clo+1)
    if c['hole'] == 'clk' and hc in cbr:
        near = abs(cq-round(cq)) < 1e-6
        bad = rs is None or np.isnan(dts[0])
        if not near:
            check(bad, 'clock %r interpolated across a missing node', dts)
        if bad:
            return False
    if c['hole'] == 'clk' and hc == clo+2 and cq > clo+1-1e-3/cs*1.01 and \
            rs is None:
        return False     # the rate is taken from the following interval
    check(rs is not None, 'no orbit at %g of %d nodes', c['q'], c['n'])
    x, v = truth(c['k'], dt)
    edge = min(c['q'], c['n']-1-c['q'])
    tol = 1e-4 if c['step'] == 300 else \
        (0.05 if edge >= 3 else 0.6 if edge >= 1 else 3.0)
    if abs(c['q']-round(c['q'])) < 1e-9:
        tol = 1e-5
    eq('position', rs[0:3], x, atol=tol)
    eq('velocity', rs[3:6], v, atol=3e-3 if c['step'] == 300 else
       (5e-3 if edge >= 2 else 3e-2))
    f = cq-clo
    y = ck[cbr[0]]*(1-f)+ck[cbr[1]]*f
    rel = -2.0*(x@v)/rCST.CLIGHT**2
    if y != 0.0:
        eq('clock', dts[0], y+rel, atol=1e-12 if c['step'] == 300 else 2e-11)
        if c['use'] and not c['noise'] and \
                min(cq, cn-1-cq)*cs > 2e-3:
            eq('clock drift', dts[1], c['c1'], atol=2e-12)
    # standard deviation: node plus ageing of the clock
    sd = 0.02*np.sqrt(3)
    ex = c['sd']*rCST.CLIGHT+1e-3*cs*min(abs(cq-cbr[0]), abs(cq-cbr[1]))
    if y != 0.0 and c['hole'] is None:
        eq('variance', var, sd**2+ex**2, rtol=1e-6, atol=1e-9)
    same('unchanged', nav.ne, c['n'])
    return abs(c['q']-round(c['q'])) > 1e-9


@facet('validity', st.tuples(st.integers(2, 14), st.integers(-4000, 20000),
                             st.booleans(), st.sampled_from(
                                 [None, None, 0, 1, -1, -2]),
                             st.sampled_from([0, 2e-11]), st.booleans()),
       quick=250, thorough=3000, rule='a query outside of the arc')
def validity(case):
    n, dt, use, z, sd, near = case
    if near and dt > 0:       # beyond the last node
        dt = (n-1)*900+dt % 900
    nav = Nav()
    nav.ne = nav.nc = 0
    nav.pclk = []
    t0 = g.epoch2time([2021, 3, 19, 0, 0, 0])
    k = dict(a=26560e3, e=0.0, i=55, O=0.3, w=0, M=1.0)
    for j in range(n):
        p = peph_t(g.timeadd(t0, j*900))
        p.pos[4, 0:3] = truth(k, j*900)[0]
        p.pos[4, 3] = 1e-5+j*1e-7
        p.std[4, :] = [.02, .03, .06, sd]
        nav.peph.append(p)
        nav.ne += 1
        if use:
            q = pclk_t(g.timeadd(t0, j*900))
            q.clk[4] = 1e-5+j*1e-7 if z is None or j != z % n else 0.0
            q.std[4] = sd
            nav.pclk.append(q)
            nav.nc += 1
    end = (n-1)*900
    rs, dts, var = peph().peph2pos(g.timeadd(t0, dt), 5, nav, True)
    if n < NMAX+1 or dt < -900 or dt > end+900:
        check(rs is None, 'orbit %g s outside of an arc of %d nodes',
              max(-dt, dt-end), n)
    elif dt < end+899:
        gone = False
        if use and z is not None:
            lo = max(min(-(-dt//900)-1, n-2), 0)
            if dt <= 0:
                gone = z % n == 0
            elif dt >= end:
                gone = z % n == n-1
            else:
                gone = z % n in (lo, lo+1)
            if dt % 900 == 0:
                return False        # the rate looks at the next interval
        if gone:
            check(rs is None, 'clock taken from a node without clock')
            return True
        check(rs is not None, 'no orbit inside the validity')
        # accuracy of the first node used, ageing outside of the arc
        a = max(-dt, dt-end, 0)
        if 0 < dt < end:
            b = min(dt % 900, 900-dt % 900)
        else:
            b = a
        eq('variance', var, (0.07+5e-7*a*a/2)**2+(sd*rCST.CLIGHT+1e-3*b)**2,
           rtol=1e-6)
        # no clock is extrapolated beyond the first and last value
        y = 1e-5+1e-7*min(max(dt/900, 0), n-1)
        rel = -2.0*(rs[0:3]@rs[3:6])/rCST.CLIGHT**2
        eq('clock', dts[0], y+rel, atol=1e-13)
    # another satellite has no orbit at all
    rs, _, _ = peph().peph2pos(g.timeadd(t0, dt), 6, nav)
    check(rs is None, 'orbit of a satellite without data')
    return dt < 0 or dt > end
