"""Encoder of raw navigation messages of all constellations, from the tables
of the interface control documents; works on strings of '0'/'1'.

A kind has PAR (name -> (bits, signedness, scale)), and a function giving the
pages as transmitted.  Bits that carry nothing here are random."""
import random

PI = 3.1415926535898
CUC29 = {n: (16, 's', 2.0**-29) for n in ('cuc', 'cus', 'cic', 'cis')}

ANG31 = {n: (32, 's', 2.0**-31*PI) for n in ('M0', 'OMG0', 'i0', 'omg')}
ECC = {'e': (31, 'u', 2.0**-33), 'sqrtA': (32, 'u', 2.0**-19)}

CNAV = {'dA': (26, 's', 2.0**-9), 'Adot': (25, 's', 2.0**-21),
        'deln': (17, 's', 2.0**-44*PI), 'delnd': (23, 's', 2.0**-57*PI),
        'M0': (33, 's', 2.0**-32*PI), 'e': (32, 'u', 2.0**-34),
        'omg': (33, 's', 2.0**-32*PI), 'OMG0': (33, 's', 2.0**-32*PI),
        'i0': (33, 's', 2.0**-32*PI), 'idot': (15, 's', 2.0**-44*PI),
        'cis': (16, 's', 2.0**-30), 'cic': (16, 's', 2.0**-30),
        'crs': (24, 's', 2.0**-8), 'crc': (24, 's', 2.0**-8),
        'cus': (21, 's', 2.0**-30), 'cuc': (21, 's', 2.0**-30)}

GCNAV = dict(CNAV, **{
    'OMGd': (17, 's', 2.0**-44*PI),
    'af0': (26, 's', 2.0**-35), 'af1': (20, 's', 2.0**-48),
    'af2': (10, 's', 2.0**-60), 'tgd': (13, 's', 2.0**-35),
    'isc0': (13, 's', 2.0**-35), 'isc1': (13, 's', 2.0**-35),
    'isc2': (13, 's', 2.0**-35), 'isc3': (13, 's', 2.0**-35),
    'isc4': (13, 's', 2.0**-35), 'isc5': (13, 's', 2.0**-35),
    'ura_ed': (5, 's', 1), 'ura0': (5, 's', 1), 'ura1': (3, 'u', 1),
    'ura2': (3, 'u', 1), 'isf': (1, 'u', 1)})

BCNAV = dict(CNAV, **{
    'OMGd': (19, 's', 2.0**-44*PI), 'sattype': (2, 'u', 1),
    'af0': (25, 's', 2.0**-34), 'af1': (22, 's', 2.0**-50),
    'af2': (11, 's', 2.0**-66),
    'sisai0': (5, 'u', 1), 'sisai1': (5, 'u', 1), 'sisai2': (3, 'u', 1),
    'sisai3': (3, 'u', 1), 'sismai': (4, 'u', 1), 'svh': (2, 'u', 1)})
BCNAV.update({n: (12, 's', 2.0**-34)
              for n in ('tgd', 'tgd_b', 'isc0', 'isc1')},
             integ=(3, 'u', 1), ib2a=(3, 'u', 1), ib1c=(3, 'u', 1))

D12 = {'deln': (16, 's', 2.0**-43*PI), 'M0': (32, 's', 2.0**-31*PI),
       'OMG0': (32, 's', 2.0**-31*PI), 'i0': (32, 's', 2.0**-31*PI),
       'omg': (32, 's', 2.0**-31*PI), 'e': (31, 'u', 2.0**-33),
       'sqrtA': (32, 'u', 2.0**-19), 'OMGd': (24, 's', 2.0**-43*PI),
       'idot': (14, 's', 2.0**-43*PI), 'cuc': (18, 's', 2.0**-31),
       'cus': (18, 's', 2.0**-31), 'cic': (18, 's', 2.0**-31),
       'cis': (18, 's', 2.0**-31), 'crc': (18, 's', 2.0**-6),
       'crs': (18, 's', 2.0**-6), 'af0': (24, 's', 2.0**-33),
       'af1': (22, 's', 2.0**-50), 'af2': (11, 's', 2.0**-66),
       'tgd': (10, 's', 1e-10), 'tgd_b': (10, 's', 1e-10),
       'svh': (1, 'u', 1), 'iode': (5, 'u', 1), 'iodc': (5, 'u', 1),
       'ura': (4, 'u', 1)}

GAL = dict(CUC29, **ANG31, **ECC, **{
    'deln': (16, 's', 2.0**-43*PI), 'OMGd': (24, 's', 2.0**-43*PI),
    'idot': (14, 's', 2.0**-43*PI), 'crc': (16, 's', 2.0**-5),
    'crs': (16, 's', 2.0**-5), 'af0': (31, 's', 2.0**-34),
    'af1': (21, 's', 2.0**-46), 'af2': (6, 's', 2.0**-59),
    'bgda': (10, 's', 2.0**-32), 'bgdb': (10, 's', 2.0**-32),
    'iodnav': (10, 'u', 1), 'sisa': (8, 'u', 1),
    'hs1': (2, 'u', 1), 'dvs1': (1, 'u', 1), 'hs5': (2, 'u', 1),
    'dvs5': (1, 'u', 1)})

LNAV = dict(CUC29, **ANG31, **ECC, **{
    'deln': (16, 's', 2.0**-43*PI), 'OMGd': (24, 's', 2.0**-43*PI),
    'idot': (14, 's', 2.0**-43*PI), 'crc': (16, 's', 2.0**-5),
    'crs': (16, 's', 2.0**-5), 'af0': (22, 's', 2.0**-31),
    'af1': (16, 's', 2.0**-43), 'af2': (8, 's', 2.0**-55),
    'tgd': (8, 's', 2.0**-31), 'iodc': (10, 'u', 1), 'svh': (6, 'u', 1),
    'ura': (4, 'u', 1), 'code': (2, 'u', 1), 'l2p': (1, 'u', 1)})

IRN = {'M0': (32, 's', 2.0**-31*PI), 'OMG0': (32, 's', 2.0**-31*PI),
       'i0': (32, 's', 2.0**-31*PI), 'omg': (32, 's', 2.0**-31*PI),
       'e': (32, 'u', 2.0**-33), 'sqrtA': (32, 'u', 2.0**-19),
       'deln': (22, 's', 2.0**-41*PI), 'OMGd': (22, 's', 2.0**-41*PI),
       'idot': (14, 's', 2.0**-43*PI), 'crc': (15, 's', 2.0**-4),
       'crs': (15, 's', 2.0**-4), 'cuc': (15, 's', 2.0**-28),
       'cus': (15, 's', 2.0**-28), 'cic': (15, 's', 2.0**-28),
       'cis': (15, 's', 2.0**-28), 'af0': (22, 's', 2.0**-31),
       'af1': (16, 's', 2.0**-43), 'af2': (8, 's', 2.0**-55),
       'tgd': (8, 's', 2.0**-31), 'iode': (8, 'u', 1), 'svh': (2, 'u', 1),
       'ura': (4, 'u', 1)}

IL1 = dict(CNAV, **{
    'Adot': (26, 's', 2.0**-21), 'deln': (19, 's', 2.0**-44*PI),
    'OMGd': (25, 's', 2.0**-44*PI),
    'af0': (29, 's', 2.0**-35), 'af1': (22, 's', 2.0**-50),
    'af2': (15, 's', 2.0**-66), 'tgd': (12, 's', 2.0**-35),
    'isc5': (12, 's', 2.0**-35), 'isc4': (12, 's', 2.0**-35),
    'isf': (1, 'u', 1), 'svh': (1, 'u', 1), 'iode': (4, 'u', 1),
    'ura': (5, 's', 1)})

GLO = {'x': (27, 'm', 2.0**-11*1e3), 'y': (27, 'm', 2.0**-11*1e3),
       'z': (27, 'm', 2.0**-11*1e3), 'vx': (24, 'm', 2.0**-20*1e3),
       'vy': (24, 'm', 2.0**-20*1e3), 'vz': (24, 'm', 2.0**-20*1e3),
       'ax': (5, 'm', 2.0**-30*1e3), 'ay': (5, 'm', 2.0**-30*1e3),
       'az': (5, 'm', 2.0**-30*1e3), 'taun': (22, 'm', 2.0**-30),
       'gamn': (11, 'm', 2.0**-40), 'dtaun': (5, 'm', 2.0**-30),
       'Bn': (3, 'u', 1), 'En': (5, 'u', 1), 'FT': (4, 'u', 1),
       'P': (2, 'u', 1), 'P1': (2, 'u', 1), 'P2': (1, 'u', 1),
       'P3': (1, 'u', 1), 'P4': (1, 'u', 1), 'M': (2, 'u', 1),
       'tau_c': (32, 'm', 2.0**-31), 'tau_gps': (22, 'm', 2.0**-30)}

GLOC = {'x': (40, 'm', 2.0**-20*1e3), 'y': (40, 'm', 2.0**-20*1e3),
        'z': (40, 'm', 2.0**-20*1e3), 'vx': (35, 'm', 2.0**-30*1e3),
        'vy': (35, 'm', 2.0**-30*1e3), 'vz': (35, 'm', 2.0**-30*1e3),
        'ax': (15, 'm', 2.0**-39*1e3), 'ay': (15, 'm', 2.0**-39*1e3),
        'az': (15, 'm', 2.0**-39*1e3), 'dx': (13, 'm', 2.0**-10),
        'dy': (13, 'm', 2.0**-10), 'dz': (13, 'm', 2.0**-10),
        'taun': (32, 'm', 2.0**-38), 'gamn': (19, 'm', 2.0**-48),
        'beta': (15, 'm', 2.0**-57), 'tau_c': (40, 'm', 2.0**-31),
        'dtau_c': (13, 'm', 2.0**-49), 'isc': (18, 'm', 2.0**-38),
        'tau_gps': (30, 'm', 2.0**-38), 'FE': (5, 'm', 1),
        'FT': (5, 'm', 1), 'svh': (1, 'u', 1), 'valid': (1, 'u', 1),
        'P1': (4, 'u', 1), 'P2': (1, 'u', 1), 'KP': (2, 'u', 1),
        'A': (1, 'u', 1), 'M': (3, 'u', 1), 'PS': (6, 'u', 1),
        'EE': (8, 'u', 1), 'ET': (8, 'u', 1), 'RE': (2, 'u', 1),
        'RT': (2, 'u', 1), 'tin': (22, 'u', 2.0**-5),
        'psi': (15, 'u', 2.0**-14*PI), 'sn': (1, 'u', 1),
        'wmax': (17, 'u', 2.0**-26*PI), 'win': (17, 'u', 2.0**-26*PI),
        'dw': (15, 'u', 2.0**-30*PI), 'tau1': (13, 'u', 2.0**-5),
        'tau2': (17, 'u', 2.0**-5)}

SBS = {'x': (30, 's', 0.08), 'y': (30, 's', 0.08), 'z': (25, 's', 0.4),
       'vx': (17, 's', 0.000625), 'vy': (17, 's', 0.000625),
       'vz': (18, 's', 0.004), 'ax': (10, 's', 0.0000125),
       'ay': (10, 's', 0.0000125), 'az': (10, 's', 0.0000625),
       'af0': (12, 's', 2.0**-31), 'af1': (8, 's', 2.0**-40),
       'ura': (4, 'u', 1), 'iodn': (8, 'u', 1)}


def draw(par, seed, ext=0.1):
    """raw integers of all parameters"""
    r = random.Random(seed)
    out = {}
    for n, (b, k, _) in par.items():
        lo, hi = {'u': (0, (1 << b)-1),
                  's': (-(1 << (b-1)), (1 << (b-1))-1),
                  'm': (-((1 << (b-1))-1), (1 << (b-1))-1)}[k]
        if b > 5 and r.random() < ext:
            out[n] = r.choice([lo, hi, 0, -1 if k != 'u' else 1])
        else:
            out[n] = r.randint(lo, hi)
    return out


def bits(v, n, k='u'):
    v = int(v)
    if k == 'm':
        v = ((1 << (n-1)) if v < 0 else 0) | abs(v)
    elif k == 's':
        v &= (1 << n)-1
    assert 0 <= v < (1 << n), (v, n, k)
    return format(v, '0%db' % n)


class Enc:
    def __init__(self, par, raw, seed):
        self.r = random.Random(seed)
        self.B = {n: bits(raw[n], *par[n][:2]) for n in par}

    def rnd(self, n):
        return format(self.r.getrandbits(n), '0%db' % n) if n else ''

    def done(self, s, nbytes):
        assert len(s) <= nbytes*8, len(s)
        s += self.rnd(nbytes*8-len(s))
        return int(s, 2).to_bytes(nbytes, 'big')

    # ------------------------------------------------------------- GPS LNAV
    def lnav(self, m):
        """subframes 1..5; m: wn, tow (start of subframe 1), toe, toc [s]"""
        B, u = self.B, bits
        out = []
        ie = B['iodc'][2:]
        toe, toc = u(m['toe']//16, 16), u(m['toc']//16, 16)
        S = {1: [u(m['wn'] % 1024, 10)+B['code']+B['ura']+B['svh'] +
                 B['iodc'][:2], B['l2p']+self.rnd(23), self.rnd(24),
                 self.rnd(24), self.rnd(16)+B['tgd'], ie+toc,
                 B['af2']+B['af1'], B['af0']+self.rnd(2)],
             2: [ie+B['crs'], B['deln']+B['M0'][:8], B['M0'][8:],
                 B['cuc']+'0'+B['e'][:7], B['e'][7:],
                 B['cus']+B['sqrtA'][:8], B['sqrtA'][8:],
                 toe+self.rnd(1)+self.rnd(5)+self.rnd(2)],
             3: [B['cic']+B['OMG0'][:8], B['OMG0'][8:],
                 B['cis']+B['i0'][:8], B['i0'][8:],
                 B['crc']+B['omg'][:8], B['omg'][8:], B['OMGd'],
                 ie+B['idot']+self.rnd(2)]}
        for sid in (1, 2, 3, 4, 5):
            tc = (m['tow']//6+sid) % 100800
            w = [u(0x8b, 8)+self.rnd(16),
                 u(tc, 17)+self.rnd(2)+u(sid, 3)+self.rnd(2)]
            w += S.get(sid, [self.rnd(24) for _ in range(8)])
            out.append((sid, self.done(''.join(
                self.rnd(2)+x+self.rnd(6) for x in w), 40)))
        return out

    # ------------------------------------------------------------- GPS CNAV
    def cnav(self, m, mts=(10, 11, 30)):
        B, u = self.B, bits
        out = []
        toe = u(m['toe']//300, 11)
        top = u(m['top']//300, 11)
        for k, mt in enumerate(mts):
            s = u(0x8b, 8)+u(m['prn6'], 6)+u(mt, 6) + \
                u((m['tow']//6+2*(k+1)) % 100800, 17)+u(m['alert'], 1)
            if mt == 10:
                s += u(m['wn'], 13)+u(m['svh'], 3)+top+B['ura_ed']+toe + \
                    B['dA']+B['Adot']+B['deln']+B['delnd']+B['M0'] + \
                    '0'+B['e']+B['omg']+B['isf']+u(m['esf'], 1)
            elif mt == 11:
                s += toe+B['OMG0']+B['i0']+B['OMGd']+B['idot']+B['cis'] + \
                    B['cic']+B['crs']+B['crc']+B['cus']+B['cuc']
            elif 30 <= mt <= 37 or mt == 61:
                s += top+B['ura0']+B['ura1']+B['ura2']+toe+B['af0'] + \
                    B['af1']+B['af2']
                if mt in (30, 61):
                    s += B['tgd']+B['isc0']+B['isc1']+B['isc2']+B['isc3'] + \
                        self.rnd(64)+u(m['wn_op'] % 256, 8)
            out.append((mt, self.done(s, 38)))
        return out

    def cnav2(self, m, page=1):
        B, u = self.B, bits
        toe = u(m['toe']//300, 11)
        s = u(m['tow'] % 7200//18, 9)+self.rnd(43)
        s += u(m['wn'], 13)+u(m['tow']//7200, 8)+u(m['top']//300, 11) + \
            u(m['svh'] & 1, 1)+B['ura_ed']+toe
        s += B['dA']+B['Adot']+B['deln']+B['delnd']+B['M0']+'0'+B['e'] + \
            B['omg']+B['OMG0']+B['i0']+B['OMGd']+B['idot']
        s += B['cis']+B['cic']+B['crs']+B['crc']+B['cus']+B['cuc']
        s += B['ura0']+B['ura1']+B['ura2']+B['af0']+B['af1']+B['af2'] + \
            B['tgd']+B['isc5']+B['isc4']+B['isf']+u(m['wn_op'] % 256, 8) + \
            u(m['esf'], 1)
        s += self.rnd(1252-len(s))
        s += u(m['prn8'], 8)+u(page, 6)
        if page in (1, 61):
            s += self.rnd(98)+self.rnd(64)+B['isc0']+B['isc1']+B['isc2'] + \
                B['isc3']
        return [(page, self.done(s, 225))]

    # ------------------------------------------------------------- Galileo
    def inav(self, m, words=(1, 2, 3, 4, 5)):
        B, u = self.B, bits
        iod = B['iodnav']
        W = {1: iod+u(m['toe']//60, 14)+B['M0']+'0'+B['e']+B['sqrtA'],
             2: iod+B['OMG0']+B['i0']+B['omg']+B['idot'],
             3: iod+B['OMGd']+B['deln']+B['cuc']+B['cus']+B['crc'] +
             B['crs']+B['sisa'],
             4: iod+u(m['prn'], 6)+B['cic']+B['cis']+u(m['toc']//60, 14) +
             B['af0']+B['af1']+B['af2'],
             5: self.rnd(41)+B['bgda']+B['bgdb']+B['hs5']+B['hs1'] +
             B['dvs5']+B['dvs1']+u(m['wn'], 12)+u(m['tow'], 20)}
        out = []
        for w in words:
            b = u(w, 6)+W.get(w, '')
            b += self.rnd(128-len(b))
            out.append((w, self.done('00'+b[:112]+self.rnd(6)+'10' +
                                     b[112:], 30)))
        return out

    def fnav(self, m, pages=(1, 2, 3, 4)):
        B, u = self.B, bits
        iod = B['iodnav']
        t = u(m['wn'], 12)+u(m['tow'], 20)
        W = {1: u(m['prn'], 6)+iod+u(m['toc']//60, 14)+B['af0']+B['af1'] +
             B['af2']+B['sisa']+self.rnd(41)+B['bgda']+B['hs5']+t+B['dvs5'],
             2: iod+B['M0']+B['OMGd']+'0'+B['e']+B['sqrtA']+B['OMG0'] +
             B['idot']+t,
             3: iod+B['i0']+B['omg']+B['deln']+B['cuc']+B['cus']+B['crc'] +
             B['crs']+u(m['toe']//60, 14)+t,
             4: iod+B['cic']+B['cis']}
        return [(p, self.done(u(p, 6)+W.get(p, ''), 31)) for p in pages]

    # -------------------------------------------------------------- BeiDou
    def words30(self, s):
        """split contents over words: 26 bits in the first, 22 after"""
        out, i, k = '', 0, 26
        while i < len(s):
            w = s[i:i+k]
            w += self.rnd(k-len(w))
            out += w+self.rnd(4 if k == 26 else 8)
            i += k
            k = 22
        return out

    def d1(self, m):
        B, u = self.B, bits
        toe, toc = u(m['toe']//8, 17), u(m['toc']//8, 17)
        C = {1: B['svh']+B['iodc']+B['ura']+u(m['wn'], 13)+toc+B['tgd'] +
             B['tgd_b']+self.rnd(64)+B['af2']+B['af0']+B['af1']+B['iode'],
             2: B['deln']+B['cuc']+B['M0']+'0'+B['e']+B['cus']+B['crc'] +
             B['crs']+B['sqrtA']+toe[:2],
             3: toe[2:]+B['i0']+B['cic']+B['OMGd']+B['cis']+B['idot'] +
             B['OMG0']+B['omg']+self.rnd(1)}
        out = []
        for k in (1, 2, 3, 4, 5):
            sow = u((m['tow']+6*(k-1)) % 604800, 20)
            s = u(0x712, 11)+self.rnd(4)+u(k, 3)+sow+C.get(k, self.rnd(186))
            out.append((k, self.done(self.words30(s), 40)))
        return out

    def d2(self, m):
        B, u = self.B, bits
        toe, toc = u(m['toe']//8, 17), u(m['toc']//8, 17)
        e = '0'+B['e']
        C = {1: B['svh']+B['iodc']+B['ura']+u(m['wn'], 13)+toc+B['tgd'] +
             B['tgd_b'],
             3: self.rnd(38)+B['af0']+B['af1'][:4],
             4: B['af1'][4:]+B['af2']+B['iode']+B['deln']+B['cuc'][:14],
             5: B['cuc'][14:]+B['M0']+B['cus']+e[:10],
             6: e[10:]+B['sqrtA']+B['cic'][:10],
             7: B['cic'][10:]+B['cis']+toe+B['i0'][:21],
             8: B['i0'][21:]+B['crc']+B['crs']+B['OMGd'][:19],
             9: B['OMGd'][19:]+B['OMG0']+B['omg'][:27],
             10: B['omg'][27:]+B['idot']}
        out = []
        for p in range(1, 11):
            sow = u((m['tow']+3*(p-1)) % 604800, 20)
            s = u(0x712, 11)+self.rnd(4)+u(1, 3)+sow+u(p, 4)
            out.append((p, self.done(self.words30(s+C.get(p, '')), 20)))
        return out

    def eph1(self, m):
        B = self.B
        return bits(m['toe']//300, 11)+B['sattype']+B['dA']+B['Adot'] + \
            B['deln']+B['delnd']+B['M0']+'0'+B['e']+B['omg']

    def eph2(self):
        B = self.B
        return B['OMG0']+B['i0']+B['OMGd']+B['idot']+B['cis']+B['cic'] + \
            B['crs']+B['crc']+B['cus']+B['cuc']

    def bclk(self, m):
        B = self.B
        return bits(m['toc']//300, 11)+B['af0']+B['af1']+B['af2']

    def sisai_oc(self, m):
        B = self.B
        return bits(m['top']//300, 11)+B['sisai1']+B['sisai2']+B['sisai3']

    def b1c(self, m, page=1):
        B, u = self.B, bits
        s = u(m['wn'], 13)+u(m['tow']//3600, 8)+u(m['iodc'], 10) + \
            u(m['iodc'] & 255, 8)+self.eph1(m)+self.eph2()+self.bclk(m) + \
            B['tgd_b']+B['isc0']+B['tgd']+self.rnd(7+24+8)
        s3 = u(page, 6)+B['svh']+B['integ']+B['sismai']
        if page in (1, 3):
            s3 += B['sisai0']
        if page != 3:
            s3 += self.sisai_oc(m)
        s3 += self.rnd(264-len(s3))
        return [(page, self.done(s+s3+u(m['tow'] % 3600//18, 8), 110))]

    def b2a(self, m, mts=(10, 11, 30, 40)):
        B, u = self.B, bits
        C = {10: u(m['wn'], 13)+B['ib2a']+B['sismai']+B['ib1c'] +
             u(m['iodc'] & 255, 8)+self.eph1(m),
             11: B['svh']+self.rnd(10)+self.eph2(),
             30: self.rnd(12)+self.bclk(m)+u(m['iodc'], 10)+B['tgd_b'] +
             B['isc1']+self.rnd(74)+B['tgd'],
             34: self.rnd(12)+self.sisai_oc(m),
             40: self.rnd(12)+B['sisai0']+self.sisai_oc(m)}
        return [(t, self.done(u(m['prn'], 6)+u(t, 6)+u(
            (m['tow']//3+k) % 201600, 18)+C.get(t, ''), 36))
            for k, t in enumerate(mts)]

    def b2b(self, m, mts=(10, 30)):
        B, u = self.B, bits
        C = {10: self.rnd(4)+self.eph1(m)+self.eph2()+B['integ'] +
             B['sismai'],
             30: u(m['wn'], 13)+self.rnd(4)+self.bclk(m)+B['tgd'] +
             self.rnd(74+97+138)+self.sisai_oc(m)+B['sisai0']+B['svh'],
             40: ''}
        return [(t, self.done(u(m['prn'], 6)+self.rnd(6)+u(t, 6)+u(
            (m['tow']+k) % 604800, 20)+C.get(t, ''), 63))
            for k, t in enumerate(mts)]

    # --------------------------------------------------------------- NavIC
    def irn(self, m):
        B, u = self.B, bits
        toe, toc = u(m['toe']//16, 16), u(m['toc']//16, 16)
        C = {0: u(m['wn'] % 1024, 10)+B['af0']+B['af1']+B['af2']+B['ura'] +
             toc+B['tgd']+B['deln']+B['iode']+self.rnd(10)+B['svh'] +
             B['cuc']+B['cus']+B['cic']+B['cis']+B['crc']+B['crs'] +
             B['idot'],
             1: B['M0']+toe+B['e']+B['sqrtA']+B['OMG0']+B['omg'] +
             B['OMGd']+B['i0']}
        return [(k, self.done(u(0x8b, 8)+u((m['tow']//12+k) % 50400, 17) +
                              self.rnd(2)+u(k, 2)+self.rnd(1) +
                              C.get(k, ''), 40)) for k in range(4)]

    def irnl1(self, m, msgid=0):
        B, u = self.B, bits
        s = u(m['tow'] % 7200//18, 9)+self.rnd(43)
        s += u(m['wn'], 13)+u(m['tow']//7200, 8)+self.rnd(1)
        s += B['svh']+B['iode']+B['ura']+u(m['toe']//300, 11)+B['dA'] + \
            B['Adot']+B['deln']+B['delnd']+B['M0']
        s += '0'+B['e']+B['omg']+B['OMG0']+B['OMGd']+B['i0']+B['idot'] + \
            B['cis']+B['cic']+B['crs']+B['crc']+B['cus']+B['cuc']
        s += B['af0']+B['af1']+B['af2']+B['tgd']+B['isc5']+B['isc4'] + \
            B['isf']+self.rnd(3)+u(m['prn'], 6)
        s += self.rnd(1252-len(s))+u(msgid, 6)+self.rnd(1)
        return [(msgid, self.done(s, 225))]

    # ------------------------------------------------------------- GLONASS
    def glo(self, m):
        """strings 1..15; m: tk (h,m,s/30), tb, NT, slot"""
        B, u = self.B, bits
        C = {1: self.rnd(2)+B['P1']+u(m['tk'][0], 5)+u(m['tk'][1], 6) +
             u(m['tk'][2], 1)+B['vx']+B['ax']+B['x'],
             2: B['Bn']+B['P2']+u(m['tb'], 7)+self.rnd(5)+B['vy']+B['ay'] +
             B['y'],
             3: B['P3']+B['gamn']+self.rnd(1)+B['P']+self.rnd(1)+B['vz'] +
             B['az']+B['z'],
             4: B['taun']+B['dtaun']+B['En']+self.rnd(14)+B['P4']+B['FT'] +
             self.rnd(3)+u(m['NT'], 11)+u(m['slot'], 5)+B['M'],
             5: u(m['NT'], 11)+B['tau_c']+self.rnd(1)+u(m['N4'], 5) +
             B['tau_gps']+self.rnd(1)}
        return [(k, self.done('0'+u(k, 4)+C.get(k, ''), 12))
                for k in range(1, 16)]

    def gloc(self, m, l3, sids=(10, 11, 12)):
        B, u = self.B, bits
        out = []
        for k, sid in enumerate(sids):
            ts = m['ts']+k
            if l3:
                s = u(0x494e, 20)+u(sid, 6)+u(ts, 15)+u(m['slot'], 6) + \
                    B['svh']+B['valid']+B['P1']+B['P2']+B['KP']+B['A']
            else:
                s = u(0x5f1, 12)+u(sid, 6)+u(m['slot'], 6)+B['svh'] + \
                    B['valid']+B['P1']+B['P2']+B['KP']+B['A']+u(ts, 16)
            if sid == 10:
                s += u(m['N4'], 5)+u(m['NT'], 11)+B['M']+B['PS'] + \
                    u(m['tb'], 10)+B['EE']+B['ET']+B['RE']+B['RT'] + \
                    B['FE']+B['FT']+B['taun']+B['gamn']+B['beta'] + \
                    B['tau_c']+B['dtau_c']
            elif sid == 11:
                s += B['x']+B['y']+B['z']+B['vx']
                if l3:
                    s += B['vy']
            elif sid == 12 and l3:
                s += B['vz']+B['ax']+B['ay']+B['az']+B['dx']+B['dy'] + \
                    B['dz']+B['isc']+B['tau_gps']
            elif sid == 16:
                s += B['tin']+B['psi']+B['sn']+B['wmax']+B['win']+B['dw'] + \
                    B['tau1']+B['tau2']
            out.append((sid, self.done(s, 38)))
        return out

    def sbs(self, m, pre=0x53):
        B, u = self.B, bits
        s = u(pre, 8)+u(9, 6)+B['iodn']+u(m['t0']//16, 13)+B['ura']+B['x'] + \
            B['y']+B['z']+B['vx']+B['vy']+B['vz']+B['ax']+B['ay']+B['az'] + \
            B['af0']+B['af1']
        return [(9, self.done(s, 32))]
