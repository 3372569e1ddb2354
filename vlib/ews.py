"""tables and encoders for disaster messages (DC report, CAMF)"""
import contextlib
import json
import os
import shutil
import tempfile
from vlib.bits import Bits

BIG = [1+i*7919 for i in range(400)]
JMA = {'6': range(512), '7': range(1024), '8': range(16), '9': range(16),
       '10': range(80), '11': range(8), '15': range(8), '16': range(64),
       '19': range(16), '22': range(16), '23': range(16), '24': range(1024),
       '31': range(128), '32': range(4096), '33': BIG, '36': range(8),
       '40': range(32), '41': [x for x in BIG if x < 2**19], '44': range(16),
       '45': [x*99991 for x in BIG], '48': range(16), '49': range(16),
       '52': range(32), '53': range(2**14)}
HAZ = list(range(1, 27))+[30]+list(range(32, 111))+[112, 113]
CAMF = {'hazard': HAZ, 'list_a': range(32), 'list_b': range(32), 'list_c': range(32),
        'region': range(512), 'd14': range(32), 'd35': range(64)}
CITY = [(10000*p+100*k+k, p, k) for p in range(1, 6) for k in range(1, 9)]
CITY = [(1000*p+10*k, p, k) for _, p, k in CITY]


def text(t, k):
    return 'T%s-%d' % (t, k)


def city(p, k):
    """ken-name and up to three parts"""
    return ['Ken%d' % p, 'Gun%d' % k if k & 1 else '',
            'Shi%d' % k if k & 2 else '', 'Ku%d' % k if k & 4 else '']


@contextlib.contextmanager
def tables():
    """directory with the tables which the decoders read, as current
    directory/../data/ewss"""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix='verif-ews')
    try:
        j = os.path.join(d, 'data', 'ewss', 'jma')
        c = os.path.join(d, 'data', 'ewss', 'camf')
        os.makedirs(j)
        os.makedirs(c)
        os.makedirs(os.path.join(d, 'run'))
        for n, keys in JMA.items():
            with open(os.path.join(j, 'tab4_1_2_%s.txt' % n), 'w') as f:
                for k in keys:
                    f.write('%d\t%s\n' % (k, text(n, k)))
        for n, keys in CAMF.items():
            with open(os.path.join(c, n+'.txt'), 'w') as f:
                for k in keys:
                    f.write('%d\t%s\n' % (k, text(n, k)))
        with open(os.path.join(c, 'jisx0401-en.json'), 'w') as f:
            json.dump({'%02d' % k: 'Pref%d' % k for k in range(1, 48)}, f)
        with open(os.path.join(c, '000323625.csv'), 'w') as f:
            f.write('tiiki-code,ken-name,sityouson-name1,sityouson-name2,'
                    'sityouson-name3\n')
            for code, p, k in CITY:
                f.write(','.join([str(code)]+city(p, k))+'\n')
        os.chdir(os.path.join(d, 'run'))
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


_CACHE = {}


def decoder(kind):
    """a fresh decoder: the files are read once per process"""
    import copy
    if kind not in _CACHE:
        with tables():
            if kind == 'jma':
                from cssrlib.ewss import jmaDec
                _CACHE[kind] = jmaDec()
            elif kind == 'camf':
                from cssrlib.ewss import camfDec
                _CACHE[kind] = camfDec()
            else:
                from cssrlib.dgps import dgpsDec
                _CACHE[kind] = dgpsDec()
    d = _CACHE[kind]
    if kind == 'dgps':
        d.dcr, d.dcx, dcr, dcx = None, None, d.dcr, d.dcx
        n = copy.deepcopy(d)
        d.dcr, d.dcx = dcr, dcx
        n.dcr, n.dcx = fresh(dcr), fresh(dcx)
        return n
    return fresh(d)


def fresh(d):
    """copy which shares the tables"""
    import copy
    n = copy.copy(d)
    if hasattr(n, 'msg'):
        n.msg = bytearray(d.msg)
    return n


class Msg:
    """250 bit message, fields at absolute bit positions"""

    def __init__(self, mt, pre=0x53):
        self.f = {}
        self.put(0, 8, pre)
        self.put(8, 6, mt)
        self.put(226, 24, 0x5A5A5A)

    def put(self, pos, n, v):
        v = int(v)
        assert 0 <= v < 1 << n, (pos, n, v)
        for b in range(pos, pos+n):
            assert b not in self.f, b
            self.f[b] = v >> (pos+n-1-b) & 1
        return self

    def seq(self, pos, *nv):
        for n, v in nv:
            self.put(pos, n, v)
            pos += n
        return pos

    def bytes(self):
        b = Bits()
        for k in range(250):
            b.u(self.f.get(k, 0), 1)
        return b.bytes()
