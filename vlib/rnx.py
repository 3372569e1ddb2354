"""independent writer of RINEX 3/4 navigation and observation files, from the
tables of the format description; works on plain dicts of field values"""
import datetime

SP = None       # spare / blank field
HEAD = ['af0', 'af1', 'af2']
KEP24 = ['cuc', 'e', 'cus', 'sqrtA']
KEP4 = ['i0', 'crc', 'omg', 'OMGd']

# record type -> rows of 4 fields after the epoch line
ROWS = {
    'LNAV': [['iode', 'crs', 'deln', 'M0'], KEP24,
             ['toes', 'cic', 'OMG0', 'cis'], KEP4,
             ['idot', 'code', 'week', 'l2p'],
             ['sva', 'svh', 'tgd', 'iodc'], ['tot', 'fit', SP, SP]],
    'CNAV': [['Adot', 'crs', 'deln', 'M0'], KEP24,
             ['tops', 'cic', 'OMG0', 'cis'], KEP4,
             ['idot', 'delnd', 'urai0', 'urai1'],
             ['sva', 'svh', 'tgd', 'urai2'],
             ['isc0', 'isc1', 'isc2', 'isc3'],
             ['tot', 'wn_op', 'integ', SP]],
    'CNV2': [['Adot', 'crs', 'deln', 'M0'], KEP24,
             ['tops', 'cic', 'OMG0', 'cis'], KEP4,
             ['idot', 'delnd', 'urai0', 'urai1'],
             ['sva', 'svh', 'tgd', 'urai2'],
             ['isc0', 'isc1', 'isc2', 'isc3'],
             ['isc4', 'isc5', SP, SP], ['tot', 'wn_op', 'integ', SP]],
    'GAL': [['iode', 'crs', 'deln', 'M0'], KEP24,
            ['toes', 'cic', 'OMG0', 'cis'], KEP4,
            ['idot', 'code', 'week', SP],
            ['sva', 'svh', 'bgda', 'bgdb'], ['tot', SP, SP, SP]],
    'D1D2': [['iode', 'crs', 'deln', 'M0'], KEP24,
             ['toes', 'cic', 'OMG0', 'cis'], KEP4,
             ['idot', SP, 'week', SP],
             ['sva', 'svh', 'tgd', 'tgd_b'], ['tot', 'iodc', SP, SP]],
    'CCNV1': [['Adot', 'crs', 'deln', 'M0'], KEP24,
              ['toes', 'cic', 'OMG0', 'cis'], KEP4,
              ['idot', 'delnd', 'sattype', 'tops'],
              ['sisai0', 'sisai1', 'sisai2', 'sisai3'],
              ['isc0', SP, 'tgd', 'tgd_b'],
              ['sismai', 'svh', 'integ', 'iodc'], ['tot', SP, SP, 'iode']],
    'CCNV2': [['Adot', 'crs', 'deln', 'M0'], KEP24,
              ['toes', 'cic', 'OMG0', 'cis'], KEP4,
              ['idot', 'delnd', 'sattype', 'tops'],
              ['sisai0', 'sisai1', 'sisai2', 'sisai3'],
              [SP, 'isc1', 'tgd', 'tgd_b'],
              ['sismai', 'svh', 'integ', 'iodc'], ['tot', SP, SP, 'iode']],
    'CCNV3': [['Adot', 'crs', 'deln', 'M0'], KEP24,
              ['toes', 'cic', 'OMG0', 'cis'], KEP4,
              ['idot', 'delnd', 'sattype', 'tops'],
              ['sisai0', 'sisai1', 'sisai2', 'sisai3'],
              ['sismai', 'svh', 'integ', 'tgd'], ['tot', SP, SP, SP]],
    'ILNAV': [['iode', 'crs', 'deln', 'M0'], KEP24,
              ['toes', 'cic', 'OMG0', 'cis'], KEP4,
              ['idot', SP, 'week', SP],
              ['sva', 'svh', 'tgd', SP], ['tot', SP, SP, SP]],
    'L1NV0': [['Adot', 'crs', 'deln', 'M0'], KEP24,
              ['iode', 'cic', 'OMG0', 'cis'], KEP4,
              ['idot', 'delnd', SP, 'integ'],
              ['uraiS', 'svh', 'tgd', SP], ['isc5', 'isc4', SP, SP],
              ['tot', SP, SP, SP]],
    'L1NV1': [['Adot', 'crs', 'deln', 'M0'], KEP24,
              ['iode', 'cic', 'OMG0', 'cis'], KEP4,
              ['idot', 'delnd', SP, 'integ'],
              ['uraiS', 'svh', SP, 'tgd'], [SP, SP, 'isc5', 'isc4'],
              ['tot', SP, SP, SP]],
}


def num(v, exp='E'):
    """one 19 character field"""
    if v is None:
        return ' '*19
    s = '%19.12E' % v
    if exp == 'd':          # Fortran style 0.xxxD+yy
        return s.replace('E', 'D')
    return s


def val(v):
    """the value a reader gets for v"""
    return float('%.12E' % v)


def row(vals, exp='E', indent=4, strip=False):
    s = ' '*indent+''.join(num(v, exp) for v in vals)
    return (s.rstrip() if strip else s)+'\n'


def ep_str(ep):
    return '%04d %02d %02d %02d %02d %02d' % tuple(ep)


def eph_rec(kind, id_, ep, f, exp='E', strip=False, label=None, keep=None):
    """one ephemeris record; keep: number of fields of the last row"""
    out = ''
    if label:
        out += '> EPH %s %s\n' % (id_, label)
    rows = ROWS[kind]
    s = id_+' '+ep_str(ep)+''.join(num(f[n], exp) for n in HEAD)
    out += (s.rstrip() if strip else s)+'\n'
    for r in rows:
        out += row([None if n is None else f[n] for n in r], exp, 4, strip)
    return out


def head(ver, typ='N: GNSS NAV DATA', sys='M: MIXED', extra=()):
    s = '%9.2f           %-20s%-20s%-20s\n' % (ver, typ, sys,
                                               'RINEX VERSION / TYPE')
    s += '%-20s%-20s%-20s%-20s\n' % ('X', 'Y', '20210101 000000 UTC',
                                     'PGM / RUN BY / DATE')
    for e in extra:
        s += e
    s += '%60s%-20s\n' % ('', 'END OF HEADER')
    return s


def line(body, label):
    return '%-60s%-20s\n' % (body, label)


def dt(ep):
    return datetime.datetime(*ep)
