"""independent interpolation of network corrections"""
import numpy as np

RE = 6378137.0


def nearest_points(rows, la, lo):
    """rows: (network, grid number, lat, lon) in degrees.  Returns the
    network, the row numbers of its points by distance, those selected for
    the interpolation, their distances and whether the choice is free of
    ties; None near a boundary between two rules"""
    def loc(r):
        return np.array([np.deg2rad(r[3]-lo)*np.cos(np.deg2rad(la)),
                         np.deg2rad(r[2]-la)])*RE
    xy = [loc(r) for r in rows]
    d = [np.hypot(*x) for x in xy]
    o = np.argsort(d)
    if len(d) > 1 and rows[o[0]][0] != rows[o[1]][0] and \
            d[o[1]]-d[o[0]] < 1:
        return None
    net = rows[o[0]][0]
    dmin = d[o[0]]
    if dmin < 0.01 or abs(dmin-5000) < 1:
        return None
    ix = [i for i in o if rows[i][0] == net]
    ds = [d[i] for i in ix]
    sure = all(b-a > 1e-3 for a, b in zip(ds[:4], ds[1:5]))
    if dmin < 5000:
        sel = [ix[0]]
        sure = len(ds) < 2 or ds[1]-ds[0] > 1e-3
    elif len(ix) < 4:
        sel = ix
        sure = True
    else:
        sel = ix[:3]
        v0 = xy[ix[0]]
        vp = -v0

        def cr(a, b):
            return a[0]*b[1]-a[1]*b[0]

        a2, a3 = xy[ix[1]]-v0, xy[ix[2]]-v0
        for j in ix[3:]:
            q = xy[j]-v0
            s = [cr(a2, vp)*cr(a2, q), cr(a3, vp)*cr(a3, q)]
            # sides of the lines through the nearest point
            t = [abs(cr(a2, q)), abs(cr(a3, q)), abs(cr(a2, vp)),
                 abs(cr(a3, vp))]
            if min(t) < 1e2:
                sure = False
                break
            if s[0] > 0 and s[1] > 0:
                sel = sel+[j]
                break
    return net, ix, sel, d, sure


def zenith(L, dla, dlo, k, gw):
    """hydrostatic and wet zenith delay of network L (model of the
    messages) at an offset from its first point; k, gw: indices and weights
    of the grid points"""
    p = np.array([1, dla, dlo, dla*dlo])
    xh = xw = 0.0
    f = L.get('flg_trop', 0)
    if f & 2:
        xh += L['ct'][0]@p
        xw += L['ct'][1]@p
    if f & 1:
        xw += np.array(L['dtw'])[k]@gw
        if 'dth' in L:
            xh += np.array(L['dth'])[k]@gw
    return xh, xw


def slant(L, s, dla, dlo, k, gw):
    """slant electron content of satellite s"""
    v = 0.0
    if L['flg_stec'] & 2:
        v += L['ci'][s]@np.array([1, dla, dlo, dla*dlo, dla**2, dlo**2])
    if L['flg_stec'] & 1:
        v += np.array(L['dstec'][s])[k]@gw
    return v
