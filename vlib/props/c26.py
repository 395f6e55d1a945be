"""C26: surface concentrations, hulls and contours are those of the elements they are computed from."""
import math

from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import grid


@st.composite
def cloud(draw, ages=True):
    n = draw(st.integers(1, 4))
    base = (draw(grid(-170, 170, 17)), draw(grid(-65, 65, 13)))
    els = []
    for k in range(n):
        num = draw(st.sampled_from([0, 1, 2, 3, 4, 6, 10, 25]))
        kind = draw(st.sampled_from(['cloud', 'cloud', 'cloud', 'line', 'same']))
        seed = draw(st.integers(0, 10 ** 6))
        spread = draw(st.sampled_from([1e-3, 0.02, 0.3]))
        mass = draw(st.sampled_from(['equal', 'random', 'zero', 'some']))
        age = draw(st.sampled_from([[0], [0, 900], [0, 3600], [100, 3700, 7300], [900 * i for i in range(12)], [0, 3599, 3600, 3601, 20000]]))
        els.append({'num': num, 'kind': kind, 'seed': seed, 'spread': spread, 'mass': mass, 'ages': age, 'at': (draw(st.integers(-2, 2)), draw(st.integers(-2, 2)))})
    return {'base': base, 'spills': els, 'shuffle': draw(st.integers(0, 1000)), 'first': draw(st.sampled_from([0, 0, 3]))}


def elements(c):
    import numpy as np
    cols = {'positions': [], 'mass': [], 'age': [], 'spill_num': [], 'status_codes': []}
    for k, e in enumerate(c['spills']):
        r = np.random.RandomState(e['seed'])
        n = e['num']
        xy = r.uniform(-1, 1, (n, 2)) * e['spread']
        if e['kind'] == 'line':
            xy[:, 1] = 0.5 * xy[:, 0]
        if e['kind'] == 'same':
            xy[:] = xy[:1]
        pos = np.zeros((n, 3))
        pos[:, :2] = np.asarray(c['base']) + 0.4 * np.asarray(e['at']) + xy
        m = {'equal': np.full(n, 2.5), 'random': r.uniform(0.5, 4, n), 'zero': np.zeros(n), 'some': np.where(np.arange(n) % 2, 1.0, 3.0)}[e['mass']]
        cols['positions'].append(pos)
        cols['mass'].append(m)
        cols['age'].append(np.asarray([e['ages'][i % len(e['ages'])] for i in range(n)], dtype=np.int32))
        cols['spill_num'].append(np.full(n, k + c['first'], dtype=np.uint8))
        cols['status_codes'].append(np.full(n, 2, dtype=np.uint8))
    sc = {k: np.concatenate(v) for k, v in cols.items()}
    order = np.random.RandomState(c['shuffle']).permutation(len(sc['mass']))
    return {k: v[order] for k, v in sc.items()}


def density(x, y, w, px, py):
    """weighted Gaussian kernel density by Scott's rule at the points (px, py); None if the points are on a line"""
    import numpy as np
    w = w / w.sum()
    neff = 1.0 / (w ** 2).sum()
    mx, my = (w * x).sum(), (w * y).sum()
    f = 1.0 / (1.0 - (w ** 2).sum())
    a, b, d = f * (w * (x - mx) ** 2).sum(), f * (w * (x - mx) * (y - my)).sum(), f * (w * (y - my) ** 2).sum()
    h = neff ** (-1.0 / 6)
    a, b, d = a * h * h, b * h * h, d * h * h
    det = a * d - b * b
    if not det > 1e-6 * a * d:
        return None
    out = np.zeros(len(px))
    for i in range(len(px)):
        dx, dy = px[i] - x, py[i] - y
        out[i] = (w * np.exp(-0.5 * (d * dx * dx - 2 * b * dx * dy + a * dy * dy) / det)).sum() / (2 * math.pi * math.sqrt(det))
    return out


@facet('C26', cloud(), quick=250, rule="non-trivial: a spill of different ages or masses with three elements or more gets concentrations")
def concentration(c, ctx):
    import numpy as np
    import warnings
    from gnome.utilities.surface_concentration import compute_surface_concentration
    sc = elements(c)
    before = {k: v.copy() for k, v in sc.items()}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        compute_surface_concentration(sc, 'kde')
    for k in before:
        ctx.check(np.array_equal(before[k], sc[k]), "the concentration changed the %s", k)
    if len(sc['mass']) == 0:
        return
    got = sc['surface_concentration']
    ctx.equal(len(got), len(sc['mass']), "number of concentrations")
    ctx.check(np.isfinite(got).all() and (got >= 0).all(), "concentrations %s", got)
    some = False
    for s in np.unique(sc['spill_num']):
        i = np.where(sc['spill_num'] == s)[0]
        lon, lat, m, age = sc['positions'][i, 0], sc['positions'][i, 1], sc['mass'][i], sc['age'][i]
        want = np.zeros(len(i))
        t = age.min()
        skip = False
        while t <= age.max():
            ker = np.where(age < t + 3600)[0]
            here = ker[age[ker] >= t]
            if len(here) and len(np.unique(lon[ker])) > 2 and len(np.unique(lat[ker])) > 2:
                w = m[ker] if m[ker].sum() > 0 and len(np.unique(m[ker])) > 1 else np.ones(len(ker))
                lat0 = lat[ker].min()
                x, y = 111325 * math.cos(math.radians(lat0)) * (lon - lon[ker].min()), 111325 * (lat - lat0)
                d = density(x[ker], y[ker], w, x[here], y[here])
                if d is None:
                    skip = True               # on a line: up to rounding
                    break
                want[here] = d * (m[ker].sum() if m[ker].sum() > 0 else len(ker))
            t += 3600
        if skip:
            continue
        ctx.close(got[i], want, "concentration of spill %d" % s, rtol=1e-6, atol=1e-15 + 1e-9 * want.max())
        some |= want.max() > 0 and (len(np.unique(age)) > 1 or len(np.unique(m)) > 1)
    ctx.nontrivial(some)
    ctx.label(*[e['kind'] for e in c['spills']])


def inside(h, x, y, tol):
    from shapely.geometry import Point
    return h.distance(Point(x, y)) <= tol


def small(h, xy):
    """a hull around less than a triangle: a metre or so around it"""
    import numpy as np
    b = h.bounds
    lo, hi = xy.min(axis=0), xy.max(axis=0)
    return np.all(np.asarray(b[:2]) <= lo) and np.all(np.asarray(b[2:]) >= hi) and np.all(lo - np.asarray(b[:2]) < 5e-5) and np.all(np.asarray(b[2:]) - hi < 5e-5)


def check_hull(ctx, h, pts, ratio, what):
    """the hull of these points: they are in it, it is spanned by them, and is within their convex hull"""
    import numpy as np
    from shapely.geometry import MultiPoint
    xy = pts[:, :2]
    conv = MultiPoint([tuple(p) for p in xy]).convex_hull
    for x, y in xy:
        ctx.check(inside(h, x, y, 1e-9), "%s: element at %s is %s degrees outside", what, (x, y), None)
    if conv.geom_type != 'Polygon' or conv.area < 1e-12:
        ctx.check(small(h, xy), "%s: of points on a line, is %s", what, h)
        return
    ctx.check(h.area <= conv.area * (1 + 1e-9) and conv.buffer(1e-9).covers(h), "%s: reaches beyond the elements", what)
    own = set(map(tuple, xy.tolist()))
    for g in getattr(h, 'geoms', [h]):
        for p in list(g.exterior.coords):
            ctx.check(tuple(p[:2]) in own, "%s: corner %s is no element", what, p)
    if ratio == 1.0:
        ctx.close(h.area, conv.area, what + ": area of the convex hull", rtol=1e-9)


@facet('C26', st.tuples(cloud(), st.sampled_from([0.0, 0.3, 0.5, 1.0]), st.booleans(), st.booleans(), st.integers(1, 3)), quick=250,
       rule="non-trivial: two spills or more with three elements or more, hulls asked for by spill")
def hulls(c, ctx):
    import numpy as np
    from shapely import union_all
    from gnome.utilities.hull import calculate_hull
    c, ratio, union, separate, parts = c
    sc = elements(c)
    if parts > 1:                             # as forecast and uncertain containers
        arg = [{k: v[i::parts] for k, v in sc.items()} for i in range(parts)]
        if c['shuffle'] % 2:
            arg = tuple(arg)
    else:
        arg = sc
    out = calculate_hull(arg, ratio=ratio, union_results=union, separate_by_spill=separate)
    n = len(sc['mass'])
    ctx.equal(len(out['hulls']), len(out['spill_num']), "numbers of hulls and of spills")
    if n == 0:
        ctx.equal(len(out['hulls']), 0, "hulls of no elements")
        return
    nums = sorted(set(sc['spill_num'].tolist()))
    each = calculate_hull(arg, ratio=ratio, union_results=False, separate_by_spill=separate)
    if separate:
        ctx.equal(sorted(int(s) for s in each['spill_num']), nums, "spills that have a hull")
        for h, s in zip(each['hulls'], each['spill_num']):
            check_hull(ctx, h, sc['positions'][sc['spill_num'] == s], ratio, "hull of spill %d" % s)
    else:
        ctx.equal(each['spill_num'], [None], "spills of the hull")
        check_hull(ctx, each['hulls'][0], sc['positions'], ratio, "hull")
    if union:
        ctx.equal(out['spill_num'], [None], "spills of the union")
        u = union_all(each['hulls'])
        ctx.check(out['hulls'][0].symmetric_difference(u).area <= 1e-9 * u.area, "the union of the hulls is another one")
    else:
        ctx.check(len(out['hulls']) == len(each['hulls']) and all(a.equals(b) for a, b in zip(out['hulls'], each['hulls'])), "hulls differ when asked for again")
    ctx.nontrivial(separate and sum(e['num'] >= 3 for e in c['spills']) >= 2)
    ctx.label('separate' if separate else 'one', 'union' if union else 'list')


@facet('C26', st.tuples(cloud(), st.sampled_from([0.3, 1.0]), st.lists(st.tuples(st.integers(0, 4), st.sampled_from(['mass', 'age', 'surf_conc', 'viscosity']), st.integers(1, 4)), min_size=1, max_size=3)), quick=150,
       rule="non-trivial: three cutoffs or more and at least two contours")
def contours(c, ctx):
    import numpy as np
    from gnome.utilities.hull import calculate_contours
    c, ratio, want = c
    sc = elements(c)
    r = np.random.RandomState(c['shuffle'] + 1)
    n = len(sc['mass'])
    sc['surface_concentration'] = r.uniform(0, 1, n)
    sc['viscosity'] = r.uniform(1e-6, 1e-3, n)
    key = {'surf_conc': 'surface_concentration'}
    struct = {}
    for s, p, k in want:
        v = sc[key.get(p, p)][sc['spill_num'] == s]
        lo, hi = (float(v.min()), float(v.max())) if len(v) else (0.0, 1.0)
        cut = [lo + (hi - lo) * (i + 1) / (k + 0.5) for i in range(k)]
        struct[s] = {'param': p, 'cutoffs': [{'cutoff': x, 'cutoff_id': 'c%d' % i, 'color': '#%d' % i, 'label': 'l%d' % i} for i, x in enumerate(cut)]}
    got = calculate_contours(sc, struct, ratio=ratio)
    exp = []
    for s, d in struct.items():
        v = sc[key.get(d['param'], d['param'])]
        cut = [x['cutoff'] for x in d['cutoffs']]
        for i, x in enumerate(d['cutoffs']):
            sel = sc['spill_num'] == s
            if i == 0:
                sel &= v <= cut[0]
            elif i == len(cut) - 1:
                sel &= v >= cut[i - 1]
            else:
                sel &= (v >= cut[i - 1]) & (v <= cut[i])
            if sel.any():
                exp.append((s, x, sel))
    ctx.equal([(g['spill_num'], g['cutoff'], g['cutoff_id'], g['color'], g['label']) for g in got],
              [(s, x['cutoff'], x['cutoff_id'], x['color'], x['label']) for s, x, _ in exp], "contours")
    for g, (s, x, sel) in zip(got, exp):
        check_hull(ctx, g['contour'], sc['positions'][sel], ratio, "contour %s of spill %d" % (x['label'], s))
    ctx.equal(calculate_contours(sc, {}), [], "contours when none are asked for")
    ctx.nontrivial(len(got) >= 2 and any(len(d['cutoffs']) >= 3 for d in struct.values()))
