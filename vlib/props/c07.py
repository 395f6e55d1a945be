"""C07: the native land check never lets an element pass through land nor beaches it in open water."""
from hypothesis import strategies as st

from vlib.engine import facet


@st.composite
def raster_case(draw):
    size = st.one_of(st.integers(2, 60), st.sampled_from([15, 16, 17, 31, 32, 33, 48]))
    m, n = draw(size), draw(size)

    def at(k):
        return draw(st.one_of(st.integers(0, k - 1), st.sampled_from([x for x in (0, 15, 16, 31, 32, 47, k - 1) if x < k])))
    land = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(['pixel', 'box', 'row', 'col', 'diag', 'anti', 'frame', 'noise']))
        land.append((kind, at(m), at(n), draw(st.integers(1, 20)), draw(st.integers(1, 20))))
    ne = draw(st.integers(1, 12))
    lim = max(m, n) + 25
    pt = st.one_of(st.tuples(st.integers(0, m - 1), st.integers(0, n - 1)),
                   st.tuples(st.integers(-25, lim), st.integers(-25, lim)))
    return {'m': m, 'n': n, 'land': land, 'moves': [(draw(pt), draw(pt)) for _ in range(ne)],
            'ratios': draw(st.sampled_from([(16, 1), (32, 1), (128, 32, 1), (2, 1), (8, 4, 2, 1), (1,)])),
            'on': draw(st.lists(st.integers(0, 11), max_size=2)),
            'first': draw(st.sampled_from(['no', 'no', 'water', 'land']))}


def raster_of(c):
    import numpy as np
    m, n = c['m'], c['n']
    g = np.zeros((m, n), np.uint8)
    for kind, i, j, a, b in c['land']:
        if kind == 'pixel':
            g[i, j] = 1
        elif kind == 'box':
            g[i:i + a, j:j + b] = 1
        elif kind == 'row':
            g[i, :] = 1
        elif kind == 'col':
            g[:, j] = 1
        elif kind in ('diag', 'anti'):
            for k in range(60):
                x, y = i + k, j + (k if kind == 'diag' else -k)
                if 0 <= x < m and 0 <= y < n:
                    g[x, y] = 1
        elif kind == 'frame':
            x1, y1 = min(i + a, m - 1), min(j + b, n - 1)
            g[i:x1 + 1, j] = g[i:x1 + 1, y1] = 1
            g[i, j:y1 + 1] = g[x1, j:y1 + 1] = 1
        else:
            rs = np.random.RandomState(i * 997 + j)
            g |= (rs.random_sample((m, n)) < a / 100.0).astype(np.uint8)
    return g


def coarse(g, ratios):
    import numpy as np
    out = []
    for r in ratios[:-1]:
        w, h = -(-g.shape[0] // r), -(-g.shape[1] // r)
        c = np.zeros((w, h), np.uint8)
        for i in range(w):
            for j in range(h):
                c[i, j] = g[i * r:(i + 1) * r, j * r:(j + 1) * r].any()
        out.append(c)
    return out + [g]


def components(g, pad=27):
    """4-connected water regions of the raster with a margin of open water around it"""
    import numpy as np
    from scipy import ndimage
    big = np.zeros((g.shape[0] + 2 * pad, g.shape[1] + 2 * pad), np.uint8)
    big[pad:-pad, pad:-pad] = g
    lab, _ = ndimage.label(big == 0)
    return lab, pad


def near_cells(p, e, width):
    """cells whose centre is within `width` of the segment between the centres of p and e"""
    import numpy as np
    lo = np.minimum(p, e) - 2
    hi = np.maximum(p, e) + 2
    xs, ys = np.meshgrid(np.arange(lo[0], hi[0] + 1), np.arange(lo[1], hi[1] + 1), indexing='ij')
    d = np.array(e, float) - p
    L = (d ** 2).sum()
    if L == 0:
        t = np.zeros(xs.shape)
    else:
        t = np.clip(((xs - p[0]) * d[0] + (ys - p[1]) * d[1]) / L, 0, 1)
    dist = np.hypot(xs - p[0] - t * d[0], ys - p[1] - t * d[1])
    k = dist <= width
    return list(zip(xs[k].tolist(), ys[k].tolist()))


def line_cells(a, b):
    """the cells a straight line between the two pixel centres is closest to, one per step of the longer axis, ties left out"""
    k = 0 if abs(b[0] - a[0]) >= abs(b[1] - a[1]) else 1
    n = abs(b[k] - a[k])
    out = []
    for i in range(n + 1):
        x = a[k] + (i if b[k] >= a[k] else -i)
        y = a[1 - k] + (b[1 - k] - a[1 - k]) * i / n if n else a[1 - k]
        r = int(round(y))
        if abs(y - r) < 0.49:
            out.append((x, r) if k == 0 else (r, x))
    return k, out


def judge(ctx, g, p, e, st0, res):
    """p, e: start and end pixels; res = (status, positions, ends, last water) after the check"""
    import numpy as np
    m, n = g.shape
    lab, pad = components(g)

    def land(q):
        return 0 <= q[0] < m and 0 <= q[1] < n and g[q[0], q[1]] != 0

    def region(q):
        x, y = q[0] + pad, q[1] + pad
        if 0 <= x < lab.shape[0] and 0 <= y < lab.shape[1]:
            return int(lab[x, y])
        return int(lab[0, 0])
    status, pos, end, last = res
    hits = 0
    for i in range(len(p)):
        a, b = tuple(int(x) for x in p[i]), tuple(int(x) for x in e[i])
        if st0[i] == 3:         # already on land: untouched
            ctx.check(status[i] == 3 and tuple(end[i]) == b and tuple(pos[i]) == a and tuple(last[i]) == (-7, -7),
                      "an element already on land was changed")
            continue
        if status[i] == 3:
            hits += 1
            h, w = tuple(int(x) for x in end[i]), tuple(int(x) for x in last[i])
            ctx.check(land(h), "move %s -> %s beached at %s, which is not land", a, b, h)
            ctx.check(h in near_cells(a, b, 1.08), "move %s -> %s beached at %s, off its path", a, b, h)
            if land(a):
                ctx.check(h == a and w == a, "move %s -> %s started on land, beached at %s (last water %s)", a, b, h, w)
            else:
                ctx.check(not land(w), "move %s -> %s: last water pixel %s is land", a, b, w)
                ctx.check(max(abs(w[0] - h[0]), abs(w[1] - h[1])) == 1, "last water pixel %s not next to %s", w, h)
                ctx.check(region(w) == region(a), "move %s -> %s reached the water at %s through land", a, b, w)
                # nothing on the way to the hit was land
                k, cells = line_cells(a, b)
                for q in cells:
                    if abs(q[k] - a[k]) > abs(w[k] - a[k]):
                        break
                    ctx.check(not land(q), "move %s -> %s passed land at %s and beached at %s", a, b, q, h)
            ctx.check(any(land(q) for q in near_cells(a, b, 1.08)), "move %s -> %s beached in open water", a, b)
        else:
            ctx.check(tuple(end[i]) == b and tuple(pos[i]) == b, "move %s -> %s ended at %s", a, b, end[i])
            ctx.check(tuple(last[i]) == (-7, -7), "last water position set without beaching")
            ctx.check(not land(b) and not land(a), "move %s -> %s ends on land without beaching", a, b)
            ctx.check(region(a) == region(b), "move %s -> %s passed through land", a, b)
            for q in line_cells(a, b)[1]:
                ctx.check(not land(q), "move %s -> %s crossed land at %s", a, b, q)
        ctx.check(status[i] in (2, 3), "status %s", status[i])
    return hits


@facet('C07', raster_case(), quick=1500,
       rule="land rasters with boxes, lines, diagonals, frames and noise; moves inside, into and out of the raster; layered and plain check; "
            "non-trivial: some elements beached and some did not")
def rasters(c, ctx):
    import numpy as np
    from gnome.cy_gnome.cy_land_check import check_land, check_land_layers, find_first_pixel
    g = raster_of(c)
    p = np.array([a for a, _ in c['moves']], np.int32)
    e = np.array([b for _, b in c['moves']], np.int32)
    st0 = np.full(len(p), 2, np.int16)
    for i in c['on']:
        if i < len(p):
            st0[i] = 3
    out = []
    for layered in (False, True):
        s, pp, ee, ll = st0.copy(), p.copy(), e.copy(), np.full_like(p, -7)
        if layered:
            check_land_layers(coarse(g, c['ratios']), np.array(c['ratios'], np.int32), pp, ee, s, ll)
        else:
            check_land(g, pp, ee, s, ll)
        hits = judge(ctx, g, p, e, st0, (s, pp, ee, ll))
        out.append((s, ee, ll))
    for a, b, what in zip(out[0], out[1], ('status', 'end', 'last water')):
        ctx.check(np.array_equal(a, b), "layered and plain land check disagree on %s: %s vs %s", what, a.tolist(), b.tolist())
    for i in range(len(p)):
        if st0[i] == 2:
            r = find_first_pixel(g, tuple(int(x) for x in p[i]), tuple(int(x) for x in e[i]))
            ctx.equal(r is not None, bool(out[0][0][i] == 3), "find_first_pixel")
            if r:
                ctx.equal(tuple(r[1]), tuple(int(x) for x in out[0][1][i]), "pixel hit")
    ctx.nontrivial(0 < hits < len(p))
    ctx.label('layers %s' % (c['ratios'],))


@facet('C07', raster_case(), quick=250,
       rule="the same land rasters behind RasterMap.beach_elements with element arrays in degrees; non-trivial: some elements beached and some did not")
def raster_maps(c, ctx):
    import numpy as np
    from gnome.maps.map import RasterMap
    from gnome.utilities.projections import NoProjection
    from gnome.basic_types import oil_status
    g = raster_of(c)
    mp = RasterMap(raster=g if c['first'] == 'no' else np.full_like(g, c['first'] == 'land'), projection=NoProjection(), refloat_halflife=1,
                   map_bounds=((-40, -40), (-40, 95), (95, 95), (95, -40)))
    if c['first'] != 'no':      # a raster can be replaced by another
        mp.raster = g.copy()
    # besides the generated moves, some across the outermost land of each stretch of the coast
    moves = list(c['moves'])
    lx, ly = np.nonzero(g)
    blocks = {}
    for x, y in zip(lx.tolist(), ly.tolist()):
        blocks.setdefault((x // 16, y // 16), []).append((x, y))
    for q in list(blocks.values())[:6]:
        for k, (x, y) in enumerate((min(q), max(q), min(q, key=lambda t: t[1]), max(q, key=lambda t: t[1]))):
            dx, dy = ((5, 2), (0, 19), (19, 0), (-7, 8))[k]
            moves.append(((x - dx, y - dy), (x + dx, y + dy)))
    p = np.array([a + (0,) for a, _ in moves], float)
    e = np.array([b + (0,) for _, b in moves], float)

    class SC(dict):
        pass
    sc = SC(positions=p.copy(), next_positions=e.copy(), status_codes=np.full(len(p), 2, np.int16),
            last_water_positions=np.full_like(p, -7), mass=np.ones(len(p)))
    sc.mass_balance = {'beached': 0.0, 'off_maps': 0.0}
    mp.beach_elements(sc)
    status = np.asarray(sc['status_codes'])
    off = status == oil_status.off_maps
    ctx.equal(off.any(), False, "nothing left the map")
    s2 = status.copy()
    hits = judge(ctx, g, p[:, :2].astype(int), e[:, :2].astype(int), np.full(len(p), 2),
                 (s2, sc['next_positions'][:, :2].astype(int), sc['next_positions'][:, :2].astype(int),
                  sc['last_water_positions'][:, :2].astype(int)))
    ctx.check(np.array_equal(sc['positions'], p), "start positions changed")
    ctx.close(sc.mass_balance['beached'], float((s2 == 3).sum()), "beached mass")
    for i in range(c['m']):
        q = (i, (i * 7) % c['n'], 0)
        ctx.equal(bool(mp.on_land(q)), bool(g[q[0], q[1]]), "on_land")
    pts = np.array([(i, j, 0) for i in range(-3, c['m'] + 3, 2) for j in range(-3, c['n'] + 3, 3)], float)
    want = [bool(0 <= i < c['m'] and 0 <= j < c['n'] and g[int(i), int(j)]) for i, j, _ in pts]
    ctx.equal([bool(x) for x in mp.on_land_points(pts)], want, "on_land_points")
    ctx.equal([bool(mp.in_water(tuple(q))) for q in pts], [not w for w in want], "in_water is the opposite of on_land on the map")
    ctx.nontrivial(0 < hits < len(p))
