"""C21: polygons, boxes and coast files."""
import math
from fractions import Fraction

from hypothesis import assume, strategies as st

from vlib.engine import facet
from vlib.gen import grid


def fd(**kw):
    return st.fixed_dictionaries(kw)


coord = st.one_of(st.integers(-6, 6).map(float), grid(-3, 3, 240), st.floats(-10, 10, allow_subnormal=False))
point = st.tuples(coord, coord)


def exact_parity(poly, q):
    """even-odd rule in exact arithmetic; None when q is on an edge"""
    x, y = Fraction(q[0]), Fraction(q[1])
    n = len(poly)
    c = False
    for i in range(n):
        (x1, y1), (x2, y2) = [(Fraction(a), Fraction(b)) for a, b in (poly[i], poly[(i + 1) % n])]
        cross = (x2 - x1) * (y - y1) - (x - x1) * (y2 - y1)
        if cross == 0 and min(x1, x2) <= x <= max(x1, x2) and min(y1, y2) <= y <= max(y1, y2):
            return None
        if (y1 > y) != (y2 > y) and x < (x2 - x1) * (y - y1) / (y2 - y1) + x1:
            c = not c
    return c


def near(poly, q, eps):
    from vlib.geo import Poly
    return Poly(poly).dist(q) <= eps


@st.composite
def pip_case(draw):
    poly = draw(st.lists(point, min_size=3, max_size=9))
    pts = draw(st.lists(point, min_size=1, max_size=8))
    # points at vertices' height, and between vertices
    for i in range(draw(st.integers(0, 3))):
        a, b = poly[i % len(poly)], poly[(i + 2) % len(poly)]
        pts.append(((a[0] + b[0]) / 2, a[1]))
        pts.append(((a[0] + b[0]) / 2, (a[1] + b[1]) / 2))
    return {'poly': poly, 'pts': pts, 'closed': draw(st.booleans()), 'rot': draw(st.integers(0, 8)), 'rev': draw(st.booleans()), 'z': draw(st.sampled_from([0.0, 5.0, -1.0]))}


@facet('C21', pip_case(), quick=1200, rule="non-trivial: points both inside and outside of the polygon")
def points_in_polygons(case, ctx):
    """every point-in-polygon routine agrees with the even-odd rule, however the polygon is written down"""
    import numpy as np
    from gnome.utilities.geometry import cy_point_in_polygon as cy, PinP
    poly, pts = case['poly'], case['pts']
    want = [exact_parity(poly, q) for q in pts]
    eps = 1e-9
    sure = [w is not None and not near(poly, q, eps) for w, q in zip(want, pts)]
    ctx.nontrivial(len({w for w, s in zip(want, sure) if s}) == 2)
    forms = [poly]
    r = case['rot'] % len(poly)
    forms.append(poly[r:] + poly[:r])
    if case['rev']:
        forms.append(poly[::-1])
    if case['closed']:
        forms.append(poly + poly[:1])
    p3 = np.array([(x, y, case['z']) for x, y in pts])
    for f in forms:
        arr = np.ascontiguousarray(f, dtype=np.float64)
        keep, kp = arr.copy(), p3.copy()
        res = {'points_in_poly': list(cy.points_in_poly(arr, p3)), 'point_in_poly': [bool(cy.point_in_poly(arr, q)) for q in pts],
               'PinP.points_in_poly': list(PinP.points_in_poly(arr, p3)), 'CrossingsTest': [bool(PinP.CrossingsTest(arr, q)) for q in pts],
               'points_in_polys': list(cy.points_in_polys(np.repeat(arr[None], len(pts), axis=0).copy(), np.ascontiguousarray(p3[:, :2]))),
               'one at a time': [cy.points_in_poly(arr, tuple(q)) for q in p3.tolist()]}
        one = p3[0].copy()
        PinP.points_in_poly(arr, one)
        cy.points_in_poly(arr, one)
        ctx.check(one.shape == (3,) and np.array_equal(arr, keep) and np.array_equal(p3, kp) and p3.shape == kp.shape, "arguments changed")
        for name, got in res.items():
            for g, w, s, q in zip(got, want, sure, pts):
                if s:
                    ctx.check(bool(g) == w, "%s: %s in %s is %s", name, q, f, g)


@facet('C21', fd(x=st.lists(coord, min_size=3, max_size=4, unique=True), y=st.lists(coord, min_size=3, max_size=4, unique=True), jig=st.tuples(st.floats(0.1, 0.9), st.floats(0.1, 0.9)), pts=st.lists(st.tuples(st.floats(0, 1), st.floats(0, 1)), max_size=5)),
       quick=500, rule="non-trivial: a point on a shared edge or corner")
def shared_edges(case, ctx):
    """polygons that tile an area: every point inside the area is in exactly one of them, edges and corners included"""
    import numpy as np
    from gnome.utilities.geometry import cy_point_in_polygon as cy
    xs, ys = sorted(case['x']), sorted(case['y'])
    assume(min(np.diff(xs)) > 1e-3 and min(np.diff(ys)) > 1e-3)
    V = {(i, j): (x, y) for i, x in enumerate(xs) for j, y in enumerate(ys)}
    # one inner corner is moved, so that edges are not parallel to the axes
    V[1, 1] = (xs[0] + (xs[2] - xs[0]) * case['jig'][0], ys[0] + (ys[2] - ys[0]) * case['jig'][1])
    tiles = []
    for i in range(len(xs) - 1):
        for j in range(len(ys) - 1):
            q = [V[i, j], V[i + 1, j], V[i + 1, j + 1], V[i, j + 1]]
            tiles.append(q[:3])
            tiles.append([q[0], q[2], q[3]])
    # a moved corner can fold a tile over: keep to tilings without folds
    for t in tiles:
        a = (t[1][0] - t[0][0]) * (t[2][1] - t[0][1]) - (t[2][0] - t[0][0]) * (t[1][1] - t[0][1])
        assume(a > 1e-6)
    inner = []
    for i in range(len(xs)):
        for j in range(len(ys)):
            x, y = V[i, j]
            if xs[0] < x < xs[-1] and ys[0] < y < ys[-1]:
                inner.append((x, y))
    shared = bool(inner)
    for a, b in case['pts']:
        inner.append((xs[0] + a * (xs[-1] - xs[0]), ys[0] + b * (ys[-1] - ys[0])))
        inner.append((xs[1], ys[0] + b * (ys[-1] - ys[0])))
        inner.append((xs[0] + a * (xs[-1] - xs[0]), ys[1]))
    ctx.nontrivial(shared)
    for q in inner:
        if not (xs[0] < q[0] < xs[-1] and ys[0] < q[1] < ys[-1]):
            continue
        hit = [t for t in tiles if cy.point_in_poly(np.array(t, dtype=np.float64), q)]
        ctx.equal(len(hit), 1, "number of tiles with point %s (%s)" % (q, hit))


@facet('C21', fd(pts=st.lists(point, min_size=1, max_size=8), other=st.lists(point, min_size=1, max_size=5), more=st.lists(st.lists(point, min_size=1, max_size=4), min_size=1, max_size=3), q=st.lists(point, min_size=1, max_size=6)),
       quick=500, rule="non-trivial: two boxes that overlap partly")
def boxes(case, ctx):
    """bounding boxes against comparisons of the coordinates"""
    import numpy as np
    from gnome.utilities.geometry import BBox as B

    def ref(p):
        a = np.array(p)
        return a.min(axis=0), a.max(axis=0)
    a, b = B.fromPoints(case['pts']), B.fromPoints(case['other'])
    (alo, ahi), (blo, bhi) = ref(case['pts']), ref(case['other'])
    ctx.check(np.array_equal(np.asarray(a), np.array([alo, ahi])), "fromPoints(%s) is %s", case['pts'], a)
    ov = bool((alo <= bhi).all() and (blo <= ahi).all())
    inside = bool((blo >= alo).all() and (bhi <= ahi).all())
    ctx.nontrivial(ov and not inside)
    ctx.equal(bool(a.Overlaps(b)), ov, "Overlaps")
    ctx.equal(bool(b.Overlaps(a)), ov, "Overlaps")
    ctx.equal(bool(a.Inside(b)), inside, "Inside")
    for q in case['q'] + case['pts']:
        ctx.equal(bool(a.PointInside(q)), bool((np.array(q) >= alo).all() and (np.array(q) <= ahi).all()), "PointInside %s" % (q,))
    ctx.equal([float(v) for v in (a.Left, a.Bottom, a.Right, a.Top, a.Width, a.Height)],
              [float(v) for v in (alo[0], alo[1], ahi[0], ahi[1], ahi[0] - alo[0], ahi[1] - alo[1])], "sides")
    ctx.close(np.asarray(a.Center), (alo + ahi) / 2, "centre")
    c = B.asBBox(np.array(a))
    ctx.check(c == a, "asBBox")
    bkeep = np.array(b)
    c.Merge(b)
    ctx.check(np.array_equal(np.asarray(c), np.array([np.minimum(alo, blo), np.maximum(ahi, bhi)])), "Merge: %s and %s gave %s", a, b, c)
    ctx.check(np.array_equal(np.asarray(b), bkeep), "Merge changed its argument")
    n = B.NullBBox()
    ctx.check(n.IsNull() and not n.PointInside(case['q'][0]) and not n.Overlaps(a), "null box")
    n.Merge(a)
    ctx.check(np.array_equal(np.asarray(n), np.asarray(a)), "null box merged with a box")
    k = B.asBBox(np.array(a))
    k.Merge(B.NullBBox())
    ctx.check(np.array_equal(np.asarray(k), np.asarray(a)), "box merged with the null box")
    bbs = [B.fromPoints(p) for p in case['more']]
    lo, hi = ref(sum(case['more'], []))
    ctx.check(np.array_equal(np.asarray(B.fromBBArray(np.array(bbs))), np.array([lo, hi])), "fromBBArray")
    ctx.check(B.InfBBox().Overlaps(a) and a.Overlaps(B.InfBBox()) and B.InfBBox().Inside(a), "infinite box")
    corners = {tuple(p) for p in a.AsPoly().tolist()}
    ctx.equal(corners, {(x, y) for x in (alo[0], ahi[0]) for y in (alo[1], ahi[1])}, "corners")
    if (ahi > alo).any():
        ctx.raises(ValueError, lambda: B.BBox([ahi, alo]), "box with the corners swapped")


metas = st.one_of(st.none(), st.dictionaries(st.sampled_from(['name', 'kind']), st.sampled_from(['1', 'lake', 'x']), max_size=2), st.tuples(st.just('polygon'), st.just('a'), st.just('1')))


@st.composite
def set_case(draw):
    polys = draw(st.lists(st.tuples(st.one_of(st.lists(point, min_size=1, max_size=6), st.lists(point, max_size=1)), metas), max_size=6))
    return {'polys': polys, 'split': draw(st.integers(0, 6)), 'copy': draw(st.booleans()),
            'scale': draw(st.tuples(st.sampled_from([0.1, 1.0, 2.5, 30.0]), st.sampled_from([0.1, 1.0, -2.0, 30.0])))}


@facet('C21', set_case(), quick=500, rule="non-trivial: two or more polygons of different sizes")
def polygon_sets(case, ctx):
    """a PolygonSet is the list of polygons appended to it"""
    import numpy as np
    from gnome.utilities.geometry.polygons import Polygon, PolygonSet
    polys = case['polys']
    ctx.nontrivial(len({len(p) for p, _ in polys}) > 1)
    s = PolygonSet()
    model = []
    for p, m in polys:
        s.append(p, metadata=m)
        model.append((p, {} if m is None else m))
        ctx.equal(len(s), len(model), "length")
    other = s.Copy() if case['copy'] else None

    def verify(s, model, what):
        ctx.equal(len(s), len(model), what + ": length")
        ctx.equal(s.total_num_points, sum(len(p) for p, _ in model), what + ": points")
        ctx.equal(bool(s), bool(model), what + ": truth")
        for i, (poly, (p, m)) in enumerate(zip(s, model)):
            ctx.check(np.array_equal(np.asarray(poly), np.array(p, dtype=float).reshape(-1, 2)), "%s: polygon %d is %s, expected %s", what, i, poly, p)
            ctx.equal(poly.metadata, m, what + ": metadata")
            ctx.check(s[i] == poly and s[i - len(model)] == poly, "%s: index %d", what, i)
        for i in (len(model), len(model) + 1, -len(model) - 1):
            ctx.raises(IndexError, lambda: s[i], "%s: index %d of %d" % (what, i, len(model)))
        if model:
            allp = np.array(sum([list(p) for p, _ in model], []))
        if model and len(allp):
            ctx.check(np.array_equal(np.asarray(s.bounding_box), np.array([allp.min(axis=0), allp.max(axis=0)])), "%s: bounding box", what)
    verify(s, model, 'set')
    if other is not None:
        ctx.check(other == s and not other != s, "a copy is equal")
        other.append([(99.0, 99.0), (98.0, 99.0), (98.0, 97.0)], {'name': 'new'})
        verify(s, model, 'set after a change of its copy')
        verify(other, model + [([(99.0, 99.0), (98.0, 99.0), (98.0, 97.0)], {'name': 'new'})], 'copy')
        ctx.check(other != s, "a longer copy is not equal")
        t = s.Copy()
        t.TransformData(lambda pts: pts * 2.0 + 1.0)
        verify(t, [([(x * 2.0 + 1.0, y * 2.0 + 1.0) for x, y in p], m) for p, m in model], 'transformed copy')
        verify(s, model, 'set after transforming its copy')
        # the same points and metadata, divided differently
        if len(model) == 2 and len(model[0][0]) != len(model[1][0]):
            w = PolygonSet()
            pts = list(model[0][0]) + list(model[1][0])
            k = len(model[1][0])
            w.append(pts[:k], model[0][1])
            w.append(pts[k:], model[1][1])
            ctx.check(w != s and not w == s, "sets with the same points in different polygons are equal")
    # made from, or given, the points of another
    pts, ix = s.GetPointsData()
    extra = ([(9.0, 8.0), (7.0, 8.0), (9.0, 7.0)], {'kind': 'late'})
    for t in (PolygonSet((pts, ix, s.GetMetaData())), PolygonSet()):
        if not t:
            t.append(extra[0])
            t.SetPointsData(s.GetPointsData(), s.GetMetaData())
        verify(t, model, 'set made from the data of another')
        ctx.check(t == s, "a set made from the data of another is equal")
        t.append(*extra)
        verify(t, model + [extra], 'set made from the data of another, with one more')
        verify(s, model, 'set whose data another was made from')
    t.SetPointsData(s.GetPointsData())
    verify(t, [(p, {}) for p, _ in model], 'set given points without metadata')
    if not all(p for p, _ in model):
        return
    # thinning for drawing
    sc = case['scale']

    def draw(p):
        pix = [(round(x * sc[0]), round(y * sc[1])) for x, y in p]
        return [q for i, q in enumerate(pix) if i == 0 or q != pix[i - 1]]
    want = []
    for p, m in model:
        d = draw(p)
        if len(set(d)) > 1 or len(d) > 1:
            want.append((d, m))
    got = [(draw(q.tolist()), q.metadata) for q in s.thin(sc)]
    if all(abs((v * k) % 1 - 0.5) > 1e-6 for p, _ in model for pt in p for v, k in zip(pt, sc)):
        want = [(d[:-1] if d[0] == d[-1] else d, m) for d, m in want]
        got = [(d[:-1] if d[0] == d[-1] else d, m) for d, m in got]
        ctx.equal(got, want, "thinned polygons as drawn at %s" % (sc,))


@st.composite
def bna_case(draw):
    recs = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(['polygon', 'closed', 'nearly', 'polyline', 'two', 'point']))
        n = {'point': 1, 'two': 2}.get(kind) or draw(st.integers(3, 7))
        pts = draw(st.lists(st.tuples(grid(-180, 180, 3600), grid(-90, 90, 1800)), min_size=n, max_size=n))
        if kind == 'nearly':                  # open, the last point close to the first
            kind = 'polygon'
            d = draw(st.tuples(*[st.sampled_from([0.0, 1e-9, -1e-9, 1e-6, 1e-4, -1e-4, 2e-3])] * 2))
            pts.append((pts[0][0] + d[0], pts[0][1] + d[1]))
        recs.append({'kind': kind, 'pts': pts,
                     'name': draw(st.sampled_from(['1', 'Another Name', 'Map Bounds', '', 'a,b', ' 5 '])), 'sname': draw(st.sampled_from(['1', '2', '', 'x,y']))})
    return {'recs': recs, 'sp': draw(st.sampled_from([',', ', ', ' , ', ',\t'])), 'nl': draw(st.sampled_from(['\n', '\r\n'])), 'blank': draw(st.booleans()),
            'last': draw(st.booleans()), 'break': draw(st.sampled_from([None, None, 'short', 'letters', 'header', 'zero', 'three']))}


@facet('C21', bna_case(), quick=500, rule="non-trivial: records of two or more kinds")
def coast_files(case, ctx):
    """a BNA file is read as the records written in it, and refused when it is damaged"""
    import os
    import numpy as np
    from gnome.utilities.file_tools.haz_files import ReadBNA
    recs = case['recs']
    ctx.nontrivial(len({r['kind'] for r in recs}) > 1)
    out, want = [], []
    for r in recs:
        pts = list(r['pts'])
        if r['kind'] == 'closed':
            pts.append(pts[0])
        n = -len(pts) if r['kind'] == 'polyline' else len(pts)
        out.append('"%s","%s",%s%d' % (r['name'], r['sname'], ' ' if len(case['sp']) > 1 else '', n))
        out += ['%r%s%r' % (x, case['sp'], y) for x, y in pts]
        if case['blank']:
            out.append('')
        kind = {'two': 'polyline', 'closed': 'polygon'}.get(r['kind'], r['kind'])
        if kind == 'polygon' and pts[0] == pts[-1]:
            pts = pts[:-1]
        want.append((pts, kind, r['name'], r['sname']))
    path = os.path.join(ctx.tmpdir(), 'x.bna')

    def write(lines):
        with open(path, 'w', newline='') as f:
            f.write(case['nl'].join(lines) + (case['nl'] if case['last'] else ''))
    write(out)
    for _ in range(2):
        got = ReadBNA(path, 'list')
        ctx.equal([(g[0].tolist(), g[1], g[2], g[3]) for g in got], [([list(p) for p in w[0]],) + w[1:] for w in want], "records")
        s = ReadBNA(path, 'PolygonSet')
        ctx.equal([(np.asarray(p).tolist(), tuple(p.metadata)) for p in s], [([list(q) for q in w[0]], w[1:]) for w in want], "polygon set")
    b = case['break']
    lines = [x for x in out if x]
    if b == 'short':
        lines = lines[:-1]
    elif b == 'letters':
        lines[-1] = 'abc' + lines[-1]
    elif b == 'header':
        lines[0] = lines[0].replace('"', '')
    elif b == 'zero':
        lines.append('"a","b",0')
    elif b == 'three':
        lines[-1] += ',7.0'
    else:
        return
    write(lines)
    for ty in ('list', 'PolygonSet'):
        ctx.raises(ValueError, lambda: ReadBNA(path, ty), "a damaged file (%s)" % b)


@st.composite
def ring(draw):
    """a star-shaped polygon: simple, any number of corners"""
    n = draw(st.integers(3, 9))
    cx, cy = draw(grid(-170, 170, 34)), draw(grid(-60, 60, 24))
    r = draw(st.lists(st.floats(0.05, 1.0), min_size=n, max_size=n))
    return [(cx + r[i] * math.cos(2 * math.pi * i / n), cy + r[i] * math.sin(2 * math.pi * i / n)) for i in range(n)]


@facet('C21', fd(rings=st.lists(ring(), min_size=1, max_size=3), rev=st.booleans(), multi=st.booleans(), hole=st.booleans()), quick=400, rule="non-trivial: a polygon of four or more corners")
def triangulation(case, ctx):
    """triangles that polygons are divided into cover them exactly; orientation and areas; points drawn in a triangle lie in it"""
    import numpy as np
    from shapely.geometry import MultiPolygon, Point, Polygon
    from shapely.ops import unary_union
    from gnome.utilities.geometry import is_clockwise
    from gnome.utilities.geometry import geo_routines as g
    rings = [r[::-1] if case['rev'] else r for r in case['rings']]
    ctx.nontrivial(any(len(r) > 3 for r in rings))
    for r in rings:
        ctx.equal(bool(is_clockwise(r)), case['rev'], "is_clockwise")
        ctx.equal(bool(is_clockwise(r[::-1])), not case['rev'], "is_clockwise, reversed")
        ctx.equal(bool(is_clockwise(np.array(r[1:] + r[:1]))), case['rev'], "is_clockwise, rotated")
    ps = []
    for r in rings:
        c = np.mean(r, axis=0)
        hole = [[tuple(c + 0.001 * np.array(d)) for d in ((-1, -1), (1, -1), (0, 1))]] if case['hole'] else []
        p = Polygon(r, hole)
        ps.append(p if p.is_valid else Polygon(r))
    obj = MultiPolygon(ps) if case['multi'] else ps[0]
    if case['multi']:
        assume(obj.is_valid)
    tris = g.triangulate_poly(obj)
    ctx.close(sum(t.area for t in tris), obj.area, "area of the triangles", rtol=1e-6)
    ctx.close(unary_union(tris).area, obj.area, "area covered by the triangles", rtol=1e-6)
    w = g.poly_area_weight(tris)
    ctx.close(sum(w), 1.0, "sum of the weights", rtol=1e-9)
    ctx.close(w, [t.area / obj.area for t in tris], "weights", rtol=1e-5)
    for t in tris:
        if t.area < 1e-9:
            continue
        for _ in range(3):
            q = Point(g.random_pt_in_tri(t))
            ctx.check(t.distance(q) < 1e-9, "point %s drawn in %s", q, t)
    ctx.equal(len(g.mixed_polys_to_polygon([obj] + ps)), len(ps) + (len(ps) if case['multi'] else 1), "mixed_polys_to_polygon")
    a = g.geo_area_of_polygon(ps[0])
    lat = np.radians(np.array(rings[0])[:, 1])
    lo = ps[0].area * np.cos(np.abs(lat).max()) * 110500 ** 2 * 0.98
    hi = ps[0].area * np.cos(np.abs(lat).min() if lat.min() * lat.max() > 0 else 0.0) * 111700 ** 2 * 1.02
    ctx.check(lo <= a <= hi, "area %s m2, expected between %s and %s", a, lo, hi)
