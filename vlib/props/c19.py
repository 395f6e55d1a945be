"""C19: map projections and vector conversions invert each other and keep their orientation."""
import math

from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import grid


def fd(**kw):
    return st.fixed_dictionaries(kw)


@st.composite
def boxes(draw):
    lon = draw(st.one_of(grid(-180, 170, 140), st.floats(-180, 170)))
    lat = draw(st.one_of(grid(-80, 78, 79), st.floats(-80, 78)))
    w = draw(st.sampled_from([0.01, 0.1, 0.37, 1.0, 3.3, 10.0, 40.0, 150.0]))
    h = draw(st.sampled_from([0.01, 0.1, 0.23, 1.0, 2.7, 8.0]))
    return ((lon, lat), (lon + w, lat + h))


SIZES = st.tuples(st.integers(2, 2000), st.integers(2, 2000))
FRACS = st.lists(st.tuples(st.floats(-0.5, 1.5), st.floats(-0.5, 1.5), st.sampled_from([0.0, 1.0, -3.5, 1e6])), min_size=1, max_size=8)


def make(kind, bb, size):
    from gnome.utilities import projections as p
    return {'geo': p.GeoProjection, 'flat': p.FlatEarthProjection, 'grid': p.RegularGridProjection}[kind](bb, size)


def reference(kind, bb, size):
    """(sx, sy, cx, cy): pixel = (lon - cx) * sx + W/2, (cy - lat) * sy + H/2"""
    (x0, y0), (x1, y1) = bb
    cx, cy = (x0 + x1) / 2, (y0 + y1) / 2
    W, H = size
    if kind == 'grid':
        return W / (x1 - x0), H / (y1 - y0), cx, cy
    k = math.cos(math.radians(cy)) if kind == 'flat' else 1.0
    s = min(W / ((x1 - x0) * k), H / (y1 - y0))
    return s * k, s, cx, cy


@facet('C19', fd(kind=st.sampled_from(['geo', 'flat', 'flat', 'grid']), bb=boxes(), size=SIZES, pts=FRACS,
                 pix=st.lists(st.tuples(st.integers(-5000, 5000), st.integers(-5000, 5000)), min_size=1, max_size=6),
                 form=st.sampled_from(['list3', 'list2', 'array3', 'array2', 'one3', 'one2']), reset=st.booleans(), bb2=boxes(), size2=SIZES),
       quick=1200, rule="non-trivial: image and box have different proportions")
def pixels(case, ctx):
    import numpy as np
    kind, bb, size = case['kind'], case['bb'], case['size']
    p = make(kind, bb, size)
    if case['reset']:          # a projection that was used for another box before
        p = make(kind, case['bb2'], case['size2'])
        p.to_pixel((0.0, 0.0))
        p.set_scale(bb, size)
    sx, sy, cx, cy = reference(kind, bb, size)
    W, H = size
    (x0, y0), (x1, y1) = bb
    ctx.nontrivial(abs((x1 - x0) / (y1 - y0) - W / H) > 0.01)
    ll = [(x0 + a * (x1 - x0), y0 + b * (y1 - y0), z) for a, b, z in case['pts']]
    want = np.array([((x - cx) * sx + W / 2, (cy - y) * sy + H / 2) for x, y, _ in ll])
    form = case['form']
    arg = ll if form == 'list3' else [q[:2] for q in ll] if form == 'list2' else np.array(ll) if form == 'array3' \
        else np.array(ll)[:, :2].copy() if form == 'array2' else ll[0] if form == 'one3' else ll[0][:2]
    if form.startswith('one'):
        want = want[:1]
    keep = np.array(arg, copy=True)
    tol = 1e-7 * (1 + np.abs(want).max()) + 1e-10 * sx * 360
    got = p.to_pixel(arg)
    ctx.equal(got.shape, want.shape, "shape")
    ctx.close(got, want, "to_pixel", rtol=0, atol=tol)
    ctx.check(np.array_equal(np.array(arg), keep), "to_pixel changed the coordinates it was given")
    back_arg = got.copy()
    back = p.to_lonlat(back_arg)
    ctx.close(back, keep.reshape(-1, keep.shape[-1])[:, :2], "to_lonlat(to_pixel(x))", rtol=0, atol=1e-9 * (1 + 360))
    ctx.check(np.array_equal(back_arg, got), "to_lonlat changed the pixel coordinates it was given")
    gi = p.to_pixel(arg, asint=True)
    ctx.check(gi.dtype.kind == 'i', "integer pixels")
    frac = want - np.floor(want)
    sure = (frac > tol) & (frac < 1 - tol)
    ctx.check((gi[sure] == np.floor(want)[sure]).all(), "integer pixels: got %s, expected the floor of %s", gi, want)
    # the centre of a pixel lies in that pixel
    pix = np.array(case['pix'], dtype=np.int32)
    mid = p.to_lonlat(pix)
    ctx.check(np.array_equal(p.to_pixel(mid, asint=True), pix), "centre of pixels %s is in pixels %s", pix.tolist(),
              p.to_pixel(mid, asint=True).tolist())
    ctx.check(np.array_equal(pix, np.array(case['pix'])), "to_lonlat changed its argument")
    # the box fits in the image and touches it; north is up, east is right
    c = p.to_pixel([(x0, y0), (x1, y1)])
    e = 1e-6 * max(W, H)
    ctx.check(c[0][0] >= -e and c[1][0] <= W + e and c[1][1] >= -e and c[0][1] <= H + e, "corners %s outside the image %s", c, size)
    ctx.check(c[0][0] < c[1][0] and c[0][1] > c[1][1], "orientation")
    ctx.check((c[0][0] <= e and c[1][0] >= W - e) or (c[1][1] <= e and c[0][1] >= H - e), "the box does not fill the image: %s %s", c, size)
    m = p.to_pixel(((x0 + x1) / 2, (y0 + y1) / 2))[0]
    ctx.close(m, (W / 2, H / 2), "centre", rtol=0, atol=e)
    ib = np.asarray(p.bounding_box, dtype=float).reshape(2, 2)
    ctx.close(p.to_pixel(ib), [(0, H), (W, 0)], "the corners of the image box", rtol=0, atol=e)


@st.composite
def rect_case(draw):
    nx, ny = draw(st.integers(2, 12)), draw(st.integers(2, 12))
    ds = st.sampled_from([0.01, 0.1, 0.25, 1.0, 2.5])
    lon = [draw(grid(-170, 100, 54))]
    for _ in range(nx - 1):
        lon.append(lon[-1] + draw(ds))
    lat = [draw(grid(-60, 30, 30))]
    for _ in range(ny - 1):
        lat.append(lat[-1] + draw(ds))
    return {'lon': lon, 'lat': lat, 'pts': draw(FRACS), 'pix': draw(st.lists(st.tuples(st.floats(-3, 15), st.floats(-3, 15)), min_size=1, max_size=5))}


@facet('C19', rect_case(), quick=500, rule="non-trivial: a grid with three or more unequal columns")
def rectangular_grids(case, ctx):
    """a grid of unequal rows and columns: piecewise linear, clipped at the edge"""
    import numpy as np
    from gnome.utilities.projections import RectangularGridProjection
    lon, lat = np.array(case['lon']), np.array(case['lat'])
    ctx.nontrivial(len(lon) > 2 and np.ptp(np.diff(lon)) > 1e-6)
    p = RectangularGridProjection(lon, lat)
    ll = np.array([(lon[0] + a * (lon[-1] - lon[0]), lat[0] + b * (lat[-1] - lat[0]), z) for a, b, z in case['pts']])
    want = np.column_stack([np.interp(ll[:, 0], lon, np.arange(len(lon))), len(lat) - 1 - np.interp(ll[:, 1], lat, np.arange(len(lat)))])
    for arg in (ll, ll[:, :2].copy(), ll.tolist()):
        keep = np.array(arg, copy=True)
        got = p.to_pixel(arg)
        ctx.close(got, want, "to_pixel", rtol=1e-9, atol=1e-7)
        ctx.check(np.array_equal(np.array(arg), keep), "to_pixel changed the coordinates it was given")
    g0 = got.copy()
    back = p.to_lonlat(got)
    ctx.check(np.array_equal(got, g0), "to_lonlat changed the pixels it was given")
    ctx.close(back, np.column_stack([np.clip(ll[:, 0], lon[0], lon[-1]), np.clip(ll[:, 1], lat[0], lat[-1])]), "round trip", rtol=0, atol=1e-7)
    px = np.array(case['pix'])
    keep = px.copy()
    got = p.to_lonlat(px)
    w = np.column_stack([np.interp(px[:, 0], np.arange(len(lon)), lon), np.interp(len(lat) - 1 - keep[:, 1], np.arange(len(lat)), lat)])
    ctx.close(got, w, "to_lonlat", rtol=0, atol=1e-7)
    ctx.check(np.array_equal(px, keep), "to_lonlat changed the pixels it was given")
    ip = np.array([(int(abs(x)) % (len(lon) - 1), int(abs(y)) % (len(lat) - 1)) for x, y in case['pix']])
    mid = p.to_lonlat(ip)
    ctx.close(mid, p.to_lonlat(ip + 0.5), "to_lonlat of whole pixels gives their centres", rtol=0, atol=1e-9)
    ctx.check(np.array_equal(p.to_pixel(mid, asint=True), ip), "the centres %s of pixels %s lie in pixels %s", mid, ip, p.to_pixel(mid, asint=True))
    whole = p.to_pixel(ll, asint=True)
    sure = (np.abs(want - np.round(want)) > 1e-6).all(axis=1)
    ctx.check(np.array_equal(whole[sure], np.floor(want)[sure]), "whole pixels of %s: %s, expected %s", ll, whole, want)


R = 6366706.989


@facet('C19', fd(pts=st.lists(st.tuples(st.floats(-180, 180), st.floats(-80, 80), st.floats(0, 100)), min_size=1, max_size=6),
                 d=st.tuples(st.floats(-5e4, 5e4), st.floats(-5e4, 5e4), st.floats(-100, 100)), one=st.booleans(),
                 dist=st.floats(0, 1e7), bearing=st.floats(0, 360)),
       quick=800, rule="non-trivial: a displacement of more than a metre away from the equator")
def metres(case, ctx):
    """displacements in metres and degrees; points at a distance and bearing on the sphere"""
    import numpy as np
    from gnome.utilities.projections import FlatEarthProjection as F
    pts = np.array(case['pts'])
    d = np.tile(np.array(case['d']), (len(pts), 1)) * (1 + np.arange(len(pts)).reshape(-1, 1))
    ctx.nontrivial(abs(pts[0][1]) > 1 and np.abs(d[0][:2]).max() > 1)
    if case['one']:
        pts, d = pts[:1], d[:1]
    kd, kp = d.copy(), pts.copy()
    ll = F.meters_to_lonlat(d[0] if case['one'] else d, pts[0] if case['one'] else pts)
    ctx.check(np.array_equal(d, kd) and np.array_equal(pts, kp), "arguments changed")
    k = 8.9992801e-06
    ctx.close(ll, np.column_stack([d[:, 0] * k / np.cos(np.radians(pts[:, 1])), d[:, 1] * k, d[:, 2]]), "meters_to_lonlat", rtol=1e-12)
    back = F.lonlat_to_meters(ll, pts)
    ctx.close(back, d, "lonlat_to_meters(meters_to_lonlat(d))", rtol=1e-12, atol=1e-7)
    # distances on the sphere
    lon0, lat0 = pts[:, 0], pts[:, 1]
    lon, lat = F.geodesic_sphere(lon0, lat0, case['dist'], case['bearing'])
    a = [np.array([np.cos(np.radians(y)) * np.cos(np.radians(x)), np.cos(np.radians(y)) * np.sin(np.radians(x)), np.sin(np.radians(y))])
         for x, y in ((lon0, lat0), (lon, lat))]
    ang = np.arctan2(np.linalg.norm(np.cross(a[0].T, a[1].T), axis=1), (a[0] * a[1]).sum(axis=0))
    ctx.close(ang * R, np.full(len(lon0), case['dist']), "distance to the point at a given distance", rtol=1e-6, atol=0.2)
    # the first direction of the great circle
    if 1.0 < case['dist'] < 9e6:
        north = np.array([-np.sin(np.radians(lat0)) * np.cos(np.radians(lon0)), -np.sin(np.radians(lat0)) * np.sin(np.radians(lon0)), np.cos(np.radians(lat0))])
        east = np.array([-np.sin(np.radians(lon0)), np.cos(np.radians(lon0)), 0 * lon0])
        b = np.degrees(np.arctan2((a[1] * east).sum(axis=0), (a[1] * north).sum(axis=0)))
        diff = (b - case['bearing'] + 180) % 360 - 180
        ctx.check((np.abs(diff) < 0.01 + 10 / case['dist']).all(), "bearing %s, expected %s", b, case['bearing'])
    # a short hop on the sphere and on the flat earth agree
    small = np.array([[case['d'][0] / 50, case['d'][1] / 50, 0.0]])
    L = math.hypot(*small[0][:2])
    if L > 1:
        ll = F.meters_to_lonlat(small, pts[:1])
        lon, lat = F.geodesic_sphere(lon0[:1], lat0[:1], L, math.degrees(math.atan2(small[0][0], small[0][1])))
        tol = 8.9992801e-06 * (L * L / R * 20 + L * 1e-6) / math.cos(math.radians(lat0[0])) + 1e-9
        ctx.check(abs(lon[0] - lon0[0] - ll[0][0]) < tol and abs(lat[0] - lat0[0] - ll[0][1]) < tol,
                  "a hop of %s m: %s on the sphere, %s on the flat earth", small, (lon[0] - lon0[0], lat[0] - lat0[0]), ll)


@facet('C19', fd(rt=st.lists(st.tuples(st.one_of(st.just(0.0), st.floats(1e-3, 200)), st.one_of(st.floats(0, 360), st.sampled_from([0.0, 45.0, 90.0, 180.0, 270.0, 360.0]))),
                             min_size=1, max_size=8), bad=st.sampled_from(['none', 'angle+', 'angle-', 'r']), secs=st.integers(0, 2 ** 31 - 10 ** 6)),
       quick=600, rule="non-trivial: a vector that is not along an axis")
def vectors(case, ctx):
    """speed and direction of winds (blowing from) and currents (going to), and time series of them"""
    import numpy as np
    from gnome.basic_types import datetime_value_2d, ts_format
    from gnome.utilities import convert, time_utils, transforms as t
    rt = np.array(case['rt'])
    ctx.nontrivial(any(r > 0 and d % 90 for r, d in case['rt']))
    r, th = rt[:, 0], np.radians(rt[:, 1])
    keep = rt.copy()
    for name, sign in (('wind', -1), ('current', 1)):
        to, fro = getattr(t, 'r_theta_to_uv_' + name), getattr(t, 'uv_to_r_theta_' + name)
        uv = to(rt)
        ctx.close(uv, sign * np.column_stack([r * np.sin(th), r * np.cos(th)]), name + " to (u, v)", rtol=1e-9, atol=1e-9)
        ku = uv.copy()
        b = fro(uv)
        ctx.check(np.array_equal(uv, ku) and np.array_equal(rt, keep), "arguments changed")
        ctx.close(b[:, 0], r, name + ": speed", rtol=1e-9, atol=1e-9)
        d = (b[:, 1] - rt[:, 1] + 180) % 360 - 180
        ctx.check((np.abs(d[r > 0]) < 1e-6 / np.minimum(1, r[r > 0])).all(), "%s: direction %s, expected %s", name, b[:, 1], rt[:, 1])
        ctx.check(((b[:, 1] >= 0) & (b[:, 1] < 360.0000001)).all(), "direction in [0, 360]: %s", b)
        if case['bad'] != 'none':
            bad = rt.copy()
            if case['bad'] == 'r':
                bad[-1, 0] = -1e-3
            else:
                bad[-1, 1] = 360.001 if case['bad'] == 'angle+' else -0.001
            ctx.raises(ValueError, lambda: to(bad), "a %s of %s" % (name, bad[-1]))
    ts = np.zeros(len(rt), dtype=datetime_value_2d)
    for i in range(len(rt)):
        ts['time'][i] = np.datetime64(time_utils.sec_to_datetime(case['secs'] + 3600 * i).replace(microsecond=0))
        ts['value'][i] = rt[i]
    pair = convert.to_time_value_pair(ts, ts_format.magnitude_direction)
    ctx.close(np.column_stack([pair['value']['u'], pair['value']['v']]), t.r_theta_to_uv_wind(rt), "time value pairs", rtol=0, atol=0)
    ctx.equal(np.diff(pair['time'].astype(np.int64)).tolist(), [3600] * (len(rt) - 1), "times")
    for fmt in (ts_format.magnitude_direction, ts_format.uv, 'r-theta', 'uv'):
        b = convert.to_datetime_value_2d(pair, fmt)
        ctx.check((b['time'] == ts['time']).all(), "times %s, expected %s", b['time'], ts['time'])
        want = t.r_theta_to_uv_wind(rt) if fmt in (ts_format.uv, 'uv') else t.uv_to_r_theta_wind(t.r_theta_to_uv_wind(rt))
        ctx.close(b['value'], want, "values", rtol=0, atol=0)
        again = convert.to_time_value_pair(b, fmt)
        ctx.close(np.column_stack([again['value']['u'], again['value']['v']]), t.r_theta_to_uv_wind(rt), "round trip", rtol=1e-9, atol=1e-9)
