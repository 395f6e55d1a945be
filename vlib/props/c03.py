"""C03: releases put the right number, mass and positions of elements into the model at the right times."""
import math
from datetime import timedelta

from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import T0, grid, when, OILS, MASS_UNITS, VOL_UNITS

LON, LAT = grid(-179, 179, 90), grid(-80, 80, 60)


@st.composite
def plan(draw, kinds=('point', 'line', 'custom', 'perstep')):
    dt = draw(st.sampled_from([60, 300, 900, 1000, 3600, 7]))
    n = draw(st.integers(1, 9))
    kind = draw(st.sampled_from(kinds))
    rel = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 8, 11])) * dt // 4
    dur = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6, 9, 16, 40])) * dt // 4
    steps = max(1, math.ceil(dur / dt))
    c = {'dt': dt, 'n': n, 'kind': kind, 'rel': rel, 'dur': dur,
         'num': draw(st.integers(steps, steps + 40)), 'mass': draw(st.sampled_from([0.0, 1.0, 300.5, 1e6])),
         'a': (draw(LON), draw(LAT), draw(st.sampled_from([0.0, 0.0, 5.0, 100.0]))),
         'unc': draw(st.booleans()), 'how': draw(st.sampled_from(['given', 'given', 'helper', 'edited', 'rerun']))}
    c['b'] = c['a'] if kind != 'line' else (draw(LON), draw(LAT), draw(st.sampled_from([0.0, 5.0, 100.0])))
    if kind == 'custom':
        c['pts'] = draw(st.lists(st.tuples(LON, LAT, st.sampled_from([0.0, 3.0])), min_size=1, max_size=5))
    if kind == 'perstep':
        c['num'] = draw(st.integers(1, 7))
    return c


def frac_released(c, t):
    """fraction of the release complete t seconds after the model start: equal shares per time step of the
    release (counted from the release time), uniform inside each, the last share ending at the end of the release"""
    t = t - c['rel']
    if t < 0:
        return 0.0
    if c['dur'] == 0 or t >= c['dur']:
        return 1.0
    k = max(1, math.ceil(c['dur'] / c['dt']))
    i = min(int(t // c['dt']), k - 1)
    lo, hi = i * c['dt'], c['dur'] if i == k - 1 else (i + 1) * c['dt']
    return (i + (t - lo) / (hi - lo)) / k


def build(c, **kw):
    import gnome.scripting as gs
    from gnome.spills import Spill
    from gnome.spills.release import Release, PointLineRelease
    if c['how'] in ('edited', 'rerun'):
        return build_edited(c, **kw)
    if c['how'] == 'helper' and c['kind'] != 'perstep' and not (c['kind'] == 'custom' and c['dur']):
        return build_helper(c, **kw)
    args = dict(release_time=when(c['rel']), release_mass=c['mass'])
    if c['dur']:
        args['end_release_time'] = when(c['rel'] + c['dur'])
    if c['kind'] == 'perstep':
        args['num_per_timestep'] = c['num']
    else:
        args['num_elements'] = c['num']
    if c['kind'] == 'custom':
        rel = Release(custom_positions=c['pts'], **args)
    elif c['kind'] == 'line':
        rel = PointLineRelease(start_position=c['a'], end_position=c['b'], **args)
    else:
        rel = PointLineRelease(start_position=c['a'], **args)
    spill = Spill(release=rel, amount=c['mass'], units='kg', substance=gs.NonWeatheringSubstance())
    model = gs.Model(start_time=T0, time_step=c['dt'], duration=timedelta(seconds=c['dt'] * c['n']),
                     uncertain=c['unc'], **kw)
    model.spills += spill
    return model, spill


def finish(c, spill, **kw):
    import gnome.scripting as gs
    model = gs.Model(start_time=T0, time_step=c['dt'], duration=timedelta(seconds=c['dt'] * c['n']), uncertain=c['unc'], **kw)
    model.spills += spill
    return model, spill


def build_helper(c, **kw):
    """the same release made by the helper functions"""
    import gnome.scripting as gs
    from gnome.spills import spatial_release_spill, surface_point_line_spill
    args = dict(release_time=when(c['rel']), amount=c['mass'], units='kg', substance=gs.NonWeatheringSubstance())
    if c['kind'] == 'custom':
        spill = spatial_release_spill(start_positions=c['pts'], **args)
        spill.num_elements = c['num']           # the helper has no argument for it
        return finish(c, spill, **kw)
    if c['dur']:
        args['end_release_time'] = when(c['rel'] + c['dur'])
    if c['kind'] == 'line':
        args['end_position'] = c['b']
    if c['a'][2] == c['b'][2] == 0:
        if c['kind'] == 'line':
            args['end_position'] = c['b'][:2]
        return finish(c, surface_point_line_spill(c['num'], c['a'][:2], **args), **kw)
    return finish(c, gs.point_line_spill(c['num'], c['a'], **args), **kw)


def build_edited(c, **kw):
    """the same release made by editing another one, in 'rerun' after it has run for some steps"""
    import gnome.scripting as gs
    from gnome.spills import Spill
    from gnome.spills.release import PointLineRelease, Release
    per = c['kind'] == 'perstep'
    args = dict(release_time=when(c['dt']), end_release_time=when(3 * c['dt']), release_mass=5.0)
    args['num_elements' if per else 'num_per_timestep'] = 9
    if c['kind'] == 'custom':
        rel = Release(custom_positions=[(1.0, 1.0, 0.0)], **args)
    else:
        rel = PointLineRelease(start_position=(1.0, 2.0, 0.0), end_position=(2.0, 3.0, 0.0), **args)
    spill = Spill(release=rel, amount=2.0, units='kg', substance=gs.NonWeatheringSubstance())
    model, spill = finish(c, spill, **kw)
    if c['how'] == 'rerun':
        for k in range(min(3, c['n'])):
            model.step()
    rel.end_release_time = None
    if c['dt'] % 2:
        spill.release_time = when(c['rel'])
    else:
        rel.release_time = when(c['rel'])
    if c['dur']:
        rel.end_release_time = when(c['rel'] + c['dur'])
    if per:
        rel.num_per_timestep = c['num']
    elif c['dt'] % 2:
        spill.num_elements = c['num']
    else:
        rel.num_elements = c['num']
    if c['kind'] == 'custom':
        rel.custom_positions = c['pts']
    else:
        rel.start_position = c['a']
        rel.end_position = c['b'] if c['kind'] == 'line' else None
    spill.amount = c['mass']
    model.rewind()
    return model, spill


@facet('C03', plan(), quick=600,
       rule="point, line, custom-position and per-time-step releases of any start, length and size in a model without movers; "
            "non-trivial: elements were released during the run in more than one batch or off a step boundary")
def schedule_mass_position(c, ctx):
    import numpy as np
    model, spill = build(c)
    total = c['num'] if c['kind'] != 'perstep' else c['num'] * max(1, math.ceil(c['dur'] / c['dt']))
    prev = 0
    batches = 0
    for k in range(c['n'] + 1):
        model.step()
        t = k * c['dt']
        phi = frac_released(c, t)
        counts = []
        for sc in model.spills.items():
            counts.append(sc.num_released)
            got = sc.num_released
            ctx.check(abs(got - total * phi) < 1 + 1e-9, "t=%s s: %s elements released, expected about %s of %s",
                      t, got, total * phi, total)
            if t < c['rel']:
                ctx.equal(got, 0, "elements before the release time")
            if t >= c['rel'] + c['dur']:
                ctx.equal(got, total, "elements after the end of the release")
            if got:
                ctx.close(sc['mass'], c['mass'] / total, "mass per element", rtol=1e-12)
                ctx.close(sc['init_mass'], c['mass'] / total, "initial mass per element", rtol=1e-12)
                pos = np.asarray(sc['positions'])
                if c['kind'] == 'custom':
                    pts = np.asarray(c['pts'])
                    for p in pos:
                        ctx.check((np.abs(pts - p).max(axis=1) < 1e-12).any(), "position %s not in %s", p, pts)
                else:
                    a, b = np.asarray(c['a']), np.asarray(c['b'])
                    d = b - a
                    if not d.any():
                        ctx.close(pos, np.broadcast_to(a, pos.shape), "positions of a point release", atol=1e-9)
                    else:
                        j = int(np.argmax(np.abs(d)))
                        s = (pos[:, j] - a[j]) / d[j]
                        ctx.check((s >= -1e-9).all() and (s <= 1 + 1e-9).all(), "off the line's ends: %s", s)
                        ctx.close(pos, a + s[:, None] * d, "positions on the line", atol=1e-9)
                        if c['dur'] == 0:
                            want = np.linspace(0, 1, got) if got > 1 else np.zeros(1)
                            ctx.close(np.sort(s), want, "instantaneous line release is evenly spread", atol=1e-9)
                        else:
                            # nothing is released ahead of or behind the moving source
                            new = s[prev:]
                            lo, hi = frac_released(c, t - c['dt']), phi
                            ctx.check((new >= lo - 1e-9).all() and (new <= hi + 1e-9).all(),
                                      "t=%s: new elements at %s, source moved from %s to %s", t, new, lo, hi)
        ctx.equal(len(set(counts)), 1, "forecast and uncertain containers released the same number")
        ctx.check(counts[0] >= prev, "elements disappeared without movers")
        batches += counts[0] > prev
        prev = counts[0]
    ctx.nontrivial(batches > 1 or (prev and c['rel'] % c['dt'] != 0))
    ctx.label(c['kind'], 'continuous' if c['dur'] else 'instantaneous')


@st.composite
def poly_case(draw):
    n = draw(st.integers(1, 4))
    polys = []
    for i in range(n):
        x, y = 3 * i + draw(grid(0, 1, 4)), draw(grid(-2, 2, 8))
        w, h = draw(grid(0.1, 1, 9)), draw(grid(0.1, 1, 9))
        kind = draw(st.sampled_from(['box', 'tri', 'L', 'hole', 'multi']))
        if kind == 'box':
            p = [[(x, y), (x + w, y), (x + w, y + h), (x, y + h)]]
        elif kind == 'tri':
            p = [[(x, y), (x + w, y), (x + w / 2, y + h)]]
        elif kind == 'L':
            p = [[(x, y), (x + w, y), (x + w, y + h / 3), (x + w / 3, y + h / 3), (x + w / 3, y + h), (x, y + h)]]
        elif kind == 'hole':
            p = [[(x, y), (x + w, y), (x + w, y + h), (x, y + h)],
                 [(x + w / 4, y + h / 4), (x + w / 4, y + 3 * h / 4), (x + 3 * w / 4, y + 3 * h / 4), (x + 3 * w / 4, y + h / 4)]]
        else:
            p = [[(x, y), (x + w, y), (x + w, y + h)], 'multi', [(x, y + 1.5), (x + w, y + 1.5), (x + w, y + h + 1.5)]]
        polys.append(p)
    mode = draw(st.sampled_from(['area', 'weights', 'thickness']))
    vals = [draw(st.integers(0, 5)) for _ in range(n)]
    if not any(vals):
        vals[0] = 1
    return {'polys': polys, 'mode': mode, 'vals': vals, 'via': draw(st.sampled_from(['given', 'given', 'set', 'rerun', 'file', 'nesdis'])),
            'crs': draw(st.sampled_from([4326, 3857])), 'stamp': (draw(st.integers(1, 12)), draw(st.integers(1, 28)), draw(st.integers(0, 23)), draw(st.integers(0, 59))),
            'asfmt': draw(st.sampled_from(['%02d%02d', '%02d:%02d UTC', None])), 'num': draw(st.sampled_from([1, 7, 300, 600])),
            'mass': draw(st.sampled_from([0.0, 55.0]))}


def shapely_poly(p):
    import shapely.geometry as sg
    if 'multi' in p:
        return sg.MultiPolygon([sg.Polygon(q) for q in p if q != 'multi'])
    return sg.Polygon(p[0], p[1:])


def from_file(c, ctx, shapes, kw, common):
    """the polygons from a zipped shapefile, in degrees or in web mercator metres; NESDIS files tell the oil's thickness and time"""
    import os
    import zipfile
    import geopandas as gpd
    from datetime import datetime
    from gnome.spills.release import NESDISRelease, PolygonRelease
    d = ctx.tmpdir()
    cols, start = {'k': list(range(len(shapes)))}, T0
    if c['via'] == 'nesdis':
        cols['OILTYPE'] = ['Thick' if v % 2 else 'Thin' for v in c['vals']]
        if c['asfmt']:
            mo, da, h, mi = c['stamp']
            cols['DATE'] = ['%02d/%02d/2021' % (mo, da)] * len(shapes)
            cols['TIME'] = [c['asfmt'] % (h, mi)] * len(shapes)
            start = datetime(2021, mo, da, h, mi)
    elif 'weights' in kw:
        cols['weight'] = kw['weights']
    elif 'thicknesses' in kw:
        cols['thickness'] = kw['thicknesses']
    frame = gpd.GeoDataFrame(cols, geometry=shapes, crs='EPSG:4326').to_crs(c['crs'])
    os.mkdir(os.path.join(d, 'shp'))
    frame.to_file(os.path.join(d, 'shp', 'spill.shp'), engine='pyogrio')
    path = os.path.join(d, 'spill.zip')
    with zipfile.ZipFile(path, 'w') as z:
        for f in sorted(os.listdir(os.path.join(d, 'shp'))):
            z.write(os.path.join(d, 'shp', f), f)
    if c['via'] == 'nesdis':
        rel = NESDISRelease(filename=path, release_time=T0, **common)
        ctx.equal(rel.release_time, start, "release time of a NESDIS file (given: %s)" % c['asfmt'])
    else:
        rel = PolygonRelease(filename=path, release_time=T0, **common)
    return rel, start


@facet('C03', poly_case(), quick=160,
       rule="polygons with holes, concave, multi-part, given, edited or from (NESDIS) shapefiles; area, weight or thickness weighting; non-trivial: more than one polygon")
def polygons(c, ctx):
    import numpy as np
    import gnome.scripting as gs
    import shapely
    from gnome.spills import Spill
    from gnome.spills.release import PolygonRelease
    shapes = [shapely_poly(p) for p in c['polys']]
    kw = {}
    tot = float(sum(c['vals']))
    if c['mode'] == 'weights':
        kw['weights'] = [v / tot for v in c['vals']]
    elif c['mode'] == 'thickness':
        kw['thicknesses'] = [v * 1e-4 for v in c['vals']]
    common = dict(num_elements=c['num'], release_mass=c['mass'])
    start = T0
    if c['via'] in ('given', 'rerun'):
        rel = PolygonRelease(polygons=shapes, release_time=T0, **kw, **common)
    elif c['via'] == 'set':
        rel = PolygonRelease(polygons=[shapely.box(50 + i, 50, 50.5 + i, 51) for i in range(len(shapes))], release_time=T0, **common)
        rel.polygons = shapes
        for k, v in kw.items():
            setattr(rel, k, v)
    else:
        rel, start = from_file(c, ctx, shapes, kw, common)
    ctx.equal(len(rel.polygons), len(shapes), "number of polygons")
    for got, want in zip(rel.polygons, shapes):
        # polygons are kept as geojson with six decimals
        ctx.check(got.symmetric_difference(want).area <= 1e-6 * want.area + 2e-6 * want.length, "polygon %s was kept as %s", want, got)
    for name, other in (('weights', 'thicknesses'), ('thicknesses', 'weights')):
        v = getattr(rel, name)
        if c['via'] != 'nesdis':
            ctx.check(v is None if name not in kw else np.allclose(v, kw[name], rtol=1e-9, atol=1e-12), "%s: %s, given %s", name, v, kw.get(name))
        if v is not None:
            ctx.raises(ValueError, lambda: setattr(rel, other, [1.0] * len(shapes)), "%s set on top of %s" % (other, name))
    model = gs.Model(start_time=start, time_step=900, duration=timedelta(seconds=1800))
    model.spills += Spill(release=rel, amount=c['mass'], units='kg', substance=gs.NonWeatheringSubstance())
    if c['via'] == 'rerun':
        # other weights for a first run
        rel2 = {'weights': [1.0 / len(shapes)] * len(shapes), 'thicknesses': [1e-3] * len(shapes)}
        for k, v in kw.items():
            setattr(rel, k, rel2[k])
        model.step()
        for k, v in kw.items():
            setattr(rel, k, v)
        model.rewind()
    model.step()
    sc = model.spills.items()[0]
    ctx.equal(sc.num_released, c['num'], "number released")
    ctx.close(sc['mass'].sum(), c['mass'], "mass released", rtol=1e-9)
    pos = np.asarray(sc['positions'])
    ctx.check((pos[:, 2] == 0).all(), "polygon releases are at the surface")
    inside = np.array([shapely.intersects_xy(s.buffer(2e-6), pos[:, 0], pos[:, 1]) for s in shapes])
    ctx.check(inside.any(axis=0).all(), "elements outside every polygon: %s", pos[~inside.any(axis=0)][:3])
    got = inside.sum(axis=1)
    if c['via'] == 'nesdis':
        share = np.array([50e-6 if v % 2 else 5e-6 for v in c['vals']]) * np.array(rel.areas)
    elif c['mode'] == 'area':
        share = np.array([s.area for s in shapes])
    elif c['mode'] == 'weights':
        share = np.array(c['vals'], float)
    else:
        share = np.array(c['vals'], float) * np.array(rel.areas)
    share = share / share.sum()
    for g, p in zip(got, share):
        if p == 0:
            ctx.equal(int(g), 0, "elements in a polygon of zero weight")
        sd = math.sqrt(c['num'] * p * (1 - p))
        ctx.check(abs(g - c['num'] * p) <= 7 * sd + 3, "polygon shares %s of %s elements, expected %s", got, c['num'], share * c['num'])
    for s, g in zip(shapes, got):        # uniform inside: the half of the polygon west of its centroid gets its area's share
        if g >= 100:
            x0, y0, x1, y1 = s.bounds
            cx = s.centroid.x
            west = s.intersection(shapely.box(x0 - 1, y0 - 1, cx, y1 + 1)).area / s.area
            m = shapely.intersects_xy(s.buffer(2e-6), pos[:, 0], pos[:, 1])
            k = int((pos[m, 0] <= cx).sum())
            sd = math.sqrt(g * west * (1 - west))
            ctx.check(abs(k - g * west) <= 7 * sd + 3, "%s of %s elements lie west of the centroid, area share %s", k, g, west)
    ctx.nontrivial(len(shapes) > 1)
    ctx.label(c['mode'])


@facet('C03', st.tuples(LON.map(lambda x: x * .9), LAT.map(lambda x: x * .9), grid(0.01, 2, 20), grid(0.01, 2, 20),
                        st.one_of(st.tuples(st.integers(1, 9), st.integers(1, 9)), st.integers(2, 12)),
                        st.integers(0, 5), st.sampled_from([1.0, 77.0])), quick=250,
       rule="grid releases by bounds and resolution; non-trivial: more than one row and column")
def grids(case, ctx):
    import numpy as np
    import gnome.scripting as gs
    lon, lat, w, h, res, late, amount = case
    spill = gs.grid_spill(bounds=((lon, lat), (lon + w, lat + h)), resolution=res, release_time=when(late * 450),
                          amount=amount, units='kg')
    model = gs.Model(start_time=T0, time_step=900, duration=timedelta(seconds=3600))
    model.spills += spill
    for k in range(5):
        model.step()
        sc = model.spills.items()[0]
        n = sc.num_released
        ctx.check((n > 0) == (k * 900 >= late * 450), "grid released at step %s: %s elements", k, n)
    pos = np.asarray(sc['positions'])
    xs, ys = np.unique(pos[:, 0]), np.unique(pos[:, 1])
    ctx.equal(len(xs) * len(ys), n, "the elements form a full grid")
    if isinstance(res, tuple):
        ctx.equal((len(xs), len(ys)), res, "grid resolution")
    else:
        nx, ny = len(xs), len(ys)
        ctx.check(abs(nx * ny - res * res) <= max(nx, ny), "%s x %s points for an average resolution of %s", nx, ny, res)
    for got, lo, hi in ((xs, lon, lon + w), (ys, lat, lat + h)):
        ctx.close(got, np.linspace(lo, hi, len(got)) if len(got) > 1 else [lo], "grid lines", atol=1e-9)
    ctx.close(sc['mass'], amount / n, "mass per element")
    ctx.nontrivial(len(xs) > 1 and len(ys) > 1)


@facet('C03', st.tuples(st.sampled_from(OILS + [None]), st.sampled_from(MASS_UNITS + VOL_UNITS),
                        st.sampled_from(MASS_UNITS + VOL_UNITS), grid(0, 1000, 100)), quick=250,
       rule="amounts in every mass and volume unit; non-trivial: positive amount and different units")
def amounts(case, ctx):
    """the amount of a spill means the same mass whatever the unit it is given or read in"""
    import gnome.scripting as gs
    oil, u1, u2, amt = case
    kg = {'kg': 1.0, 'ton': 907.18474, 'metric ton': 1000.0, 'lb': 0.45359237, 'g': 1e-3}
    m3 = {'m^3': 1.0, 'cubic meter': 1.0, 'bbl': 0.158987294928, 'gal': 0.003785411784, 'L': 1e-3, 'liter': 1e-3,
          'ft^3': 0.028316846592}
    sub = gs.GnomeOil(oil) if oil else gs.NonWeatheringSubstance()
    rho = sub.standard_density
    spill = gs.point_line_spill(num_elements=10, start_position=(0, 0, 0), release_time=T0, substance=sub,
                                amount=amt, units=u1)
    si = lambda u: kg[u] if u in kg else m3[u] * rho      # noqa: E731
    ctx.close(spill.get_mass(), amt * si(u1), "mass of the spill", rtol=1e-5)
    ctx.close(spill.amount, amt, "amount reads back", rtol=1e-9)
    m = spill.get_mass()
    spill.units = u2
    ctx.close(spill.get_mass(), m, "changing the unit keeps the mass", rtol=1e-12)
    ctx.close(spill.amount, m / si(u2), "amount in the new unit", rtol=1e-5)
    spill.amount = amt
    ctx.close(spill.get_mass(), amt * si(u2), "mass after setting the amount", rtol=1e-5)
    # the uncertainty of an amount moves it by up to two thirds, once for each call
    for scale, way, f in ((0.0, 'up', None), (0.3, 'up', 1.2), (0.6, 'down', 0.6), (1.0, 'sideways', None), (1.0, 'up', 5 / 3.0)):
        before = spill.get_mass()
        spill.amount_uncertainty_scale = scale
        ctx.equal(bool(spill.set_amount_uncertainty(way)), f is not None, "amount uncertainty %s %s applied" % (scale, way))
        ctx.close(spill.get_mass(), before * (f or 1.0), "mass with the amount uncertainty %s %s" % (scale, way), rtol=1e-9)
    ctx.raises(ValueError, lambda: setattr(spill, 'amount', -1.0), "negative amount")
    ctx.raises(ValueError, lambda: setattr(spill, 'units', 'm/s'), "speed unit for an amount")
    ctx.nontrivial(amt > 0 and u1 != u2)


@facet('C03', plan(kinds=('point', 'line', 'custom')), quick=120,
       rule="too few elements, reversed times, negative counts, and switched-off spills; non-trivial: continuous release")
def refusals(c, ctx):
    """invalid releases are refused; a spill that is off releases nothing"""
    from gnome.spills.release import PointLineRelease
    steps = max(1, math.ceil(c['dur'] / c['dt']))
    ctx.raises(ValueError, lambda: PointLineRelease(release_time=when(10), end_release_time=when(9), start_position=c['a']),
               "end before start")
    ctx.raises(ValueError, lambda: PointLineRelease(release_time=when(10), num_elements=-1, start_position=c['a']), "negative number")
    rel = PointLineRelease(release_time=when(10), num_elements=3, start_position=c['a'])
    ctx.raises(ValueError, lambda: setattr(rel, 'num_per_timestep', -1), "negative number per time step")
    ctx.raises(ValueError, lambda: setattr(rel, 'num_elements', -1), "negative number set")
    ctx.raises(TypeError, lambda: PointLineRelease(release_time=when(10), num_elements=3, num_per_timestep=2, start_position=c['a']),
               "both numbers given")
    model, spill = build(c)
    if steps > 1:
        spill.num_elements = steps - 1
        ctx.raises(ValueError, model.step, "fewer elements than time steps")
        ctx.nontrivial()
    model, spill = build(dict(c, unc=False))
    spill.on = False
    for _ in range(c['n'] + 1):
        model.step()
        ctx.equal(model.spills.items()[0].num_released, 0, "elements of a spill that is off")
