"""C06: elements stay in the water or on the shore, leave only over the map's edge, and are accounted for."""
from datetime import timedelta

from hypothesis import strategies as st

from vlib.engine import facet
from vlib.geo import Poly
from vlib.gen import T0, grid, when, make_wind, wind_spec, write_bna
from vlib.props.c07 import components

BX = 0.2


@st.composite
def coast(draw):
    """land boxes and triangles, perhaps a lake in the first of them, in a box of +-0.2 degrees"""
    land = []
    for _ in range(draw(st.integers(1, 3))):
        x, y = draw(grid(-0.18, 0.1, 14)), draw(grid(-0.18, 0.1, 14))
        w, h = draw(grid(0.02, 0.14, 6)), draw(grid(0.02, 0.3, 7))
        kind = draw(st.sampled_from(['box', 'tri', 'bar']))
        if kind == 'bar':
            w = 0.004
        x1, y1 = min(x + w, 0.19), min(y + h, 0.19)
        pts = [(x, y), (x1, y), (x1, y1), (x, y1)] if kind != 'tri' else [(x, y), (x1, y), (x1, y1)]
        land.append(('1', pts))
    if draw(st.sampled_from([True, True, False])):
        (_, p) = land[0]
        x0, x1 = min(q[0] for q in p), max(q[0] for q in p)
        y0, y1 = min(q[1] for q in p), max(q[1] for q in p)
        if len(p) == 4 and x1 - x0 > 0.03:
            a, b = (x1 - x0) / 3, (y1 - y0) / 3
            land.append(('2', [(x0 + a, y0 + b), (x1 - a, y0 + b), (x1 - a, y1 - b), (x0 + a, y1 - b)]))
    return land


@st.composite
def run_case(draw):
    dt = draw(st.sampled_from([600, 900, 1800, 3600]))
    return {'land': draw(coast()), 'dt': dt, 'n': draw(st.integers(3, 12)), 'raster': draw(st.sampled_from([32 * 32, 64 * 64, 200 * 200])),
            'half': draw(st.sampled_from([-1, 0, 0.1, 1, 6])), 'cur': (draw(grid(-3, 3, 12)), draw(grid(-3, 3, 12)), draw(st.sampled_from([0.0, 0.0, 0.001, -0.002]))),
            'diff': draw(st.sampled_from([0.0, 1e5, 1e6])), 'unc': draw(st.booleans()), 'wind': draw(wind_spec()),
            'bounds': draw(st.sampled_from(['file', 'file', 'tri', 'world'])),
            'at': draw(st.lists(st.tuples(grid(-0.19, 0.19, 19), grid(-0.19, 0.19, 19)), min_size=1, max_size=4)),
            'z': draw(st.sampled_from([0.0, 0.0, 2.0])), 'num': draw(st.integers(1, 8)), 'oil': draw(st.booleans()),
            'rel': draw(st.lists(st.tuples(st.sampled_from([0, 0, 1, 3, 5, 6]), st.sampled_from([0, 0, 2])), min_size=4, max_size=4))}


TRI = [(-0.19, -0.19), (0.19, -0.19), (0.19, 0.19)]


def build(c, tmp):
    import gnome.scripting as gs
    from gnome.movers import SimpleMover
    polys = [('map', [(-BX, -BX), (BX, -BX), (BX, BX), (-BX, BX)])] if c['bounds'] == 'file' else []
    write_bna(tmp + '/coast.bna', polys + c['land'])
    kw = {}
    if c['bounds'] == 'tri':
        kw['map_bounds'] = TRI
    elif c['bounds'] == 'world':
        kw['map_bounds'] = [(-170, -80), (170, -80), (170, 80), (-170, 80)]
    m = gs.MapFromBNA(tmp + '/coast.bna', refloat_halflife=c['half'], raster_size=c['raster'], **kw)
    model = gs.Model(start_time=T0, time_step=c['dt'], duration=timedelta(seconds=c['dt'] * c['n']), map=m, uncertain=c['unc'])
    if any(c['cur']):
        model.movers += SimpleMover(velocity=c['cur'])
    if c['diff']:
        model.movers += gs.RandomMover(diffusion_coef=c['diff'])
    wind = make_wind(c['wind'])
    model.movers += gs.PointWindMover(wind)
    sub = gs.NonWeatheringSubstance()
    for (x, y), (a, b) in zip(c['at'], c['rel']):
        if c['half'] == 0:
            a = b = 0       # (nothing sticks: an element released on land would be afloat when it is first seen)
        t = T0 + timedelta(seconds=a * c['dt'] / 4)
        model.spills += gs.point_line_spill(num_elements=max(c['num'], b + 1) if b else c['num'], start_position=(x, y, c['z']), release_time=t,
                                            end_release_time=t + timedelta(seconds=b * c['dt']), amount=100, units='kg', substance=sub)
    return model, m


@facet('C06', run_case(), quick=220, budget=45,
       rule="whole runs along generated coasts (islands, bars, lakes) with any refloat half-life, map bounds and currents; "
            "non-trivial: elements beached or left the map")
def coast_runs(c, ctx):
    import numpy as np
    model, m = build(c, ctx.tmpdir())
    lab, pad = components(m.raster)

    def region(pos):
        q = m.projection.to_pixel(np.array([pos]), asint=True)[0] + pad
        return int(lab[q[0], q[1]]) if (q >= 0).all() and q[0] < lab.shape[0] and q[1] < lab.shape[1] else int(lab[0, 0])
    prev = {}
    lost = {}
    beached_any = False
    spill_of = {}
    home = np.array([(x, y, c['z']) for x, y in c['at']])
    dry = np.asarray(m.on_land_points(home))
    nums = [s.release.num_elements for s in model.spills]
    while True:
        try:
            model.step()
        except StopIteration:
            break
        k = model.current_time_step
        for j, sc in enumerate(model.spills.items()):
            w = "step %d container %d: " % (k, j)
            pos, stat, last = sc['positions'], sc['status_codes'], sc['last_water_positions']
            n = len(sc)
            old = sc['age'] > 0         # (the others were released in the second half of this step: they did not move yet)
            for i in np.where(old)[0]:
                key, s = (j, int(sc['id'][i])), int(sc['spill_num'][i])
                if key not in prev:     # released in the first half of this step
                    prev[key] = (3 if dry[s] else 2, home[s].copy(), home[s].copy(), bool(dry[s]))
            ctx.check(np.isfinite(pos).all(), w + "positions %s", pos)
            ctx.check((pos[:, 2] >= 0).all(), w + "above the surface: %s", pos[:, 2])
            if old.any():
                ctx.check(m.on_map(pos[old]).all(), w + "element outside the map was kept")
            on = np.asarray(m.on_land_points(pos)) if n else np.zeros(0, bool)
            beach = stat == 3
            ctx.check(((stat == 2) | (stat == 3)).all(), w + "status %s", stat)
            if c['half'] == 0:      # nothing sticks, not even elements released on land
                on &= ~np.array([prev[(j, int(i))][3] if (j, int(i)) in prev else False for i in sc['id']], bool)
                beach &= on
            ctx.check(not (on & ~beach).any(), w + "elements in the water are on land: %s", pos[on & ~beach][:3])
            ctx.check(not (beach & ~on).any(), w + "beached elements are in the water: %s", pos[beach & ~on][:3])
            if c['half'] == 0 and k > 0:
                # without sticking only elements released on land can be there
                ctx.check(all(prev.get((j, int(i)), (3,))[0] == 3 for i in sc['id'][beach]), w + "beached with half-life 0")
            beached_any |= bool(beach.any())
            if k > 0 and c['half'] != 0:
                ctx.close(sc.mass_balance['beached'], sc['mass'][beach & old].sum(), w + "beached mass", rtol=1e-9, atol=1e-9)
            seen = set()
            for i in range(n):
                key = (j, int(sc['id'][i]))
                seen.add(key)
                spill_of[key] = int(sc['spill_num'][i])
                p = pos[i].copy()
                wet = p if stat[i] == 2 else last[i].copy()
                if key in prev:
                    s0, p0, wet0, born = prev[key]
                    if s0 == 3 and c['half'] < 0:
                        # (released on land: moved to the centre of its pixel)
                        tol = 0.02 if born else 1e-9
                        ctx.check(stat[i] == 3 and np.abs(p - p0)[:2].max() < tol, w + "element %d moved on land: %s -> %s", key[1], p0, p)
                    if not born:
                        ctx.check(region(wet) == region(wet0), w + "element %d went from water %s to water %s through land", key[1], wet0, wet)
                    else:
                        ctx.check((stat[i] == 3 or c['half'] == 0) and np.abs(p - p0)[:2].max() < 0.02, w + "released on land, went from %s to %s", p0, p)
                else:
                    born = stat[i] == 3
                if stat[i] == 3 and not born:
                    ctx.check(not m.on_land_points(last[i:i + 1])[0], w + "last water position %s of %d is on land", last[i], key[1])
                    a = m.projection.to_pixel(np.array([p, last[i]]), asint=True)
                    ctx.check(np.abs(a[0] - a[1]).max() <= 1, w + "beached at pixel %s, last water pixel %s", a[0], a[1])
                prev[key] = (int(stat[i]), p, wet, born)
            gone = [x for x in prev if x[0] == j and x not in seen]
            for x in gone:
                lost[x] = spill_of[x]
                s0, p0, wet0, born = prev.pop(x)
                # (released on land: moved to the centre of its pixel, which may be outside)
                centre = m.projection.to_lonlat(m.projection.to_pixel(p0[None, :2].copy(), asint=True))
                both = np.array([p0, [centre[0][0], centre[0][1], 0.0]])
                ctx.check(not born or not m.on_map(both).all(), w + "an element released on land left the map")
            mass = sum(100.0 / nums[s] for x, s in lost.items() if x[0] == j)
            if k > 0:
                # an element may leave in the step that released it: it is never seen
                late = model.model_time < max(s.end_release_time for s in model.spills)
                off = sc.mass_balance['off_maps']
                ctx.check(mass - 1e-9 <= off <= 100.0 * len(nums) + 1e-9, w + "off-map mass %s, %s were seen to leave", off, mass)
                if not late:
                    ctx.close(off, 100.0 * len(nums) - sc['mass'].sum(), w + "off-map mass", rtol=1e-9, atol=1e-6)
    ctx.nontrivial(beached_any or lost)
    ctx.label('half %s' % c['half'], c['bounds'], 'beached' if beached_any else 'afloat', 'left' if lost else 'stayed')


@st.composite
def refloat_case(draw):
    return {'half': draw(st.sampled_from([-2, 0, 0.05, 0.5, 1, 3, 12, 100])), 'dt': draw(st.sampled_from([60, 600, 900, 3600, 21600])),
            'n': draw(st.sampled_from([10, 1500])), 'mixed': draw(st.booleans())}


@facet('C06', refloat_case(), quick=120,
       rule="refloating of thousands of beached elements; the refloated fraction must match 1 - 0.5**(dt/halflife) within 6 standard deviations; non-trivial: 1500 elements and 0 < p < 1")
def refloating(c, ctx):
    import numpy as np
    from gnome.maps.map import RasterMap
    from gnome.utilities.projections import NoProjection
    n = c['n']
    m = RasterMap(raster=np.zeros((20, 20), np.uint8), projection=NoProjection(), refloat_halflife=c['half'])
    ctx.close(m.refloat_halflife, c['half'], "half-life in hours")
    stat = np.full(n, 3, np.int16)
    if c['mixed']:
        stat[::3] = 2
    pos = np.random.RandomState(4).random_sample((n, 3))
    last = np.random.RandomState(5).random_sample((n, 3)) + 5
    sc = {'positions': pos.copy(), 'status_codes': stat.copy(), 'last_water_positions': last.copy()}
    m.refloat_elements(sc, c['dt'])
    was = stat == 3
    now = was & (sc['status_codes'] == 2)
    ctx.check((sc['status_codes'][~was] == 2).all() and np.array_equal(sc['positions'][~was], pos[~was]), "elements afloat were touched")
    ctx.check(np.array_equal(sc['positions'][now], last[now]), "refloated elements start at their last water position")
    stay = was & ~now
    ctx.check((sc['status_codes'][stay] == 3).all() and np.array_equal(sc['positions'][stay], pos[stay]), "elements that stay on land")
    p = 0.0 if c['half'] < 0 else 1.0 if c['half'] == 0 else 1 - 0.5 ** (c['dt'] / (c['half'] * 3600.0))
    k, tot = int(now.sum()), int(was.sum())
    if p in (0.0, 1.0):
        ctx.equal(k, int(tot * p), "refloated")
    elif n > 100:
        sd = (tot * p * (1 - p)) ** 0.5
        ctx.check(abs(k - tot * p) <= 6 * sd + 1, "%d of %d refloated, expected %.1f +- %.1f", k, tot, tot * p, sd)
        ctx.nontrivial()


@st.composite
def bna_case(draw):
    c = {'land': draw(coast()), 'raster': draw(st.sampled_from([100 * 100, 200 * 200, 300 * 300])),
         'lon': draw(st.sampled_from([0, 0, -100, 179.95, -179.95, 200])), 'lat': draw(st.sampled_from([0, 40, -60])),
         'shift': draw(st.sampled_from([0, 0, 180, 360])), 'spillable': draw(st.integers(0, 2)), 'bounds': draw(st.booleans())}
    return c


@facet('C06', bna_case(), quick=200,
       rule="BNA coasts anywhere on the globe, with and without longitude shift, spillable area and bounds; points well away from every polygon edge; "
            "non-trivial: points on land, in a lake and in the water were all tested")
def coast_files(c, ctx):
    import numpy as np
    import gnome.scripting as gs
    tmp = ctx.tmpdir()
    land = [(k, [(x + c['lon'], y + c['lat']) for x, y in p]) for k, p in c['land']]
    box = [(-BX + c['lon'], -BX + c['lat']), (BX + c['lon'], -BX + c['lat']), (BX + c['lon'], BX + c['lat']), (-BX + c['lon'], BX + c['lat'])]
    spill = [[(-0.15 + c['lon'], -0.15 + c['lat']), (0.15 + c['lon'], -0.15 + c['lat']), (0.15 + c['lon'], 0.15 + c['lat'])],
             [(-0.15 + c['lon'], -0.1 + c['lat']), (0.1 + c['lon'], 0.15 + c['lat']), (-0.15 + c['lon'], 0.15 + c['lat'])]][:c['spillable']]
    write_bna(tmp + '/c.bna', ([('map', box)] if c['bounds'] else []) + [('spill', p) for p in spill] + land)

    def sh(x):
        if c['shift'] == 360:
            return x + 360 if x < 0 else x
        if c['shift'] == 180:
            return x - 360 if x > 180 else x
        return x
    paths = [(k, Poly([(sh(x), y) for x, y in p])) for k, p in land]
    xs = [x for _, p in paths for x, _ in p.pts]
    if max(xs) - min(xs) > 10:
        return          # the shift tore the coast apart at the date line: nothing sensible to rasterise
    m = gs.MapFromBNA(tmp + '/c.bna', raster_size=c['raster'], shift_lons=c['shift'])
    ctx.close(np.concatenate([p.points for p in m.land_polys])[:, 0], np.array(xs), "longitudes of the shoreline", atol=1e-6)
    ctx.equal(len(m.land_polys), len(land), "polygons")
    n = 0
    kinds = set()
    pix = max((max(xs) - min(xs)) / m.raster.shape[0],
              (max(y for _, p in paths for _, y in p.pts) - min(y for _, p in paths for _, y in p.pts)) / m.raster.shape[1])
    tol = 2.5 * pix
    bpath = Poly([(sh(x), y) for x, y in box])
    spaths = [Poly([(sh(x), y) for x, y in p]) for p in spill]
    for i in range(25):
        for j in range(25):
            x, y = c['lon'] - BX * 1.1 + i * BX * 2.2 / 24, c['lat'] - BX * 1.1 + j * BX * 2.2 / 24
            q = (sh(x), y)

            def edge(path):
                return path.contains(q), path.dist(q) < tol
            r = [(k,) + edge(p) for k, p in paths]
            if any(e for _, _, e in r):
                continue
            on = False
            for k, inside, _ in r:
                if inside:
                    on = k == '1'
            got = bool(m.on_land((q[0], q[1], 0.0)))
            ctx.check(got == on, "point %s: on_land %s, polygons say %s", q, got, on)
            ctx.equal(bool(m.on_land_points(np.array([(q[0], q[1], 0.0)]))[0]), on, "on_land_points at %s" % (q,))
            n += 1
            kinds.add('land' if on else 'lake' if any(i for _, i, _ in r) else 'water')
            if c['bounds']:
                inside, e = edge(bpath)
                if not e:
                    ctx.equal(bool(np.all(m.on_map((q[0], q[1], 0.0)))), inside, "on_map at %s" % (q,))
                    ctx.equal(bool(np.all(m.in_water((q[0], q[1], 0.0)))), inside and not on, "in_water at %s" % (q,))
                    es = [edge(p) for p in spaths]
                    if not any(e for _, e in es):
                        ok = inside and not on and (any(i for i, _ in es) or not spaths)
                        ctx.equal(bool(m.allowable_spill_position((q[0], q[1], 0.0))), ok, "allowable spill position %s" % (q,))
    ctx.nontrivial({'land', 'water'} <= kinds)
    ctx.label(*kinds)


@st.composite
def edge_case(draw):
    n = draw(st.integers(3, 7))
    import math
    poly = []
    for i in range(n):
        r = draw(grid(0.05, 0.2, 6))
        poly.append((round(r * math.cos(2 * math.pi * i / n), 5), round(r * math.sin(2 * math.pi * i / n), 5)))
    return {'poly': poly, 'moves': draw(st.lists(st.tuples(grid(-0.25, 0.25, 50), grid(-0.25, 0.25, 50)), min_size=1, max_size=12)),
            'rev': draw(st.booleans())}


@facet('C06', edge_case(), quick=500, rule="maps with star-shaped polygonal bounds, elements moved across them; non-trivial: some left and some stayed")
def map_edge(c, ctx):
    import numpy as np
    from gnome.maps import GnomeMap
    poly = c['poly'][::-1] if c['rev'] else c['poly']
    m = GnomeMap(map_bounds=poly)
    n = len(c['moves'])
    nxt = np.array([(x, y, -1.0) for x, y in c['moves']])

    class SC(dict):
        pass
    sc = SC(positions=np.zeros((n, 3)), next_positions=nxt.copy(), status_codes=np.full(n, 2, np.int16), mass=np.arange(1.0, n + 1))
    sc.mass_balance = {'beached': 0.0, 'off_maps': 3.0}
    m.beach_elements(sc)
    path = Poly(poly)
    ins, sure = [], []
    for x, y in c['moves']:
        ins.append(path.contains((x, y)))
        sure.append(path.dist((x, y)) > 1e-9)
    for i in range(n):
        if sure[i]:
            ctx.equal(int(sc['status_codes'][i]), 2 if ins[i] else 7, "status of the element moved to %s in %s" % (c['moves'][i], poly))
    ctx.check(np.array_equal(sc['next_positions'][:, :2], nxt[:, :2]), "positions changed")
    ctx.check((sc['next_positions'][:, 2] == 0).all(), "airborne elements were not put on the surface")
    ctx.close(sc.mass_balance['off_maps'], 3.0 + sc['mass'][sc['status_codes'] == 7].sum(), "off-map mass")
    (l, b), (r, t) = m.get_map_bounding_box()
    xs, ys = [p[0] for p in poly], [p[1] for p in poly]
    ctx.equal((l, b, r, t), (min(xs), min(ys), max(xs), max(ys)), "bounding box")
    k = sum(1 for i in range(n) if sure[i] and ins[i])
    ctx.nontrivial(0 < k < n)


@st.composite
def flat_case(draw):
    dt = draw(st.sampled_from([600, 900, 1800]))
    n = draw(st.integers(4, 12))
    a = draw(st.integers(0, n))
    return {'dt': dt, 'n': n, 'dry': (a * dt // 2, (a + draw(st.integers(1, n))) * dt // 2), 'u': draw(grid(-1, 1, 10)),
            'v': draw(grid(-1, 1, 10)), 'num': draw(st.integers(1, 4)), 'flat': draw(st.sampled_from([0.002, 0.02, 0.05, 0.05])), 'unc': draw(st.booleans())}


@facet('C06', flat_case(), quick=120, rule="elements drifting over a tide flat that dries and floods; non-trivial: elements were held by the dry flat and released")
def tide_flats(c, ctx):
    import numpy as np
    import gnome.scripting as gs
    from gnome.basic_types import oil_status
    from gnome.maps import GnomeMap
    from gnome.maps.tideflat_map import TideflatMap, SimpleTideflat
    from gnome.movers import SimpleMover
    f = c['flat']
    flat = SimpleTideflat([(-f, -f), (f, -f), (f, f), (-f, f)], when(c['dry'][0]), when(c['dry'][1]))
    m = TideflatMap(GnomeMap(), flat)
    model = gs.Model(start_time=T0, time_step=c['dt'], duration=timedelta(seconds=c['dt'] * c['n']), map=m, uncertain=c['unc'])
    model.movers += SimpleMover(velocity=(c['u'], c['v'], 0), uncertainty_scale=0.0)
    model.spills += gs.point_line_spill(num_elements=c['num'], start_position=(0.0005, 0.0002, 0), release_time=T0)
    prev = None
    held = freed = 0
    for k in range(c['n'] + 1):
        model.step()
        t0 = (k - 1) * c['dt']          # the flat is looked up with the time at the start of the step
        for j, sc in enumerate(model.spills.items()):
            for i in range(len(sc)):
                x, y, _ = sc['positions'][i]
                s = int(sc['status_codes'][i])
                inside = abs(x) < f and abs(y) < f
                dry = c['dry'][0] <= t0 <= c['dry'][1] and k > 0
                if min(abs(abs(x) - f), abs(abs(y) - f)) < 1e-9:
                    continue
                want = oil_status.on_tideflat if (inside and dry) else oil_status.in_water
                ctx.equal(s, want, "step %d: status at %s, flat dry %s, inside %s" % (k, (x, y), dry, inside))
                if prev is not None:
                    px, py, ps = prev[j][i]
                    moved = (x, y) != (px, py)
                    if ps == oil_status.on_tideflat and s == oil_status.on_tideflat and dry:
                        ctx.check(not moved, "step %d: an element on the dry flat moved", k)
                        held += 1
                    elif ps == oil_status.on_tideflat:
                        freed += 1
                    elif (c['u'], c['v']) != (0, 0):
                        ctx.check(moved, "step %d: an element in the water did not move", k)
        prev = [[(float(sc['positions'][i][0]), float(sc['positions'][i][1]), int(sc['status_codes'][i])) for i in range(len(sc))]
                for sc in model.spills.items()]
    ctx.nontrivial(held and freed)
