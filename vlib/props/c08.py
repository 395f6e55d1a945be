"""C08: movers displace each element by the velocity they stand for, and displacements add up."""
import math
import os
from datetime import timedelta

from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import grid, make_wind, when, wind_spec

DEG = 8.9992801e-06      # degrees of latitude per metre (GNOME's flat earth)


class FakeSC(dict):
    """the part of a spill container a mover sees"""
    uncertain = False
    num_released = 0


def container(pos, status, windage=None, rise=None, uncertain=False):
    import numpy as np
    from gnome.basic_types import status_code_type, world_point_type
    sc = FakeSC()
    n = len(pos)
    sc['positions'] = np.array(pos, dtype=world_point_type).reshape(-1, 3)
    sc['status_codes'] = np.array(status, dtype=status_code_type)
    w = np.array(windage if windage is not None else [0.03] * n, dtype=float)
    sc['windages'] = w.copy()
    sc['windage_range'] = np.stack([w, w], axis=1)
    sc['windage_persist'] = np.full((n,), -1, dtype=np.int32)
    sc['rise_vel'] = np.array(rise if rise is not None else [0.0] * n, dtype=float)
    sc.uncertain, sc.num_released = uncertain, n
    return sc


def field_value(f, lon, lat, z, sec):
    """analytic velocity: constant + shear + linear in time, in m/s"""
    u0, v0, ux, uy, vx, vy, ut, vt = f
    h = sec / 3600.0
    return (u0 + ux * lon + uy * lat + ut * h, v0 + vx * lon + vy * lat + vt * h)


def make_field(f):
    import numpy as np
    from gnome.environment.environment import Environment

    class Field(Environment):
        """an environment object with that velocity field"""
        data_start, data_stop, data_file = None, None, None

        def at(self, points, time, **kw):
            p = np.asarray(points, dtype=float).reshape(-1, 3)
            sec = (time - when(0)).total_seconds()
            return np.array([field_value(f, x, y, z, sec) + (0.0,) for x, y, z in p]).reshape(-1, 3)

    return Field(name='field')


def wind_uv(w, sec):
    """reference: piecewise linear in (u, v), clamped outside; direction is where the wind comes from"""
    k = KNOT[w['units']]
    rec = []
    for t, r, d in zip(w['t'], w['r'], w['d']):
        a = math.radians(d)
        rec.append((t, -r * k * math.sin(a), -r * k * math.cos(a)))
    if sec <= rec[0][0]:
        return rec[0][1:]
    if sec >= rec[-1][0]:
        return rec[-1][1:]
    for (t0, u0, v0), (t1, u1, v1) in zip(rec, rec[1:]):
        if t0 <= sec <= t1:
            f = (sec - t0) / (t1 - t0)
            return (u0 + f * (u1 - u0), v0 + f * (v1 - v0))


KNOT = {'m/s': 1.0, 'knots': 1852.0 / 3600.0, 'mph': 0.44704}


def to_deg(dx, dy, lat):
    return (dx * DEG / math.cos(math.radians(lat)), dy * DEG)


def rk(fn, method, lon, lat, z, sec, dt):
    v0 = fn(lon, lat, z, sec)
    if method == 'Euler':
        return (v0[0] * dt, v0[1] * dt)

    def at(v, k, t):
        a, b = to_deg(v[0] * k, v[1] * k, lat)
        return fn(lon + a, lat + b, z, t)
    if method == 'RK2':
        v1 = at(v0, dt, sec + dt)
        return ((v0[0] + v1[0]) * dt / 2, (v0[1] + v1[1]) * dt / 2)
    v1 = at(v0, dt / 2, sec + dt / 2)
    v2 = at(v1, dt / 2, sec + dt / 2)
    v3 = at(v2, dt, sec + dt)
    return tuple((v0[i] + 2 * v1[i] + 2 * v2[i] + v3[i]) * dt / 6 for i in (0, 1))


RANGES = ['always', 'off', 'late', 'early']


@st.composite
def mover_spec(draw, n, dt, kinds=('simple', 'pointwind', 'pywind', 'pycurrent', 'rise', 'steady')):
    m = {'kind': draw(st.sampled_from(kinds)), 'range': draw(st.sampled_from(['always'] * 4 + RANGES))}
    m['from'] = draw(st.integers(0, 4 * n)) * dt // 4
    m['to'] = m['from'] + max(draw(st.integers(1, 4 * n)) * dt // 4, 1)
    if m['kind'] == 'simple':
        m['v'] = (draw(grid(-2, 2, 16)), draw(grid(-2, 2, 16)), draw(st.sampled_from([0.0, 0.0, 0.01, -0.005])))
    elif m['kind'] in ('pointwind', 'pywind'):
        m['wind'] = draw(wind_spec())
    elif m['kind'] == 'pycurrent':
        m['f'] = tuple(draw(grid(-1, 1, 8)) for _ in range(2)) + tuple(draw(grid(-3, 3, 6)) for _ in range(4)) + \
            tuple(draw(grid(-0.5, 0.5, 4)) for _ in range(2))
    elif m['kind'] == 'steady':
        m['speed'], m['dir'] = draw(grid(0, 2, 8)), draw(grid(0, 360, 24))
        m['units'] = draw(st.sampled_from(['m/s', 'knots', 'mph']))
    if m['kind'] in ('pywind', 'pycurrent', 'steady'):
        m['method'] = draw(st.sampled_from(['Euler', 'RK2', 'RK4']))
        m['scale'] = draw(st.sampled_from([1, 1, 0.5, 2.0, -1.0, 0]))
    return m


def make_mover(m):
    from gnome.movers import CurrentMover, PointWindMover, RiseVelocityMover, SimpleMover, WindMover
    from gnome.environment import SteadyUniformCurrent
    kw = {}
    if m['range'] == 'off':
        kw['on'] = False
    elif m['range'] != 'always':
        kw['active_range'] = (when(m['from']), when(m['to']))
    k = m['kind']
    if k == 'simple':
        return SimpleMover(velocity=m['v'], **kw)
    if k == 'pointwind':
        return PointWindMover(make_wind(m['wind']), **kw)
    if k == 'pywind':
        return WindMover(make_wind(m['wind']), default_num_method=m['method'], scale_value=m['scale'], **kw)
    if k == 'pycurrent':
        return CurrentMover(make_field(m['f']), default_num_method=m['method'], scale_value=m['scale'], **kw)
    if k == 'steady':
        return CurrentMover(SteadyUniformCurrent(speed=m['speed'], direction=m['dir'], units=m['units']),
                            default_num_method=m['method'], scale_value=m['scale'], **kw)
    return RiseVelocityMover(**kw)


def is_active(m, sec, dt):
    if m['range'] == 'always':
        return True
    if m['range'] == 'off':
        return False
    return m['from'] <= sec + dt / 2 <= m['to']


def reference(m, p, sec, dt, windage, rise):
    """expected (dlon, dlat, dz) of one floating element"""
    lon, lat, z = p
    k = m['kind']
    if k == 'simple':
        return to_deg(m['v'][0] * dt, m['v'][1] * dt, lat) + (m['v'][2] * dt,)
    if k == 'rise':
        return (0.0, 0.0, -rise * dt)
    if k == 'pointwind':
        if z > 0:
            return (0.0, 0.0, 0.0)
        u, v = wind_uv(m['wind'], sec)
        return to_deg(u * windage * dt, v * windage * dt, lat) + (0.0,)
    if k == 'pywind':
        d = rk(lambda x, y, zz, t: wind_uv(m['wind'], t), m['method'], lon, lat, z, sec, dt)
        return to_deg(d[0] * windage * m['scale'], d[1] * windage * m['scale'], lat) + (0.0,)
    if k == 'pycurrent':
        d = rk(lambda *a: field_value(m['f'], *a), m['method'], lon, lat, z, sec, dt)
        return to_deg(d[0] * m['scale'], d[1] * m['scale'], lat) + (0.0,)
    if k == 'steady':
        s = m['speed'] * KNOT[m['units']] * m['scale'] * dt
        a = math.radians(m['dir'])
        return to_deg(s * math.sin(a), s * math.cos(a), lat) + (0.0,)
    raise ValueError(k)


@st.composite
def run_case(draw):
    dt = draw(st.sampled_from([60, 300, 900, 1800, 3600]))
    n = draw(st.integers(1, 5))
    back = draw(st.sampled_from([False, False, True]))
    kinds = ('simple', 'pointwind', 'pywind', 'pycurrent', 'steady')
    return {'dt': dt, 'n': n, 'back': back, 'unc': draw(st.booleans()),
            'lat': draw(grid(-70, 70, 28)), 'lon': draw(grid(-170, 170, 17)),
            'offs': draw(st.lists(st.tuples(grid(-0.2, 0.2, 8), grid(-0.2, 0.2, 8),
                                            st.sampled_from([0.0, 0.0, 2.0, 15.0])), min_size=1, max_size=4)),
            'windage': draw(st.sampled_from([0.0, 0.01, 0.03, 0.1])),
            'movers': draw(st.lists(mover_spec(n, dt, kinds), min_size=1, max_size=4))}


@facet('C08', run_case(), quick=160,
       rule="whole runs with 1-4 deterministic movers; the path of every forecast element is compared with the sum of reference displacements; non-trivial: at least one active mover displaced an element")
def superposition(c, ctx):
    import numpy as np
    import gnome.scripting as gs
    if c['back']:
        for m in c['movers']:
            m['from'], m['to'] = -m['to'], -m['from']
    if not any(m['kind'] == 'pointwind' for m in c['movers']) and any(m['kind'] == 'pywind' for m in c['movers']):
        pass
    model = gs.Model(start_time=when(0), duration=timedelta(seconds=c['dt'] * c['n']), time_step=c['dt'],
                     uncertain=c['unc'], run_backwards=c['back'])
    sub = gs.NonWeatheringSubstance(windage_range=(c['windage'], c['windage']), windage_persist=-1)
    surface_only = any(m['kind'] == 'pywind' for m in c['movers'])
    pts = []
    for o in c['offs']:
        z = 0.0 if surface_only else o[2]
        pts.append((c['lon'] + o[0], c['lat'] + o[1], z))
        model.spills += gs.point_line_spill(num_elements=1, start_position=pts[-1], release_time=when(0),
                                            substance=sub)
    for m in c['movers']:
        model.movers += make_mover(m)
    dt = -c['dt'] if c['back'] else c['dt']
    want = [list(p) for p in pts]
    moved = False
    for k in range(c['n'] + 1):
        model.step()
        sc = list(model.spills.items())[0]
        got = sc['positions']
        if k > 0:
            sec = (k - 1) * dt
            for i, p in enumerate(want):
                tot = [0.0, 0.0, 0.0]
                for m in c['movers']:
                    if is_active(m, sec, dt):
                        d = reference(m, tuple(p), sec, dt, c['windage'], 0.0)
                        for a in range(3):
                            tot[a] += d[a]
                moved = moved or any(tot)
                z = p[2] + tot[2]
                want[i] = [p[0] + tot[0], p[1] + tot[1], max(z, 0.0)]
        if any(abs(w[0]) > 355 or abs(w[1]) > 85 for w in want):
            break                                # towards the pole or around the globe: outside what is claimed
        ctx.equal(len(got), len(pts), "elements afloat at step %d" % k)
        order = sorted(range(len(got)), key=lambda i: int(sc['spill_num'][i]))
        for i, j in enumerate(order):
            ctx.close(got[j][2], want[i][2], "depth of element %d at step %d" % (i, k), rtol=1e-6, atol=1e-6)
            tol = 3e-8 + 3e-5 * max(abs(want[i][0] - pts[i][0]), abs(want[i][1] - pts[i][1]))
            ctx.close(got[j][:2], want[i][:2], "position of element %d at step %d" % (i, k), rtol=0, atol=tol)
            want[i] = [float(x) for x in got[j]]     # the reference restarts from the position reached
            if k == 0:
                pts[i] = tuple(want[i])
    ctx.nontrivial(moved)
    ctx.label(*[m['kind'] for m in c['movers']])
    ctx.label('backward' if c['back'] else 'forward')


@st.composite
def direct_case(draw):
    dt = draw(st.sampled_from([1, 60, 900, 3600, 7200, -900]))
    m = draw(mover_spec(1, abs(dt)))
    n = draw(st.integers(1, 7))
    els = [(draw(grid(-179, 179, 30)), draw(grid(-80, 80, 32)), draw(st.sampled_from([0.0, 0.0, 1.0, 30.0])),
            draw(st.sampled_from([2, 2, 2, 3, 7, 0, 12])), draw(grid(0, 0.1, 5)), draw(grid(-0.01, 0.05, 6)))
           for _ in range(n)]
    return {'dt': dt, 'm': m, 'els': els, 'sec': draw(st.integers(0, 48)) * 1800,
            'perm': draw(st.permutations(range(n))), 'keep': draw(st.integers(1, n))}


def one_move(m, mv, sc, sec, dt):
    import numpy as np
    mv.prepare_for_model_run()
    mv.prepare_for_model_step(sc, dt, when(sec))
    d = np.array(mv.get_move(sc, dt, when(sec)), dtype=float)
    mv.model_step_is_done(sc)
    return d


@facet('C08', direct_case(), quick=1400,
       rule="single moves of generated elements (status, depth, windage, rise velocity) against the reference, and in another order or subset; non-trivial: an active mover and at least one floating element")
def single_moves(c, ctx):
    import numpy as np
    m, dt, sec = c['m'], c['dt'], c['sec']
    if m['kind'] == 'rise' and dt < 0:
        return
    els = c['els']
    if m['kind'] == 'pywind':
        els = [(x, y, 0.0, s, w, r) for x, y, z, s, w, r in els]
    cols = list(zip(*els))

    def build(idx):
        return container([els[i][:3] for i in idx], [els[i][3] for i in idx], [els[i][4] for i in idx],
                         [els[i][5] for i in idx])
    mv = make_mover(m)
    sc = build(range(len(els)))
    before = {k: sc[k].copy() for k in sc}
    got = one_move(m, mv, sc, sec, dt)
    ctx.equal(got.shape, (len(els), 3), "shape of the displacement")
    for k in before:
        ctx.check(np.array_equal(before[k], sc[k]), "get_move changed the %s of the elements", k)
    act = is_active(m, sec, dt)
    for i, (x, y, z, s, w, r) in enumerate(els):
        want = reference(m, (x, y, z), sec, dt, w, r) if act and s == 2 else (0.0, 0.0, 0.0)
        tol = 1e-10 + 3e-5 * max(abs(want[0]), abs(want[1]))
        ctx.close(got[i][:2], want[:2], "%s: displacement of element %d (status %d)" % (m['kind'], i, s), rtol=0, atol=tol)
        ctx.close(got[i][2], want[2], "%s: vertical displacement of element %d" % (m['kind'], i), rtol=1e-6, atol=1e-9)
    idx = list(c['perm'])[:c['keep']]
    sub = one_move(m, make_mover(m), build(idx), sec, dt)
    ctx.close(sub, got[idx], "%s: the move of an element depends on the other elements" % m['kind'], rtol=1e-9, atol=1e-12)
    ctx.nontrivial(act and any(e[3] == 2 for e in els))
    ctx.label(m['kind'], m['range'])


@st.composite
def unc_case(draw):
    dt = draw(st.sampled_from([300, 900, 3600]))
    n = draw(st.integers(2, 8))
    return {'dt': dt, 'n': n, 'along': draw(st.sampled_from([0.0, 0.2, 0.5])), 'cross': draw(st.sampled_from([0.0, 0.1, 0.25])),
            'dur': draw(st.sampled_from([1, 2, 3, 20])), 'delay': draw(st.sampled_from([0, 0, 1, 3])),
            'speed': draw(grid(0.25, 1.5, 5)), 'dir': draw(grid(0, 360, 24)),
            'els': draw(st.lists(st.tuples(grid(-0.09, 0.09, 12), grid(-0.09, 0.09, 12), st.integers(0, 3)),
                                 min_size=2, max_size=8)),
            'box': draw(st.sampled_from([0.1, 0.1, 10.0])), 'back': draw(st.booleans()), 'scale': draw(st.sampled_from([1.0, 1.0, 0.5, -1.5])),
            'kind': draw(st.sampled_from(['python', 'grid', 'cats'])), 'up': draw(st.sampled_from([0.3, 0.3, 0.8])), 'left': draw(st.sampled_from([-0.1, -0.1, 0.05, -0.4]))}


def steady_nc(path, u, v, wind=False):
    """a gridded file with the same velocity everywhere, from four days before to four days after"""
    import netCDF4
    import numpy as np
    d = netCDF4.Dataset(path, 'w', format='NETCDF3_CLASSIC')
    try:
        d.grid_type = 'REGULAR'
        d.createDimension('time', None)
        d.createDimension('lat', 5)
        d.createDimension('lon', 5)
        t = d.createVariable('time', 'f8', ('time',))
        t.units = 'hours since ' + (when(0) - timedelta(days=4)).strftime('%Y-%m-%d %H:%M:%S')
        la, lo = d.createVariable('lat', 'f8', ('lat',)), d.createVariable('lon', 'f8', ('lon',))
        la[:] = lo[:] = np.arange(-2, 3) * 6.0
        for name, a in zip(('air_u', 'air_v') if wind else ('water_u', 'water_v'), (u, v)):
            w = d.createVariable(name, 'f8', ('time', 'lat', 'lon'), fill_value=-9999.0)
            w.units = 'm/s'
            w[:] = np.full((3, 5, 5), a)
        t[:] = [0.0, 96.0, 192.0]
    finally:
        d.close()
    return path


class Persistence:
    """when the perturbations are drawn anew: at the first step with elements after the delay, then whenever their duration is over"""

    def __init__(self, delay, dur, native=False):
        self.delay, self.dur, self.since, self.members, self.native = delay, dur, None, set(), native

    def step(self, elapsed, elements):
        """-> 'off', 'new' or 'kept' for the elements that were there before"""
        if elapsed < self.delay:
            return 'off'
        elements = set(elements)
        if not elements & self.members and (self.members or not self.native):
            self.since = None       # none is left of those that had perturbations
        self.members = elements
        if not elements and not self.native:
            return 'off'
        if self.since is None or elapsed >= self.since + self.dur:
            self.since = elapsed
            return 'new'
        return 'kept'


@facet('C08', unc_case(), quick=250,
       rule="uncertain currents: along/cross deviations of every element stay within their bounds and are kept for the uncertainty duration, also when elements join or leave; non-trivial: at least 3 steps of uncertain motion")
def current_uncertainty(c, ctx):
    import numpy as np
    import gnome.scripting as gs
    from gnome.environment import SteadyUniformCurrent
    from gnome.maps import GnomeMap
    from gnome.movers import CurrentMover
    b = c['box']
    gmap = GnomeMap(map_bounds=((-b, -b), (b, -b), (b, b), (-b, b)))
    model = gs.Model(start_time=when(0), duration=timedelta(seconds=c['dt'] * c['n']), time_step=c['dt'],
                     uncertain=True, map=gmap, run_backwards=c['back'])
    sgn = -1 if c['back'] else 1
    for lon, lat, k in c['els']:
        model.spills += gs.point_line_spill(num_elements=1, start_position=(lon, lat, 0.0),
                                            release_time=when(0 if c['back'] else min(k, c['n'] - 1) * c['dt']),
                                            substance=gs.NonWeatheringSubstance(windage_range=(0, 0)))
    a = math.radians(c['dir'])
    u, v = c['scale'] * c['speed'] * math.sin(a), c['scale'] * c['speed'] * math.cos(a)
    bounds = (-c['along'], c['along'], -c['cross'], c['cross'])
    hours = dict(uncertain_duration=c['dur'] * c['dt'] / 3600.0, uncertain_time_delay=c['delay'] * c['dt'] / 3600.0)
    here = None
    if c['kind'] == 'python':
        cur = SteadyUniformCurrent(speed=c['speed'], direction=c['dir'])
        mover = CurrentMover(cur, uncertain_along=c['along'], uncertain_cross=c['cross'],
                             uncertain_duration=c['dur'] * c['dt'], uncertain_time_delay=c['delay'] * c['dt'], scale_value=c['scale'])
    elif c['kind'] == 'grid':
        from gnome.movers import c_GridCurrentMover
        mover = c_GridCurrentMover(steady_nc(os.path.join(ctx.tmpdir(), 'steady.nc'), u, v), uncertain_along=c['along'], uncertain_cross=c['cross'], **hours)
    else:
        from gnome.movers import CatsMover
        from vlib.props.c25 import Pattern
        pat = Pattern(os.path.join(ctx.tmpdir(), 'steady.cur'), (66.056, -18.557), 1, (u, v))
        here = pat.at
        bounds = (-c['along'], c['up'], c['left'], c['cross'])
        mover = CatsMover(pat.path, up_cur_uncertain=c['up'], down_cur_uncertain=-c['along'], right_cur_uncertain=c['cross'], left_cur_uncertain=c['left'], **hours)
        u, v = float(pat.u[0]), float(pat.v[0])
    model.movers += mover
    tol = 1e-5 if c['kind'] == 'python' else 2e-4 + 1e-4 / (math.hypot(u, v) * c['dt'])
    random = bounds[0] < bounds[1] and bounds[2] < bounds[3]
    old, last, count = {}, {}, 0
    pers = Persistence(c['delay'] * c['dt'], c['dur'] * c['dt'], c['kind'] != 'python')
    for k in range(c['n'] + 1):
        model.step()
        fc, un = list(model.spills.items())
        now = {int(i): (float(p[0]), float(p[1])) for i, p in zip(un['id'], un['positions'])}
        state = pers.step((k - 1) * c['dt'], old) if k else 'off'
        for i, p in now.items():
            if i not in old:
                continue
            q = old[i]
            dx = sgn * (p[0] - q[0]) * math.cos(math.radians(q[1])) / DEG / c['dt']
            dy = sgn * (p[1] - q[1]) / DEG / c['dt']
            # along-stream and cross-stream share of the motion
            s2 = u * u + v * v
            if here is not None and here(*q) != (u, v):
                last.pop(i, None)       # at the edge of the pattern
                continue
            al = (dx * u + dy * v) / s2 - 1
            cr = (dx * v - dy * u) / s2
            if state != 'off':
                lo, hi = sorted(bounds[2:])
                ctx.check(bounds[0] - tol <= al <= bounds[1] + tol, "step %d: element %d deviates %.4f along the current, bounds %s", k, i, al, bounds)
                ctx.check(lo - tol <= cr <= hi + tol, "step %d: element %d deviates %.4f across the current, bounds %s", k, i, cr, bounds)
            started = (k - 1) >= c['delay']
            if not started:
                ctx.check(abs(al) < tol and abs(cr) < tol, "step %d: element %d deviates before the uncertainty starts", k, i)
            elif state == 'kept' and i in last:
                ctx.check(abs(al - last[i][0]) < 2 * tol and abs(cr - last[i][1]) < 2 * tol,
                          "step %d: the deviation of element %d changed from %s to %s within the uncertainty duration",
                          k, i, last[i], (al, cr))
            elif state == 'new' and i in last and random:
                ctx.check(abs(al - last[i][0]) + abs(cr - last[i][1]) > 1e-8, "step %d: the deviation of element %d was not drawn anew after the uncertainty duration", k, i)
            if started:
                if random:
                    ctx.check(abs(al) + abs(cr) > 1e-8, "step %d: element %d does not deviate though the uncertainty has started", k, i)
                last[i] = (al, cr)
                count += 1
        old = now
    ctx.nontrivial(count >= 3)
    ctx.label(c['kind'])
    if bounds[0] < bounds[1] and len(last) > 2:
        ctx.check(len({round(x[0], 9) for x in last.values()}) > 1, "all elements have the same deviation")


@facet('C08', run_case(), quick=60,
       rule="the forecast of deterministic movers is the same with and without the uncertainty run; non-trivial: at least two movers")
def forecast_unaffected(c, ctx):
    import numpy as np
    import gnome.scripting as gs

    def run(unc):
        model = gs.Model(start_time=when(0), duration=timedelta(seconds=c['dt'] * c['n']), time_step=c['dt'], uncertain=unc)
        sub = gs.NonWeatheringSubstance(windage_range=(c['windage'], c['windage']), windage_persist=-1)
        for o in c['offs']:
            model.spills += gs.point_line_spill(num_elements=1, start_position=(c['lon'] + o[0], c['lat'] + o[1], o[2]),
                                                release_time=when(0), substance=sub)
        for m in c['movers']:
            model.movers += make_mover(m)
        out = []
        for k in range(c['n'] + 1):
            model.step()
            out.append(np.array(list(model.spills.items())[0]['positions']))
        return out
    for k, (a, b) in enumerate(zip(run(False), run(True))):
        ctx.check(np.array_equal(a, b), "forecast positions at step %d differ with uncertainty on: %s, %s", k, a[:3], b[:3])
    ctx.nontrivial(len(c['movers']) > 1)


@st.composite
def wind_unc(draw):
    c = {'dt': draw(st.sampled_from([300, 900, 3600])), 'n': draw(st.integers(1, 6)),
            'kind': draw(st.sampled_from(['pointwind', 'pywind', 'gridwind'])),
            'speed': draw(st.sampled_from([0.0, 0.3, 0.9, 1.5, 5.0, 12.0, 25.0])), 'dir': draw(grid(0, 360, 24)),
            'ss': draw(st.sampled_from([0.0, 1.0, 2.0])), 'as': draw(st.sampled_from([0.0, 0.2, 0.4])),
            'windage': draw(st.sampled_from([0.01, 0.03])), 'els': draw(st.integers(1, 12)),
            'delay': draw(st.sampled_from([0, 0, 2])), 'dur': draw(st.sampled_from([1, 2, 3, 20])), 'late': draw(st.sampled_from([0, 0, 3])),
            'box': draw(st.sampled_from([10.0, 10.0, 0.01, 's1.2', 's2.3', 's3.4'])), 'back': draw(st.booleans()), 'scale': draw(st.sampled_from([1.0, 1.0, 0.5, 2.0]))}
    if draw(st.booleans()):         # elements leave one after the other, the others keep their perturbations
        c.update(n=draw(st.integers(4, 9)), ss=draw(st.sampled_from([1.0, 2.0])), dur=20, speed=draw(st.sampled_from([5.0, 12.0])), els=draw(st.integers(5, 12)),
                 box=draw(st.sampled_from(['s2.3', 's3.4', 's5'])), delay=0)
        c['as'] = draw(st.sampled_from([0.2, 0.4]))
    return c


@facet('C08', wind_unc(), quick=350,
       rule="uncertain winds: elements drift at the wind's speed and direction within the documented deviations (light winds: plus a bounded diffusion); non-trivial: uncertain motion with non-zero scales")
def wind_uncertainty(c, ctx):
    import gnome.scripting as gs
    from gnome.environment.wind import constant_wind
    from gnome.maps import GnomeMap
    from gnome.movers import PointWindMover, WindMover
    b = c['box']
    if isinstance(b, str):      # so many mean steps from the middle to the edge: some elements leave before others
        b = max(float(b[1:]) * max(c['speed'], 1.0) * c['windage'] * c['scale'] * c['dt'] * DEG, 0.006)
    model = gs.Model(start_time=when(0), duration=timedelta(seconds=c['dt'] * c['n']), time_step=c['dt'], uncertain=True, run_backwards=c['back'],
                     map=GnomeMap(map_bounds=((-b, -b), (b, -b), (b, b), (-b, b))))
    sgn = -1 if c['back'] else 1
    sub = gs.NonWeatheringSubstance(windage_range=(c['windage'], c['windage']), windage_persist=-1)
    line = dict(end_position=(0.8 * b, 0.8 * b, 0.0)) if b < 0.01 or isinstance(c['box'], str) else {}
    model.spills += gs.point_line_spill(num_elements=c['els'], start_position=(-0.8 * b, -0.8 * b, 0.0) if line else (0.0, 0.0, 0.0), release_time=when(0), substance=sub, **line)
    if c['late'] and not c['back'] and c['n'] > 2:
        model.spills += gs.point_line_spill(num_elements=c['late'], start_position=(0.005, 0.0, 0.0), release_time=when(2 * c['dt']), substance=sub)
    w = constant_wind(c['speed'], c['dir'])
    kw = dict(uncertain_speed_scale=c['ss'], uncertain_angle_scale=c['as'])
    if c['kind'] == 'pointwind':
        mv = PointWindMover(w, uncertain_time_delay=c['delay'] * c['dt'] / 3600.0, uncertain_duration=c['dur'] * c['dt'] / 3600.0, **kw)
    elif c['kind'] == 'gridwind':
        from gnome.movers import c_GridWindMover
        a = math.radians(c['dir'])
        path = steady_nc(os.path.join(ctx.tmpdir(), 'steady.nc'), -c['speed'] * math.sin(a), -c['speed'] * math.cos(a), True)
        mv = c_GridWindMover(path, uncertain_time_delay=c['delay'] * c['dt'] / 3600.0, uncertain_duration=c['dur'] * c['dt'] / 3600.0, **kw)
    else:
        mv = WindMover(w, uncertain_time_delay=c['delay'] * c['dt'], uncertain_duration=c['dur'] * c['dt'],
                       scale_value=c['scale'], **kw)
    model.movers += mv
    scale = c['scale'] if c['kind'] == 'pywind' else 1.0
    a = math.radians(c['dir'])
    u, v = -c['speed'] * math.sin(a), -c['speed'] * math.cos(a)
    diffusion = math.sqrt(6 * 100.0 / c['dt'])
    old = {}
    pers = Persistence(c['delay'] * c['dt'], c['dur'] * c['dt'], c['kind'] != 'pywind')
    terms = {}          # element -> its random terms (sine, possible cosines)
    for k in range(c['n'] + 1):
        model.step()
        un = list(model.spills.items())[1]
        now = {int(i): tuple(map(float, p)) for i, p in zip(un['id'], un['positions'])}
        state = pers.step((k if c['kind'] != 'pywind' else k - 1) * c['dt'], old) if k else 'off'
        if state != 'kept':
            terms = {}
        for i in now:
            if i not in old:
                continue
            p, q = now[i], old[i]
            f = sgn * scale * c['windage'] * c['dt'] * DEG
            dx, dy = (p[0] - q[0]) * math.cos(math.radians(q[1])) / f, (p[1] - q[1]) / f
            ctx.check(math.isfinite(dx) and math.isfinite(dy), "element %d moved to %s", i, p)
            elapsed = k * c['dt'] if c['kind'] != 'pywind' else (k - 1) * c['dt']
            on = elapsed >= c['delay'] * c['dt']
            if not on:
                ctx.close((dx, dy), (u, v), "step %d: wind drift before the uncertainty starts" % k, rtol=1e-4, atol=1e-4)
                continue
            if c['speed'] < 1:
                ctx.check(max(abs(dx - u), abs(dy - v)) <= diffusion * 1.0001 + 1e-4,
                          "step %d: light wind (%.2f, %.2f) moved element %d at (%.3f, %.3f), diffusion bound %.3f",
                          k, u, v, i, dx, dy, diffusion)
                continue
            since = max(elapsed - c['delay'] * c['dt'], 0)
            theta = c['as'] * 2.73 * since ** 0.25
            sigma2 = (c['ss'] * .315 * (since ** .147 if since > 0 else 0.0)) ** 2 / 2
            smax = 3.72        # |sqrt(-2 ln .001)|: the random terms are cut there
            s = max(c['speed'] ** 2 - sigma2, 0.0)
            m = s ** 0.25
            x = smax * math.sqrt(max(c['speed'] - math.sqrt(s), 0.0)) + m
            ang = min(math.radians(theta * smax), math.pi)
            ca = max(math.cos(ang), 0.001)
            # component along the mean wind
            along = (dx * u + dy * v) / c['speed']
            speed = math.hypot(dx, dy)
            ctx.check(speed <= x * x / ca * 1.001 + 1e-3, "step %d: uncertain drift speed %.3f, at most %.3f", k, speed, x * x / ca)
            rad = math.radians(theta)
            s2 = math.sqrt(max(c['speed'] - math.sqrt(s), 0.0))
            if since > 0 and c['as'] and c['ss'] and s2 > 1e-3 and speed > 1e-3:
                # the random terms behind this move; they are kept for the uncertainty duration
                turn = math.atan2(u * dy - v * dx, u * dx + v * dy)
                r = math.sqrt(speed * max(math.cos(turn), 0.001))
                got = (turn / rad, (r - m) / s2, (-r - m) / s2)
                ctx.check(abs(got[0]) + abs(got[1]) > 1e-7, "step %d: element %d does not deviate though the uncertainty has started", k, i)
                if abs(turn) < 1.4 and i in terms:
                    want = terms[i]
                    tol = 2e-3 + 1e-4 / rad + 1e-4 / s2
                    ctx.check(abs(got[0] - want[0]) <= tol and min(abs(x - y) for x in got[1:] for y in want[1:]) <= tol,
                              "step %d: the random terms of element %d changed from %s to %s within the uncertainty duration", k, i, want, got)
                terms[i] = got
            if c['as'] == 0:
                ctx.close((dx * v - dy * u) / c['speed'], 0.0, "step %d: no angle uncertainty, but the direction changed" % k, atol=1e-3)
                ctx.check(along >= -1e-3, "step %d: element drifts against the wind", k)
            if c['as'] == 0 and c['ss'] == 0:
                ctx.close((dx, dy), (u, v), "step %d: drift without uncertainty scales" % k, rtol=1e-4, atol=1e-4)
            if c['ss'] == 0 and math.cos(ang) > 0.05:
                ctx.close(along, c['speed'], "step %d: no speed uncertainty, downwind component" % k, rtol=1e-3, atol=1e-3)
        old = now
    if c['kind'] != 'gridwind' and c['speed'] < 1 and c['els'] >= 8 and b > 1 and c['n'] >= 2 and c['delay'] == 0:
        spread = max(abs(p[0]) + abs(p[1]) for p in now.values())
        ctx.check(spread > 1e-3 * diffusion * c['windage'] * c['dt'] * DEG, "no diffusion in a light wind")
    ctx.nontrivial((c['ss'] or c['as']) and c['speed'] > 0)
    ctx.label(c['kind'], 'light' if c['speed'] < 1 else 'strong')


@facet('C08', st.fixed_dictionaries({
    'D': st.sampled_from([1e3, 1e5, 1e6]), 'v0': st.sampled_from([0.1, 0.4, 1.0]), 'dt': st.sampled_from([300, 900, 3600, -900]), 'speed': grid(0.05, 1.5, 29), 'dir': grid(0, 360, 24),
    'tide': st.sampled_from([None, [1.0, 1.0, 1.0], [0.0, 0.0, 0.0], [0.0, 0.5, -1.0], [2.0, 0.0, 0.2]]), 'n': st.integers(45, 70), 'steps': st.integers(1, 3), 'set': st.booleans()}), quick=120,
    rule="a current pattern with eddy uncertainty and no other: elements of the uncertain set deviate by random eddies that weaken with speed, none where the pattern is slow; non-trivial: eddies act")
def pattern_eddies(c, ctx):
    import numpy as np
    from gnome.environment import Tide
    from gnome.movers import CatsMover
    from vlib.props.c25 import Pattern
    a = math.radians(c['dir'])
    pat = Pattern(os.path.join(ctx.tmpdir(), 'steady.cur'), (66.056, -18.557), 1, (c['speed'] * math.sin(a), c['speed'] * math.cos(a)))
    u, v = float(pat.u[0]), float(pat.v[0])
    L0 = math.hypot(u, v)
    if abs(L0 - c['v0']) < 1e-3 or L0 < 0.01:
        return
    kw = dict(up_cur_uncertain=0.0, down_cur_uncertain=0.0, right_cur_uncertain=0.0, left_cur_uncertain=0.0)
    eddy = dict(uncertain_eddy_diffusion=c['D'], uncertain_eddy_v0=c['v0'])
    if c['tide']:
        path = os.path.join(ctx.tmpdir(), 'tide.ossm')
        with open(path, 'w') as fd:
            fd.write('Somewhere\n0.0,0.0\nmeters per second\n')
            for k, x in enumerate(c['tide']):
                d = when(abs(c['dt']) * k)
                fd.write('%d,%d,%d,%d,%d,%.4f,%.4f\n' % (d.day, d.month, d.year, d.hour, d.minute, x, 0.0))
        kw['tide'] = Tide(path)
    mv = CatsMover(pat.path, **kw) if c['set'] else CatsMover(pat.path, **kw, **eddy)
    if c['set']:
        for k, x in eddy.items():
            setattr(mv, k, x)
    pos = [(0.001, 0.002, 0.0)] * c['n']
    if pat.at(*pos[0][:2]) != (u, v):
        return
    mv.prepare_for_model_run()
    order = list(range(c['steps']))
    for k in order if c['dt'] > 0 else order[::-1]:
        t = when(abs(c['dt']) * k)
        f = 1.0 if c['tide'] is None else c['tide'][k]
        got = {}
        for unc in (False, True):
            sc = container(pos, [2] * c['n'], uncertain=unc)
            mv.prepare_for_model_step(sc, c['dt'], t)
            d = np.array(mv.get_move(sc, c['dt'], t), dtype=float)
            mv.model_step_is_done(sc)
            got[unc] = d[:, :2] * (math.cos(math.radians(pos[0][1])), 1.0) / DEG / c['dt']
        tol = 2e-4 * L0 * abs(f) + 1e-4 / abs(c['dt'])
        ctx.close(got[False], np.tile((u * f, v * f), (c['n'], 1)), "forecast", rtol=2e-4, atol=1e-4 / abs(c['dt']) + 1e-5)
        dev = got[True] - (u * f, v * f)
        value = math.sqrt(6 * c['D'] / 1e4 / abs(c['dt']))
        if L0 < c['v0']:
            ctx.check(np.abs(dev).max() <= tol + 1e-5, "eddies of %.4g m/s in a pattern of %.3f m/s, slower than %s", np.abs(dev).max(), L0, c['v0'])
            continue
        L = L0 * abs(f)
        R = value if L < 1e-6 else value * c['v0'] / (c['v0'] + L)
        along = dev @ np.array([u, v]) / L0 if L >= 1e-6 else dev[:, 0]
        cross = dev @ np.array([v, -u]) / L0 if L >= 1e-6 else dev[:, 1]
        for name, x in (('along', along), ('across', cross)):
            ctx.check(np.abs(x).max() <= R * 1.001 + tol + 1e-5, "eddies of up to %.4g m/s %s the current, bound %.4g (current %.3f, tide %s)", np.abs(x).max(), name, R, L0, f)
            ctx.check(np.abs(x).max() > 0.3 * R and x.min() < 0 < x.max(), "eddies %s the current are between %.4g and %.4g m/s only, bound %.4g", name, x.min(), x.max(), R)
        if R > 20 * (tol + 1e-5):
            ctx.check(abs(np.corrcoef(along, cross)[0, 1]) < 0.95, "eddies along and across the current are the same")
            ctx.nontrivial()
