"""C25: movers that read currents and winds from grid files move elements by the velocities in the files."""
import math
import os
from datetime import timedelta

from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import grid, when
from vlib.props.c08 import DEG, container

CELL = 0.25                                   # degrees


# ---- regular grids -------------------------------------------------------------------------------------------------
@st.composite
def rect_case(draw, wind=False):
    ny, nx = draw(st.integers(2, 4)), draw(st.integers(2, 4))
    nt = draw(st.integers(1, 5))
    gaps = [draw(st.sampled_from([10, 30, 60, 60, 180, 360])) for _ in range(nt - 1)]
    mins = [draw(st.sampled_from([0, 0, 60, -60]))]
    for g in gaps:
        mins.append(mins[-1] + g)
    nz = 1 if wind else draw(st.sampled_from([1, 1, 1, 2, 3, 4]))
    depths = [draw(st.sampled_from([0.0, 0.0, 1.0]))]
    for _ in range(nz - 1):
        depths.append(depths[-1] + draw(st.sampled_from([1.0, 5.0, 20.0])))
    # files: where the time axis is cut
    cuts = sorted(draw(st.sets(st.integers(1, nt - 1), max_size=2))) if nt >= 2 and draw(st.booleans()) else None
    seed = draw(st.integers(0, 10 ** 6))
    spots = st.tuples(st.integers(-1, nx), st.integers(-1, ny), st.sampled_from([-0.45, -0.2, 0.0, 0.3, 0.45]),
                      st.sampled_from([-0.45, -0.2, 0.0, 0.3, 0.45]))
    els = draw(st.lists(st.tuples(spots, st.sampled_from([0.0, 0.0, 0.5, 1.0, 1.5, 3.0, 6.0, 30.0, 100.0]),
                                  st.sampled_from([2, 2, 2, 2, 3, 7, 12]), grid(0, 0.06, 6)), min_size=1, max_size=6))
    lo, hi = mins[0], mins[-1]
    query = draw(st.lists(st.integers(lo - 2, hi + 2) if nt > 1 else st.sampled_from([lo - 90, lo, lo + 300]), min_size=1, max_size=6))
    if draw(st.booleans()):
        query = query + draw(st.lists(st.sampled_from(mins), min_size=1, max_size=3))
    if draw(st.sampled_from([False, False, True])):
        query = [q + draw(st.sampled_from([0, -400, 500])) for q in query]
    return {'ny': ny, 'nx': nx, 'mins': mins, 'depths': depths, 'cuts': cuts, 'seed': seed, 'els': els, 'query': query,
            'lon0': draw(st.sampled_from([-130.0, -71.5, 0.0, 10.25, 140.0])), 'lat0': draw(st.sampled_from([-60.0, -10.0, -0.5, 30.0, 65.0])),
            'units': draw(st.sampled_from(['m/s', 'm/s', 'cm/s', None] if not wind else ['m/s', None])),
            'tunit': draw(st.sampled_from(['hours', 'minutes', 'seconds', 'days'])), 'names': draw(st.integers(0, 2)),
            'hole': draw(st.sampled_from([None, None, 'fill', 'nan'])), 'f4': draw(st.booleans()), 'grid_type': draw(st.booleans()),
            'scale': draw(st.sampled_from([1.0, 1.0, 0.5, -2.0, 0.0])), 'extrap': draw(st.booleans()),
            'offset': draw(st.sampled_from([0, 0, 3, -8])), 'dt': draw(st.sampled_from([60, 600, 900, 3600, -900])),
            'method': draw(st.sampled_from(['Euler', 'Euler', 'RK2', 'RK4'])), 'lon360': draw(st.booleans()) and not wind}


def fields(c):
    import numpy as np
    r = np.random.RandomState(c['seed'])
    shape = (len(c['mins']), len(c['depths']), c['ny'], c['nx'])
    k = 64.0
    u, v = (np.round(r.uniform(-2, 2, shape) * k) / k for _ in range(2))
    if c['hole']:
        hole = r.uniform(0, 1, shape[2:]) < 0.3
        u[:, :, hole] = v[:, :, hole] = np.nan
    return u, v


def write_nc(path, c, u, v, idx, wind):
    import netCDF4
    import numpy as np
    per = {'hours': 60.0, 'minutes': 1.0, 'seconds': 1 / 60.0, 'days': 1440.0}[c['tunit']]
    t0 = when(0) - timedelta(days=1)
    d = netCDF4.Dataset(path, 'w', format='NETCDF3_CLASSIC')
    try:
        if c['grid_type']:
            d.grid_type = 'REGULAR'
        d.createDimension('time', None)
        nz = len(c['depths'])
        if nz > 1:
            d.createDimension('depth', nz)
        d.createDimension('lat', c['ny'])
        d.createDimension('lon', c['nx'])
        t = d.createVariable('time', 'f8', ('time',))
        t.units = '%s since %s' % (c['tunit'], t0.strftime('%Y-%m-%d %H:%M:%S'))
        la, lo = d.createVariable('lat', 'f8', ('lat',)), d.createVariable('lon', 'f8', ('lon',))
        la[:] = c['lat0'] + CELL * np.arange(c['ny'])
        x = c['lon0'] + CELL * np.arange(c['nx'])
        if c['lon360'] and c['lon0'] < 0:
            x = x + 360
        lo[:] = x
        if nz > 1:
            z = d.createVariable('depth', 'f8', ('depth',))
            z[:] = c['depths']
        nu, nv = ([('air_u', 'air_v'), ('UX', 'VY'), ('u_wind', 'v_wind')] if wind else [('water_u', 'water_v'), ('curr_ucmp', 'curr_vcmp'), ('u', 'v')])[c['names']]
        dims = ('time', 'depth', 'lat', 'lon') if nz > 1 else ('time', 'lat', 'lon')
        conv = 100.0 if c['units'] == 'cm/s' else 1.0
        fill = -9999.0
        for name, a in ((nu, u), (nv, v)):
            var = d.createVariable(name, 'f4' if c['f4'] else 'f8', dims, fill_value=fill)
            if c['units']:
                var.units = c['units']
            a = a[idx] * conv
            if c['hole'] == 'fill':
                a = np.where(np.isnan(a), fill, a)
            var.set_auto_mask(False)
            var[:] = a if nz > 1 else a[:, 0]
        t[:] = [(1440 + c['mins'][i]) / per for i in idx]
    finally:
        d.close()


def write_files(c, u, v, wind, tmp):
    nt = len(c['mins'])
    if c['cuts'] is None:
        p = os.path.join(tmp, 'grid.nc')
        write_nc(p, c, u, v, list(range(nt)), wind)
        return p
    edges = [0] + list(c['cuts']) + [nt]
    lines = ['NetCDF Files']
    for k, (a, b) in enumerate(zip(edges, edges[1:])):
        write_nc(os.path.join(tmp, 'part%d.nc' % k), c, u, v, list(range(a, b)), wind)
        lines.append('[FILE] %s' % os.path.join(tmp, 'part%d.nc' % k))
    p = os.path.join(tmp, 'files.txt')
    with open(p, 'w') as fd:
        fd.write('\n'.join(lines) + '\n')
    return p


def velocity(c, u, v, lon, lat, z, t):
    """reference: the nearest grid point (nothing beyond half a cell off the grid), linear in time and depth; t in minutes"""
    import numpy as np
    i, j = int(math.floor((lon - c['lon0']) / CELL + 0.5)), int(math.floor((lat - c['lat0']) / CELL + 0.5))
    if not (0 <= i < c['nx'] and 0 <= j < c['ny']):
        return 0.0, 0.0
    d = c['depths']
    if len(d) == 1:
        if z > 0:
            return 0.0, 0.0
        w = [1.0]
    elif z > d[-1]:
        return 0.0, 0.0
    else:
        w = [float(np.interp(z, d, [1.0 if k == n else 0.0 for k in range(len(d))])) for n in range(len(d))]
    out = []
    for a in (u, v):
        a = np.nan_to_num(a[:, :, j, i], nan=0.0)
        s = [sum(x * y for x, y in zip(w, row)) for row in a]
        out.append(float(np.interp(t, c['mins'], s)))
    return tuple(out)


def margin(c, lon, lat):
    """distance to the nearest border between cells, in cells"""
    f = [abs(((q - o) / CELL + 0.5) - round((q - o) / CELL + 0.5)) for q, o in ((lon, c['lon0']), (lat, c['lat0']))]
    return min(f)


def step(c, vel, lon, lat, z, t, dt, method):
    """reference displacement in degrees, and the points at which the velocity was needed"""
    cl = math.cos(math.radians(lat))

    def disp(x, y, s):
        a, b = vel(x, y, z, s)
        return a * DEG * dt / cl, b * DEG * dt
    h = dt / 60.0
    if method == 'Euler':
        return disp(lon, lat, t), [(lon, lat, t)]
    if method == 'RK2':
        k1 = disp(lon, lat, t)
        p2 = (lon + k1[0], lat + k1[1], t + h)
        k2 = disp(*p2)
        return tuple((a + b) / 2 for a, b in zip(k1, k2)), [(lon, lat, t), p2]
    k1 = disp(lon, lat, t)
    p2 = (lon + k1[0] / 2, lat + k1[1] / 2, t + h / 2)
    k2 = disp(*p2)
    p3 = (lon + k2[0] / 2, lat + k2[1] / 2, t + h / 2)
    k3 = disp(*p3)
    p4 = (lon + k3[0], lat + k3[1], t + h)
    k4 = disp(*p4)
    return tuple((a + 2 * b + 2 * e + g) / 6 for a, b, e, g in zip(k1, k2, k3, k4)), [(lon, lat, t), p2, p3, p4]


def run_rect(c, ctx, wind):
    import numpy as np
    from gnome.movers import c_GridCurrentMover, c_GridWindMover
    u, v = fields(c)
    tmp = ctx.tmpdir()
    path = write_files(c, u, v, wind, tmp)
    if wind:
        mv = c_GridWindMover(path, wind_scale=c['scale'], extrapolate=c['extrap'], time_offset=c['offset'])
    else:
        mv = c_GridCurrentMover(path, current_scale=c['scale'], extrapolate=c['extrap'], time_offset=c['offset'], num_method=c['method'])
    method = 'Euler' if wind else c['method']
    mins, dt = c['mins'], c['dt']
    off = 60 * c['offset']
    els = [(c['lon0'] + CELL * (s[0] + s[2]), c['lat0'] + CELL * (s[1] + s[3]), z, st_, w) for s, z, st_, w in c['els']]
    sc = container([e[:3] for e in els], [e[3] for e in els], [e[4] for e in els])
    shifted = dict(c, mins=[m + off for m in mins])
    constant = len(mins) == 1
    if not constant:
        ctx.equal((mv.data_start, mv.data_stop), (when(60 * (mins[0] + off)), when(60 * (mins[-1] + off))), "times covered by the data")
    mv.prepare_for_model_run()
    moved = False
    for q in c['query']:
        q += off
        inside = constant or mins[0] + off <= q <= mins[-1] + off
        h = dt / 60.0
        end_inside = constant or mins[0] + off <= q + h <= mins[-1] + off
        t = when(60 * q)
        if not inside and not c['extrap']:
            ctx.raises(RuntimeError, lambda: mv.prepare_for_model_step(sc, dt, t), "a step outside the times of the data")
            continue
        mv.prepare_for_model_step(sc, dt, t)
        got = np.array(mv.get_move(sc, dt, t), dtype=float)
        mv.model_step_is_done(sc)
        if method == 'RK4' and not (inside and end_inside) and not c['extrap']:
            continue
        if method == 'RK2' and not constant:
            k = [sum(m + off <= x for m in mins) for x in (q, q + h)]
            if k[0] != k[1] or q in [m + off for m in mins]:
                continue                      # a step across a time of the data: not claimed for this method
        for i, (lon, lat, z, s, w) in enumerate(els):
            want = (0.0, 0.0)
            if s == 2 and not (wind and z > 0):
                want, pts = step(c, lambda x, y, zz, tt: tuple(k * c['scale'] for k in velocity(shifted, u, v, x, y, zz, tt)), lon, lat, z, q, dt, method)
                if min(margin(c, x, y) for x, y, _ in pts) < 1e-3:
                    continue
                if wind:
                    want = (want[0] * w, want[1] * w)
            tol = 1e-10 + 1e-6 * abs(dt) * DEG
            ctx.close(got[i][:2], want, "displacement of element %d (%s) at minute %s" % (i, (lon, lat, z, s), q), rtol=1e-5, atol=tol)
            ctx.equal(float(got[i][2]), 0.0, "vertical displacement")
            moved = moved or any(want)
    ctx.nontrivial(moved and (c['cuts'] is not None or len(mins) > 1))
    ctx.label(method, '%d files' % (1 if c['cuts'] is None else len(c['cuts']) + 1), 'extrapolated' if c['extrap'] else 'not extrapolated', '3D' if len(c['depths']) > 1 else '2D')


@facet('C25', rect_case(), quick=700, rule="non-trivial: an element is moved by a current that changes in time")
def grid_currents(c, ctx):
    run_rect(c, ctx, False)


@facet('C25', rect_case(wind=True), quick=400, rule="non-trivial: an element is moved by a wind that changes in time")
def grid_winds(c, ctx):
    run_rect(c, ctx, True)


# ---- curvilinear and triangular grids ------------------------------------------------------------------------------
@st.composite
def mesh_case(draw, kind):
    ny, nx = draw(st.integers(3, 5)), draw(st.integers(3, 5))
    nt = draw(st.integers(1, 4))
    mins = [draw(st.sampled_from([0, 0, 60, -60]))]
    for _ in range(nt - 1):
        mins.append(mins[-1] + draw(st.sampled_from([30, 60, 60, 180, 360])))
    cuts = sorted(draw(st.sets(st.integers(1, nt - 1), max_size=2))) if nt >= 2 and draw(st.booleans()) else None
    els = draw(st.lists(st.tuples(st.integers(-1, nx), st.integers(-1, ny), grid(0.04, 0.96, 23), grid(0.04, 0.96, 23), st.sampled_from([2, 2, 2, 2, 2, 7])),
                        min_size=1, max_size=8))
    query = draw(st.lists(st.integers(mins[0] - 2, mins[-1] + 2) if nt > 1 else st.sampled_from([mins[0] - 90, mins[0], mins[0] + 300]), min_size=1, max_size=6))
    if draw(st.booleans()):
        query = query + draw(st.lists(st.sampled_from(mins), min_size=1, max_size=2))
    return {'kind': kind, 'ny': ny, 'nx': nx, 'mins': mins, 'cuts': cuts, 'els': els, 'query': query, 'seed': draw(st.integers(0, 10 ** 6)),
            'lon0': draw(st.sampled_from([-130.0, -71.5, 10.25, 140.0])), 'lat0': draw(st.sampled_from([-60.0, -10.0, 30.0, 60.0])),
            'units': draw(st.sampled_from(['m/s', 'm/s', 'cm/s', None])) if kind == 'curv' else None,
            'tunit': draw(st.sampled_from(['hours', 'minutes', 'seconds', 'days'])), 'names': draw(st.integers(0, 2)),
            'mask': draw(st.sampled_from([None, 'water', 'land'])), 'ang': kind == 'curv' and draw(st.booleans()),
            'on_cells': kind == 'tri' and draw(st.booleans()), 'cw': draw(st.booleans()), 'steep': draw(st.booleans()),
            'scale': draw(st.sampled_from([1.0, 1.0, 0.5, -2.0])), 'extrap': draw(st.booleans()), 'offset': draw(st.sampled_from([0, 0, 3, -8])),
            'dt': draw(st.sampled_from([60, 600, 900, -900]))}


class Mesh:
    """the grid and the velocities of a case; velocity() says what moves an element there, None where nothing is claimed"""

    def __init__(self, c):
        import numpy as np
        self.c, self.np = c, np
        r = np.random.RandomState(c['seed'])
        ny, nx, nt = c['ny'], c['nx'], len(c['mins'])
        self.xs = c['lon0'] + np.concatenate([[0], np.cumsum(np.round(r.uniform(0.1, 0.4, nx - 1), 2))])
        self.ys = c['lat0'] + np.concatenate([[0], np.cumsum(np.round(r.uniform(0.1, 0.4, ny - 1), 2))])
        lon, lat = np.meshgrid(self.xs, self.ys)
        self.lon, self.lat = lon, lat                             # (ny, nx)
        k = 64.0
        self.water = np.ones((ny, nx), bool)
        if c['kind'] == 'curv':
            n = (nt, ny, nx)
            if c['mask'] == 'land':
                self.water = r.uniform(0, 1, (ny, nx)) > 0.2
            self.ang = np.round(r.uniform(-3, 3, (ny, nx)), 2) if c['ang'] else np.zeros((ny, nx))
        else:
            jit = np.round(r.uniform(-0.02, 0.02, (2, ny, nx)), 3)
            self.lon, self.lat = lon + jit[0], lat + jit[1]
            tri = []
            for j in range(ny - 1):
                for i in range(nx - 1):
                    a, b, d, e = j * nx + i, j * nx + i + 1, (j + 1) * nx + i + 1, (j + 1) * nx + i
                    tri += [(a, b, d), (a, d, e)] if r.randint(2) else [(a, b, e), (b, d, e)]
            tri = [tri[i] for i in r.permutation(len(tri))]
            self.tri = [t[s:] + t[:s] for t, s in zip(tri, r.randint(0, 3, len(tri)))]
            side = {}
            for n_, t in enumerate(self.tri):
                for s in range(3):
                    side.setdefault(frozenset((t[(s + 1) % 3], t[(s + 2) % 3])), []).append(n_)
            self.adj = []
            for n_, t in enumerate(self.tri):
                row = []
                for s in range(3):
                    o = [m for m in side[frozenset((t[(s + 1) % 3], t[(s + 2) % 3]))] if m != n_]
                    row.append(o[0] + 1 if o else 0)
                self.adj.append(row)
            self.rim = ([(0, i) for i in range(nx)] + [(j, nx - 1) for j in range(1, ny)] + [(ny - 1, i) for i in range(nx - 2, -1, -1)]
                        + [(j, 0) for j in range(ny - 2, 0, -1)])
            n = (nt, len(self.tri)) if c['on_cells'] else (nt, ny, nx)
        self.u, self.v = (np.round(r.uniform(-2, 2, n) * k) / k for _ in range(2))
        self.u[self.u == 0] = 0.25

    def write(self, path, idx):
        import netCDF4
        np, c = self.np, self.c
        ny, nx = c['ny'], c['nx']
        per = {'hours': 60.0, 'minutes': 1.0, 'seconds': 1 / 60.0, 'days': 1440.0}[c['tunit']]
        t0 = when(0) - timedelta(days=1)
        d = netCDF4.Dataset(path, 'w', format='NETCDF3_CLASSIC')
        try:
            d.grid_type = 'CURVILINEAR' if c['kind'] == 'curv' else 'TRIANGULAR'
            d.createDimension('time', None)
            t = d.createVariable('time', 'f8', ('time',))
            t.units = '%s since %s' % (c['tunit'], t0.strftime('%Y-%m-%d %H:%M:%S'))
            if c['kind'] == 'curv':
                yn, xn = [('y', 'x'), ('yc', 'xc')][c['names'] % 2]
                d.createDimension(yn, ny)
                d.createDimension(xn, nx)
                la, lo = ('latc', 'lonc') if c['names'] == 2 else ('lat', 'lon')
                for name, a in ((la, self.lat), (lo, self.lon)):
                    d.createVariable(name, 'f8', (yn, xn))[:] = a
                if c['mask']:
                    d.createVariable('mask', 'f8', (yn, xn))[:] = self.water.astype(float)
                if c['ang']:
                    d.createVariable('ang', 'f8', (yn, xn))[:] = self.ang
                nu, nv = [('U', 'V'), ('u', 'v'), ('water_u', 'water_v')][c['names']]
                dims = ('time', yn, xn)
            else:
                d.createDimension('node', ny * nx)
                d.createDimension('nele', len(self.tri))
                d.createDimension('nbnd', len(self.rim))
                d.createDimension('nbi', 4)
                d.createDimension('three', 3)
                d.createVariable('lat', 'f8', ('node',))[:] = self.lat.ravel()
                d.createVariable('lon', 'f8', ('node',))[:] = self.lon.ravel()
                ring = [j * nx + i + 1 for j, i in self.rim]
                b = d.createVariable('bnd', 'i4', ('nbnd', 'nbi'))
                b[:] = [[p, q, 0, 0] for p, q in zip(ring, ring[1:] + ring[:1])]
                tri, adj = np.array(self.tri) + 1, np.array(self.adj)
                if c['cw']:
                    tri, adj = tri[:, [0, 2, 1]], adj[:, [0, 2, 1]]
                d.createVariable('nv', 'i4', ('three', 'nele'))[:] = tri.T
                e = d.createVariable('nbe', 'i4', ('three', 'nele'))
                e.order = 'cw' if c['cw'] else 'ccw'
                e[:] = adj.T
                nu, nv = 'u', 'v'
                dims = ('time', 'nele' if c['on_cells'] else 'node')
            conv = 100.0 if c['units'] == 'cm/s' else 1.0
            for name, a in ((nu, self.u), (nv, self.v)):
                var = d.createVariable(name, 'f8', dims)
                if c['units']:
                    var.units = c['units']
                a = a[idx] * conv
                if c['kind'] == 'curv':
                    a = np.where(self.water, a, 0.0)
                var[:] = a.reshape(len(idx), -1) if c['kind'] == 'tri' else a
            t[:] = [(1440 + c['mins'][i]) / per for i in idx]
        finally:
            d.close()

    def velocity(self, lon, lat, t):
        np, c = self.np, self.c
        u, v = (np.array([np.interp(t, c['mins'], col) for col in a.reshape(len(c['mins']), -1).T]).reshape(a.shape[1:]) for a in (self.u, self.v))
        if c['kind'] == 'curv':
            if not (self.xs[0] < lon < self.xs[-1] and self.ys[0] < lat < self.ys[-1]):
                return (0.0, 0.0)
            i, j = int(np.searchsorted(self.xs, lon)) - 1, int(np.searchsorted(self.ys, lat)) - 1
            if not self.water[j:j + 2, i:i + 2].all():
                return (0.0, 0.0) if not self.water[j:j + 2, i:i + 2].any() else None
            fx, fy = (lon - self.xs[i]) / (self.xs[i + 1] - self.xs[i]), (lat - self.ys[j]) / (self.ys[j + 1] - self.ys[j])
            w = np.array([[(1 - fx) * (1 - fy), fx * (1 - fy)], [(1 - fx) * fy, fx * fy]])
            co, si = np.cos(self.ang), np.sin(self.ang)
            u, v = u * co - v * si, u * si + v * co
            return float((w * u[j:j + 2, i:i + 2]).sum()), float((w * v[j:j + 2, i:i + 2]).sum())
        x, y = self.lon.ravel(), self.lat.ravel()
        near = False
        for n_, (a, b, d) in enumerate(self.tri):
            m = np.array([[x[b] - x[a], x[d] - x[a]], [y[b] - y[a], y[d] - y[a]]])
            p, q = np.linalg.solve(m, [lon - x[a], lat - y[a]])
            w = (1 - p - q, p, q)
            if min(w) > 1e-3:
                if c['on_cells']:
                    return float(u[n_]), float(v[n_])
                return tuple(float(sum(k * f.ravel()[s] for k, s in zip(w, (a, b, d)))) for f in (u, v))
            near = near or min(w) > -1e-3
        return None if near else (0.0, 0.0)


def run_mesh(c, ctx):
    import numpy as np
    from gnome.movers import c_GridCurrentMover
    m = Mesh(c)
    tmp = ctx.tmpdir()
    nt = len(c['mins'])
    if c['cuts'] is None:
        path = os.path.join(tmp, 'grid.nc')
        m.write(path, list(range(nt)))
    else:
        edges = [0] + list(c['cuts']) + [nt]
        path = os.path.join(tmp, 'files.txt')
        lines = ['NetCDF Files']
        for k, (a, b) in enumerate(zip(edges, edges[1:])):
            lines.append('[FILE] %s' % os.path.join(tmp, 'part%d.nc' % k))
            m.write(os.path.join(tmp, 'part%d.nc' % k), list(range(a, b)))
        with open(path, 'w') as fd:
            fd.write('\n'.join(lines) + '\n')
    mv = c_GridCurrentMover(path, current_scale=c['scale'], extrapolate=c['extrap'], time_offset=c['offset'], num_method='Euler')
    off, dt = 60 * c['offset'], c['dt']
    xs, ys = m.xs, m.ys

    def spot(a, k, f):
        if k < 0:
            return a[0] - 0.1 - 0.3 * f
        if k >= len(a) - 1:
            return a[-1] + 0.1 + 0.3 * f
        return a[k] + f * (a[k + 1] - a[k])
    els = [(float(spot(xs, i, fx)), float(spot(ys, j, fy)), s) for i, j, fx, fy, s in c['els']]
    sc = container([(x, y, 0.0) for x, y, _ in els], [s for _, _, s in els], [0.0] * len(els))
    constant = nt == 1
    lo, hi = c['mins'][0] + off, c['mins'][-1] + off
    if not constant:
        ctx.equal((mv.data_start, mv.data_stop), (when(60 * lo), when(60 * hi)), "times covered by the data")
    mv.prepare_for_model_run()
    moved = False
    for q in c['query']:
        q += off
        t = when(60 * q)
        if not (constant or lo <= q <= hi) and not c['extrap']:
            ctx.raises(RuntimeError, lambda: mv.prepare_for_model_step(sc, dt, t), "a step outside the times of the data")
            continue
        mv.prepare_for_model_step(sc, dt, t)
        got = np.array(mv.get_move(sc, dt, t), dtype=float)
        mv.model_step_is_done(sc)
        for k, (lon, lat, s) in enumerate(els):
            v = m.velocity(lon, lat, q - off) if s == 2 else (0.0, 0.0)
            if v is None:
                continue
            want = (c['scale'] * v[0] * DEG * dt / math.cos(math.radians(lat)), c['scale'] * v[1] * DEG * dt)
            ctx.close(got[k][:2], want, "displacement of element %d (%s) at minute %s" % (k, (lon, lat, s), q), rtol=1e-4, atol=4e-3 * abs(dt) * DEG)
            moved = moved or any(want)
    ctx.nontrivial(moved and not constant)
    ctx.label('%d files' % (1 if c['cuts'] is None else len(c['cuts']) + 1), 'offset' if c['offset'] else 'no offset',
              'on cells' if c['on_cells'] else 'on nodes', 'mask %s' % c['mask'] if c['kind'] == 'curv' else 'triangles')


@facet('C25', mesh_case('curv'), quick=300, rule="non-trivial: an element is moved by a current that changes in time")
def curvilinear_currents(c, ctx):
    run_mesh(c, ctx)


@facet('C25', mesh_case('tri'), quick=300, rule="non-trivial: an element is moved by a current that changes in time")
def triangular_currents(c, ctx):
    run_mesh(c, ctx)


# ---- CATS current patterns ------------------------------------------------------------------------------------------
_cats = {}


def cats_mesh():
    """vertices, triangles and the lines of a CATS file of the repository: the shape of a mesh with its search tree"""
    if not _cats:
        from vlib.bootstrap import REPO
        path = os.path.join(REPO, 'py_gnome', 'scripts', 'testing_scripts', 'script_san_juan', 'Offshore.cur')
        lines = open(path).read().split('\n')
        nv = int(lines[1].split()[1])
        k = 2
        if len(lines[k].split()) == 2:
            k += 1
        _cats['vertices'] = [tuple(float(x) for x in l.split()) for l in lines[k:k + nv]]
        k += nv
        nt = int(lines[k].split()[1])
        _cats['topology'] = [l.split() for l in lines[k + 1:k + 1 + nt]]
        _cats['head'], _cats['tail'] = lines[2] if len(lines[2].split()) == 2 else None, lines[k + 1 + nt:]
    return _cats


@st.composite
def cats_case(draw):
    nt = draw(st.integers(2, 6))
    mins = [0]
    for _ in range(nt - 1):
        mins.append(mins[-1] + draw(st.sampled_from([30, 60, 60, 360])))
    return {'shift': (draw(st.sampled_from([0.0, 30.0, -20.5])), draw(st.sampled_from([0.0, -30.0, 5.25]))), 'seed': draw(st.integers(0, 10 ** 6)),
            'els': draw(st.lists(st.tuples(st.integers(-1, 10 ** 6), grid(0.02, 0.98, 24), grid(0.02, 0.98, 24), st.sampled_from([0.0, 0.0, 0.0, 2.0]),
                                           st.sampled_from([2, 2, 2, 2, 3])), min_size=1, max_size=8)),
            'scale': draw(st.booleans()), 'value': draw(st.sampled_from([1.0, 0.5, -2.0, 3.0])), 'ref': draw(st.tuples(st.integers(0, 10 ** 6), grid(0.1, 0.9, 8))),
            'tide': draw(st.sampled_from([None, 'ossm', 'ossm'])), 'mins': mins, 'vals': [draw(grid(-2.0, 2.0, 16)) for _ in mins], 'unit': draw(st.sampled_from(['knots', 'meters per second', 'mps', 'miles per hour'])),
            'query': draw(st.lists(st.integers(0, mins[-1]), min_size=1, max_size=4)),
            'dt': draw(st.sampled_from([60, 900, 3600, -900])), 'late': draw(st.booleans())}


class Pattern:
    """a CATS file with random velocities, one per triangle, and what it holds where"""
    def __init__(self, path, shift, seed, steady=None):
        import numpy as np
        m = cats_mesh()
        dx, dy = shift
        r = np.random.RandomState(seed)
        n = self.n = len(m['topology'])
        self.u, self.v = (np.round(r.uniform(-2, 2, n), 3) for _ in range(2))
        if steady:
            self.u[:], self.v[:] = np.round(steady, 3)
        vert = [(x + dx, y + dy, z) for x, y, z in m['vertices']]
        self.path = path
        with open(path, 'w') as fd:
            fd.write('DAG 1.0\nVertices\t%d\n' % len(vert))
            if m['head']:
                fd.write(m['head'] + '\n')
            for x, y, z in vert:
                fd.write('%.6f\t%.6f\t%s\n' % (x, y, '%.6f' % z))
            fd.write('Topology\t%d\n' % n)
            for row, a, b in zip(m['topology'], self.u, self.v):
                fd.write('\t'.join(row[:6] + ['%.3f' % a, '%.3f' % b]) + '\n')
            fd.write('\n'.join(m['tail']))
        self.xy = np.array([t[:2] for t in vert])
        tri = np.array([[int(q) for q in row[:3]] for row in m['topology']])
        self.A, self.B, self.C = A, B, C = self.xy[tri[:, 0]], self.xy[tri[:, 1]], self.xy[tri[:, 2]]
        self.det = (B[:, 0] - A[:, 0]) * (C[:, 1] - A[:, 1]) - (C[:, 0] - A[:, 0]) * (B[:, 1] - A[:, 1])
        self.low = np.abs(self.det) / np.max([np.hypot(*(P - Q).T) for P, Q in ((A, B), (B, C), (A, C))], axis=0)      # the lowest height

    def at(self, lon, lat):
        import numpy as np
        A, B, C = self.A, self.B, self.C
        p = ((lon - A[:, 0]) * (C[:, 1] - A[:, 1]) - (C[:, 0] - A[:, 0]) * (lat - A[:, 1])) / self.det
        q = ((B[:, 0] - A[:, 0]) * (lat - A[:, 1]) - (lon - A[:, 0]) * (B[:, 1] - A[:, 1])) / self.det
        w = np.minimum(np.minimum(p, q), 1 - p - q)
        k = int(np.argmax(w))
        edge = max(2e-3, 2e-5 / self.low[k])       # too close to an edge to tell: positions are held in microdegrees
        if w[k] > edge:
            return float(self.u[k]), float(self.v[k])
        return None if w[k] > -edge else (0.0, 0.0)

    def spot(self, k, f, g):
        xy = self.xy
        if k < 0:
            return float(xy[:, 0].min() + (xy[:, 0].max() - xy[:, 0].min()) * f), float(xy[:, 1].min() + (xy[:, 1].max() - xy[:, 1].min()) * g)
        k %= self.n
        s, t = f * g, f * (1 - g)
        return tuple(float((1 - s - t) * self.A[k][i] + s * self.B[k][i] + t * self.C[k][i]) for i in (0, 1))


@facet('C25', cats_case(), quick=150, rule="non-trivial: an element is moved, by a pattern scaled at a reference point or by a tide")
def cats_currents(c, ctx):
    import numpy as np
    from gnome.movers import CatsMover
    from gnome.environment import Tide
    dx, dy = c['shift']
    tmp = ctx.tmpdir()
    pat = Pattern(os.path.join(tmp, 'pattern.cur'), c['shift'], c['seed'])
    path, pattern, spot = pat.path, pat.at, pat.spot
    kw = {}
    rs = 1.0
    if c['scale']:
        ref = spot(c['ref'][0], 0.6, c['ref'][1])
        at = pattern(*ref)
        if at is None or math.hypot(*at) < 0.01:
            return
        kw = dict(scale=True, scale_value=c['value'], scale_refpoint=ref + (0.0,))
        rs = c['value'] / math.hypot(*at)
    tide = None
    if c['tide']:
        tp = os.path.join(tmp, 'tide.ossm')
        with open(tp, 'w') as fd:
            fd.write('Somewhere\n%s,%s\n%s\n' % (dx, dy, c['unit']))
            for t, a in zip(c['mins'], c['vals']):
                d = when(60 * t)
                fd.write('%d,%d,%d,%d,%d,%.4f,%.4f\n' % (d.day, d.month, d.year, d.hour, d.minute, a, 0.0))
        tide = Tide(tp)
    if tide is not None and not c['late']:
        kw['tide'] = tide
    mv = CatsMover(path, **kw)
    if tide is not None and c['late']:
        mv.tide = tide
    if c['scale']:
        mv.mover.compute_velocity_scale()
        ctx.close(mv.ref_scale, rs, "scale at the reference point", rtol=1e-5)
    els = [spot(k, f, g) + (z, s) for k, f, g, z, s in c['els']]
    sc = container([e[:3] for e in els], [e[3] for e in els], [0.0] * len(els))
    conv = {'knots': 0.5144, 'meters per second': 1.0, 'mps': 1.0, 'miles per hour': 0.44704}[c['unit']]
    mv.prepare_for_model_run()
    moved = False
    for q in c['query']:
        t = when(60 * q)
        mv.prepare_for_model_step(sc, c['dt'], t)
        got = np.array(mv.get_move(sc, c['dt'], t), dtype=float)
        mv.model_step_is_done(sc)
        f = 1.0
        if tide is not None:
            f = float(np.interp(q, c['mins'], c['vals'])) * conv
        for i, (lon, lat, z, s) in enumerate(els):
            a = (0.0, 0.0) if s != 2 or z > 0 else pattern(lon, lat)
            if a is None:
                continue
            want = (a[0] * rs * f * DEG * c['dt'] / math.cos(math.radians(lat)), a[1] * rs * f * DEG * c['dt'])
            ctx.close(got[i][:2], want, "displacement of element %d (%s) at minute %s" % (i, (lon, lat, z, s), q), rtol=2e-4, atol=1e-10 + 1e-5 * abs(c['dt']) * DEG)
            moved = moved or any(want)
    ctx.nontrivial(moved and (c['scale'] or tide is not None))
    ctx.label('scaled' if c['scale'] else 'not scaled', 'tide' if tide else 'no tide')


# ---- two patterns driven by a wind ---------------------------------------------------------------------------------
SPEEDS = {1: 0.5144, 2: 1.0, 3: 0.44704}


@st.composite
def component_case(draw):
    c = draw(cats_case())
    c['vals'] = [(draw(grid(-12.0, 12.0, 24)), draw(grid(-12.0, 12.0, 24))) for _ in c['mins']]
    c['second'] = draw(st.booleans())
    c['by'] = draw(st.sampled_from([1, 2]))
    c['pat'] = [(draw(st.sampled_from([0.0, 30.0, 90.0, 200.0, 315.0])), draw(st.sampled_from([1.0, 5.0, 10.0])), draw(st.sampled_from([1, 2, 3])),
                 draw(st.sampled_from([0.1, 0.5, 2.0]))) for _ in range(2)]
    c['average'] = draw(st.sampled_from([None, None, (0, 1.0, 0.5), (1, 1.0, 0.1), (3, 1.0, 0.1), (3, 0.5, 0.2), (6, 2.0, 0.01), (24, 1.0, 0.1)]))
    c['original'] = draw(st.booleans())
    c['extra'] = draw(st.booleans())
    return c


@facet('C25', component_case(), quick=150, rule="non-trivial: an element is moved by two patterns, or by averaged winds")
def component_currents(c, ctx):
    import numpy as np
    from gnome.movers import ComponentMover
    from gnome.environment import Wind
    tmp = ctx.tmpdir()
    pats = [Pattern(os.path.join(tmp, 'pattern%d.cur' % i), c['shift'], c['seed'] + i) for i in range(2 if c['second'] else 1)]
    ref = pats[0].spot(c['ref'][0], 0.6, c['ref'][1])
    at = [p.at(*ref) for p in pats]
    if any(a is None or math.hypot(*a) < 0.01 for a in at):
        return
    wind = Wind(timeseries=[(when(60 * t), uv) for t, uv in zip(c['mins'], c['vals'])], units='m/s', coord_sys='uv', extrapolation_is_allowed=True)
    p1, p2 = c['pat']
    mv = ComponentMover(pats[0].path, pats[1].path if c['second'] else None, wind=wind, scale_refpoint=ref if c['late'] else ref + (0.0,), scale_by=c['by'],
                        pat1_angle=p1[0], pat1_speed=p1[1], pat1_speed_units=p1[2], pat1_scale_to_value=p1[3],
                        pat2_angle=p2[0], pat2_speed=p2[1], pat2_speed_units=p2[2], pat2_scale_to_value=p2[3])
    av = c['average'] if not c['second'] else None      # averaged winds drive one pattern
    if av:
        mv.use_averaged_winds = True
        mv.past_hours_to_average, mv.wind_power_factor, mv.scale_factor_averaged_winds = av
        mv.use_original_scale_factor = c['original']
        mv.extrapolate = True

    def blow(q):
        return tuple(float(np.interp(q, c['mins'], [x[i] for x in c['vals']])) for i in (0, 1))
    els = [pats[0].spot(k, f, g) + (0.0, s) for k, f, g, z, s in c['els']]
    sc = container([e[:3] for e in els], [e[3] for e in els], [0.0] * len(els))
    mv.prepare_for_model_run()
    moved = False
    for q in c['query']:
        t = when(60 * q)
        mv.prepare_for_model_step(sc, c['dt'], t)
        got = np.array(mv.get_move(sc, c['dt'], t), dtype=float)
        mv.model_step_is_done(sc)
        scale = []
        for (angle, speed, unit, value), a in zip(c['pat'], at):
            out = (-math.sin(math.radians(angle)), -math.cos(math.radians(angle)))        # a wind from there blows that way
            along = lambda w: w[0] * out[0] + w[1] * out[1]      # noqa: E731
            sp = speed * SPEEDS[unit]
            if av:
                hours = range(av[0], 0, -1) if av[0] else [0]
                mean = sum(along(blow(q - 60 * h)) for h in hours) / len(hours)
                mean = math.copysign(abs(mean) ** av[1], mean)
                scale.append(mean * value / (sp * math.hypot(*a)) if c['original'] else mean * av[2])
            else:
                w = blow(q)
                f = 1.0 if c['by'] == 1 else math.hypot(*w) / sp
                scale.append(along(w) * f * value / (sp * math.hypot(*a)))
        for i, (lon, lat, z, s) in enumerate(els):
            v = [p.at(lon, lat) if s == 2 else (0.0, 0.0) for p in pats]
            if any(x is None for x in v):
                continue
            u = [sum(f * x[k] for f, x in zip(scale, v)) for k in (0, 1)]
            want = (u[0] * DEG * c['dt'] / math.cos(math.radians(lat)), u[1] * DEG * c['dt'])
            ctx.close(got[i][:2], want, "displacement of element %d (%s) at minute %s" % (i, (lon, lat, z, s), q), rtol=1e-3,
                      atol=1e-10 + abs(c['dt']) * DEG * (1e-5 + 2e-3 * sum(abs(f) for f in scale)))
            moved = moved or any(want)
        if c['extra']:                        # what is shown is what moves the elements, and looking changes nothing
            from gnome.utilities.time_utils import date_to_sec
            shown = mv.get_scaled_velocities(date_to_sec(t))
            for k in range(0, pats[0].n, 97):
                w = [sum(f * float(x[k]) for f, x in zip(scale, comp)) for comp in ([p.u for p in pats], [p.v for p in pats])]
                ctx.close((float(shown['u'][k]), float(shown['v'][k])), tuple(w), "velocity shown in triangle %d at minute %s" % (k, q), rtol=1e-3, atol=1e-5 + 2e-3 * sum(abs(f) for f in scale))
    ctx.nontrivial(moved and (c['second'] or bool(av)))
    ctx.label('two patterns' if c['second'] else 'one pattern', 'averaged' if av else 'by speed' if c['by'] == 1 else 'by stress')
