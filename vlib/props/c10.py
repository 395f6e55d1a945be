"""C10: diffusion is a random walk of the prescribed size that stays in the water column."""
import math
from datetime import timedelta

from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import grid, when
from vlib.props.c08 import DEG, container


@st.composite
def horiz(draw):
    return {'d': draw(st.sampled_from([0.0, 10.0, 1e3, 1e5, 1e6])), 'factor': draw(st.sampled_from([1.0, 2.0, 4.0])),
            'dt': draw(st.sampled_from([60, 900, 3600, -900])), 'lat': draw(grid(-75, 75, 10)),
            'n': draw(st.sampled_from([1, 5, 400, 1500])), 'unc': draw(st.booleans()), 'seed': draw(st.integers(0, 10 ** 6)),
            'z': draw(st.sampled_from([0.0, 0.0, 0.0, 3.0])), 'steps': draw(st.integers(1, 3)),
            'set': draw(st.booleans()), 'st': draw(st.sampled_from([2, 2, 2, 3, 12]))}


def disp(d, lat):
    import numpy as np
    return np.stack([d[:, 0] * math.cos(math.radians(lat)) / DEG, d[:, 1] / DEG], axis=1)


@facet('C10', horiz(), quick=500,
       rule="horizontal diffusion steps of up to 1500 elements: bounds, mean, variance, first-step disc, depth and status; non-trivial: non-zero coefficient and floating surface elements")
def horizontal(c, ctx):
    import numpy as np
    from gnome.movers import RandomMover
    from gnome.utilities import rand
    rand.seed(c['seed'])
    if c['set']:
        mv = RandomMover()
        mv.diffusion_coef, mv.uncertain_factor = c['d'], c['factor']
    else:
        mv = RandomMover(diffusion_coef=c['d'], uncertain_factor=c['factor'])
    n = c['n']
    sc = container([(10.0, c['lat'], c['z'])] * n, [c['st']] * n, uncertain=c['unc'])
    mv.prepare_for_model_run()
    for k in range(c['steps']):
        mv.prepare_for_model_step(sc, c['dt'], when(k * c['dt']))
        raw = np.array(mv.get_move(sc, c['dt'], when(k * c['dt'])))
        mv.model_step_is_done(sc)
        ctx.equal(raw.shape, (n, 3), "shape")
        d = disp(raw, c['lat'])
        ctx.check(np.isfinite(raw).all() and (raw[:, 2] == 0).all(), "diffusion of surface elements gave %s", raw[:3])
        if c['st'] != 2 or c['z'] > 0 or c['d'] == 0:
            ctx.check((raw == 0).all(), "status %s, depth %s, coefficient %s: moved by %s", c['st'], c['z'], c['d'], raw[:2])
            continue
        R = math.sqrt(6 * c['d'] / 1e4 * abs(c['dt']) * (c['factor'] if c['unc'] else 1.0))
        ctx.check(np.abs(d).max() <= R * 1.0001, "step %d: moved %.3f m, bound %.3f m", k, np.abs(d).max(), R)
        var = R * R / 3
        if k == 0:
            ctx.check(np.hypot(d[:, 0], d[:, 1]).max() <= R * 1.0001, "first step: moved out of the circle of %.3f m", R)
            var = R * R / 4
        if n >= 400:
            for ax in (0, 1):
                ctx.check(abs(d[:, ax].mean()) < 6 * math.sqrt(var / n), "step %d: mean displacement %.3f m of +-%.3f m", k, d[:, ax].mean(), R)
                ctx.check(abs(d[:, ax].var() / var - 1) < 0.35 if n < 1000 else abs(d[:, ax].var() / var - 1) < 0.2,
                          "step %d: variance %.4g m2, expected %.4g", k, d[:, ax].var(), var)
            cov = np.corrcoef(d[:, 0], d[:, 1])[0, 1]
            ctx.check(abs(cov) < 0.3, "step %d: the two directions are correlated (%.2f)", k, cov)
        if n > 1:
            ctx.check(len(np.unique(d[:, 0])) > 1, "all elements moved alike")
    ctx.nontrivial(c['d'] > 0 and c['st'] == 2 and c['z'] == 0)
    ctx.label('uncertain' if c['unc'] else 'forecast', 'backward' if c['dt'] < 0 else 'forward')


@st.composite
def vert(draw):
    return {'va': draw(st.sampled_from([0.0, 0.5, 5.0, 50.0])), 'vb': draw(st.sampled_from([0.0, 0.11, 2.0, 50.0])),
            'ha': draw(st.sampled_from([0.0, 1e3, 1e5])), 'hb': draw(st.sampled_from([0.0, 126.0, 1e4])),
            'ml': draw(st.sampled_from([0.5, 2.0, 10.0, 50.0])), 'dt': draw(st.sampled_from([60, 900, 3600])),
            'surf': draw(st.booleans()), 'lat': draw(grid(-70, 70, 7)), 'seed': draw(st.integers(0, 10 ** 6)),
            'zs': draw(st.lists(st.sampled_from([0.0, 0.001, 0.4, 1.9, 5.0, 10.0, 10.001, 49.0, 200.0]), min_size=1, max_size=6)),
            'n': draw(st.sampled_from([1, 300])), 'set': draw(st.booleans()), 'unc': draw(st.booleans()),
            'st': draw(st.sampled_from([2, 2, 2, 3]))}


@facet('C10', vert(), quick=700,
       rule="3D diffusion steps of elements at all depths around surface and mixed layer: bounds, reflection, coefficients above/below; non-trivial: a subsurface floating element and a non-zero vertical coefficient")
def vertical(c, ctx):
    import numpy as np
    from gnome.movers import RandomMover3D
    from gnome.utilities import rand
    rand.seed(c['seed'])
    kw = dict(vertical_diffusion_coef_above_ml=c['va'], vertical_diffusion_coef_below_ml=c['vb'],
              horizontal_diffusion_coef_above_ml=c['ha'], horizontal_diffusion_coef_below_ml=c['hb'],
              mixed_layer_depth=c['ml'], surface_is_allowed=c['surf'])
    if c['set']:
        mv = RandomMover3D()
        for k, v in kw.items():
            setattr(mv, k, v)
    else:
        mv = RandomMover3D(**kw)
    for k, v in kw.items():
        ctx.equal(getattr(mv, k), v, "property " + k)
    zs = np.repeat(np.array(c['zs']), c['n'])
    pos = np.zeros((len(zs), 3))
    pos[:, 1], pos[:, 2] = c['lat'], zs
    sc = container(pos, [c['st']] * len(zs), uncertain=c['unc'])
    mv.prepare_for_model_run()
    mv.prepare_for_model_step(sc, c['dt'], when(0))
    raw = np.array(mv.get_move(sc, c['dt'], when(0)))
    mv.model_step_is_done(sc)
    ctx.check(np.isfinite(raw).all(), "displacement %s", raw[:3])
    if c['st'] != 2:
        ctx.check((raw == 0).all(), "moved an element of status %s", c['st'])
        return
    h = np.abs(disp(raw, c['lat'])).max(axis=1)
    new = zs + raw[:, 2]
    A, B = math.sqrt(6 * c['va'] / 1e4 * c['dt']), math.sqrt(6 * c['vb'] / 1e4 * c['dt'])
    Ha, Hb = math.sqrt(6 * c['ha'] / 1e4 * c['dt']), math.sqrt(6 * c['hb'] / 1e4 * c['dt'])
    ml = c['ml']
    for z in set(c['zs']):
        m = zs == z
        hz, nz, dz = h[m], new[m], raw[m, 2]
        if z == 0 and c['surf']:
            ctx.check((raw[m] == 0).all(), "surface elements moved although the surface is allowed: %s", raw[m][:2])
            continue
        R = Hb if z > ml else Ha
        ctx.check(hz.max() <= R * 1.0001 + 1e-6, "depth %s, mixed layer %s: moved %.3f m sideways, bound %.3f", z, ml, hz.max(), R)
        if c['n'] > 100 and R:
            x = disp(raw, c['lat'])[m]
            for ax in (0, 1):
                ctx.check(abs(x[:, ax].var() / (R * R / 3) - 1) < 0.4, "depth %s: horizontal variance %.4g, expected %.4g",
                          z, x[:, ax].var(), R * R / 3)
        ctx.check(nz.min() >= -1e-9, "depth %s: diffused out of the water to %.6f", z, nz.min())
        if z > ml:
            lim = B
        elif c['va'] == 0:
            ctx.check((dz == 0).all(), "no vertical diffusion above the mixed layer depth, but %s", dz[:3])
            continue
        else:
            lim = A + B
        ctx.check(nz.max() <= max(ml if z <= ml else 0, z) + (B if z <= ml else lim) + 1e-6 or nz.max() <= lim - z + 1e-6 or
                  nz.max() <= ml + B + 1e-6,
                  "depth %s, mixed layer %s: diffused down to %.4f", z, ml, nz.max())
        if z > ml + lim or (lim < z and z + A < ml):
            ctx.check(np.abs(dz).max() <= lim * 1.0001 + 1e-6, "depth %s: moved %.4f m vertically, bound %.4f", z, np.abs(dz).max(), lim)
            var = (A * A / 3 if z <= ml else 0) + B * B / 3
            if c['n'] > 100 and var:
                ctx.check(abs(dz.var() / var - 1) < 0.4, "depth %s: vertical variance %.4g, expected %.4g", z, dz.var(), var)
                ctx.check(abs(dz.mean()) < 6 * math.sqrt(var / c['n']), "depth %s: mean vertical move %.4g", z, dz.mean())
        if c['n'] > 100 and (A or B) and (z > ml or c['va']):
            # the depths are distributed as those of the reference walk: reflected at the mixed layer depth, then at the surface
            g = np.random.RandomState(c['seed'] + 1)
            N = 20000
            ref = np.full(N, float(z))
            if z <= ml:
                ref = ref + g.uniform(-A, A, N)
                low = ref > ml
                ref = np.where(low, 2 * ml - ref, ref)
                over = low & (ref <= 0)
                ref = np.where(over, g.uniform(0, ml, N), ref)
            ref = np.abs(ref + (g.uniform(-B, B, N) if B else 0))
            if len(np.unique(ref)) > 1:
                both = np.concatenate([nz, ref])
                F = np.searchsorted(np.sort(nz), both, side='right') / len(nz)
                G = np.searchsorted(np.sort(ref), both, side='right') / N
                ks = np.abs(F - G).max() * math.sqrt(len(nz) * N / (len(nz) + N))
                ctx.check(ks < 3.6, "depth %s, mixed layer %s, moves up to %.4g and %.4g: depths are not distributed as by reflection (KS %.2f), quartiles %s, expected %s",
                          z, ml, A, B, ks, np.percentile(nz, [25, 50, 75]), np.percentile(ref, [25, 50, 75]))
    ctx.nontrivial(any(z > 0 for z in c['zs']) and (c['va'] > 0 or c['vb'] > 0))


@st.composite
def runs(draw):
    return {'dt': draw(st.sampled_from([300, 900, 3600])), 'n': draw(st.integers(2, 8)), 'd': draw(st.sampled_from([1e3, 1e5, 1e6])),
            'lat': draw(grid(-60, 60, 6)), 'els': draw(st.sampled_from([200, 600])), 'unc': draw(st.booleans()),
            'steady': draw(st.sampled_from([0.0, 0.5])), 'v3': draw(st.booleans()), 'z': draw(st.sampled_from([0.0, 5.0]))}


@facet('C10', runs(), quick=60,
       rule="whole diffusion runs: the cloud's variance grows linearly with time, its centre follows the current, depths stay in the water; non-trivial: at least 3 steps")
def cloud_growth(c, ctx):
    import numpy as np
    import gnome.scripting as gs
    from gnome.movers import RandomMover3D, SimpleMover
    model = gs.Model(start_time=when(0), duration=timedelta(seconds=c['dt'] * c['n']), time_step=c['dt'], uncertain=c['unc'])
    z = c['z'] if c['v3'] else 0.0
    model.spills += gs.point_line_spill(num_elements=c['els'], start_position=(0.0, c['lat'], z), release_time=when(0),
                                        substance=gs.NonWeatheringSubstance(windage_range=(0, 0)))
    if c['v3']:
        model.movers += RandomMover3D(horizontal_diffusion_coef_above_ml=c['d'], horizontal_diffusion_coef_below_ml=c['d'])
    else:
        model.movers += gs.RandomMover(diffusion_coef=c['d'])
    if c['steady']:
        model.movers += SimpleMover(velocity=(c['steady'], 0, 0), uncertainty_scale=0.0)
    for k in range(c['n'] + 1):
        model.step()
        for sc in model.spills.items():
            ctx.equal(len(sc), c['els'], "elements")
            p = sc['positions']
            ctx.check((p[:, 2] >= 0).all(), "elements above the water: %s", p[:, 2].min())
    for j, sc in enumerate(model.spills.items()):
        p = sc['positions']
        f = 2.0 if j == 1 and not c['v3'] else 1.0
        unit = 2 * c['d'] / 1e4 * c['dt'] * f
        var = unit * (c['n'] - (0.25 if not c['v3'] else 0))
        x = p[:, 0] * math.cos(math.radians(c['lat'])) / DEG
        y = (p[:, 1] - c['lat']) / DEG
        s = math.sqrt(var)
        ctx.check(abs(y.mean()) < 6 * s / math.sqrt(c['els']), "centre drifted %.2f m north, spread %.2f", y.mean(), s)
        ctx.check(abs(x.mean() - c['steady'] * c['n'] * c['dt']) < 6 * s / math.sqrt(c['els']) + 0.02 * s + 1e-3 * c['steady'] * c['n'] * c['dt'],
                  "centre moved %.2f m east, current carries %.2f", x.mean(), c['steady'] * c['n'] * c['dt'])
        for a, nm in ((x, 'east'), (y, 'north')):
            ctx.check(abs(a.var() / var - 1) < 0.5, "variance %s after %d steps: %.4g m2, expected %.4g", nm, c['n'], a.var(), var)
    ctx.nontrivial(c['n'] >= 3)
