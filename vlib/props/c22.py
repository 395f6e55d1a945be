"""C22: drawn element properties follow their distribution; droplets rise by Stokes' law up to form drag."""
import math
from datetime import timedelta

from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import OILS, T0, grid, when


@st.composite
def dist(draw, scale=1.0, positive=False):
    kind = draw(st.sampled_from(['uniform', 'normal', 'lognormal', 'weibull', 'weibull']))
    d = {'kind': kind}
    if kind == 'uniform':
        d['low'] = scale * draw(st.sampled_from([0.0, 0.1, 0.5] + ([] if positive else [-0.7])))
        d['high'] = d['low'] + scale * draw(st.sampled_from([0.0, 0.01, 1.0, 3.0]))
    elif kind == 'normal':
        d['mean'] = scale * draw(st.sampled_from([1.0, 20.0] + ([] if positive else [0.0, -3.0])))
        d['sigma'] = scale * draw(st.sampled_from([0.0, 0.02, 0.1] if positive else [0.0, 0.1, 2.0]))
    elif kind == 'lognormal':
        d['mean'] = math.log(scale) + draw(st.sampled_from([-1.0, 0.0, 1.0]))
        d['sigma'] = draw(st.sampled_from([0.0, 0.1, 0.5, 1.0]))
    else:
        d['alpha'] = draw(st.sampled_from([0.7, 1.0, 1.8, 4.0]))
        d['lambda_'] = scale * draw(st.sampled_from([0.3, 1.0, 2.5]))
        q = draw(st.sampled_from([None, 0.0, 0.02, 0.5, 0.9]))
        r = draw(st.sampled_from([None, 0.95, 0.99, 1 - 1e-6]))
        f = lambda p: d['lambda_'] * (-math.log(1 - p)) ** (1 / d['alpha'])
        d['min_'] = None if q is None else f(q)
        d['max_'] = None if r is None else f(r)
        if d['max_'] is not None and d['max_'] < 5e-5:
            d['max_'] = None
    return d


def make(d):
    from gnome.utilities import distributions as D
    k = {a: b for a, b in d.items() if a != 'kind'}
    return {'uniform': D.UniformDistribution, 'normal': D.NormalDistribution, 'lognormal': D.LogNormalDistribution,
            'weibull': D.WeibullDistribution}[d['kind']](**k)


def ncdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def cdf(d, x):
    k = d['kind']
    if k == 'uniform':
        return min(max((x - d['low']) / (d['high'] - d['low']), 0), 1)
    if k == 'normal':
        return ncdf((x - d['mean']) / d['sigma'])
    if k == 'lognormal':
        return ncdf((math.log(x) - d['mean']) / d['sigma'])
    w = lambda y: 1 - math.exp(-(max(y, 0) / d['lambda_']) ** d['alpha'])
    a = 0.0 if d['min_'] is None else w(d['min_'])
    b = 1.0 if d['max_'] is None else w(d['max_'])
    return min(max((w(x) - a) / (b - a), 0), 1)


def point(d):
    """the value of a distribution without spread, else None"""
    if d['kind'] == 'uniform' and d['low'] == d['high']:
        return d['low']
    if d['kind'] in ('normal', 'lognormal') and d['sigma'] == 0:
        return d['mean'] if d['kind'] == 'normal' else math.exp(d['mean'])
    return None


def follows(ctx, d, v, what):
    import numpy as np
    n = len(v)
    ctx.check(np.isfinite(v).all(), "%s: %s", what, v[:5])
    p = point(d)
    if p is not None:
        ctx.check(np.allclose(v, p, rtol=1e-12, atol=1e-300), "%s: distribution %s gave %s", what, d, v[:5])
        return False
    lo, hi = (d['low'], d['high']) if d['kind'] == 'uniform' else (d.get('min_'), d.get('max_'))
    ctx.check(lo is None or v.min() >= lo, "%s: %s below the lower bound of %s", what, v.min(), d)
    ctx.check(hi is None or v.max() <= hi, "%s: %s above the upper bound of %s", what, v.max(), d)
    if n >= 50:
        s = np.sort(v)
        F = np.array([cdf(d, x) for x in s])
        i = np.arange(1, n + 1)
        ks = max((i / n - F).max(), (F - (i - 1) / n).max())
        # P(KS > x) <= 2 exp(-2 n x^2): 3.6/sqrt(n) has probability 1e-11
        ctx.check(ks * math.sqrt(n) < 3.6, "%s: %d draws of %s are %.2f (KS) away from it, %.2f allowed; quartiles %s",
                  what, n, d, ks, 3.6 / math.sqrt(n), s[[n // 4, n // 2, 3 * n // 4]])
    if n > 1:
        ctx.check(len(np.unique(v)) > n - 2 - n // 10000, "%s: repeated values %s", what, v[:5])
    return True


@facet('C22', st.fixed_dictionaries({'d': dist(), 'n': st.sampled_from([1, 2, 60, 500, 3000, 200000]), 'seed': st.integers(0, 10 ** 6),
                                     'pad': st.integers(0, 4)}), quick=500,
       rule="draws of uniform, normal, lognormal and truncated Weibull distributions: bounds and Kolmogorov distance (1e-11), only the given part of an array is set; non-trivial: 60 draws or more with spread")
def draws(c, ctx):
    import numpy as np
    from gnome.utilities import rand
    rand.seed(c['seed'])
    d = make(c['d'])
    if c['n'] > 3000 and (c['d']['kind'] == 'weibull' or point(c['d']) is not None):
        c = dict(c, n=3000)
    a = np.full(c['n'] + 2 * c['pad'], -77.0)
    d.set_values(a[c['pad']:c['pad'] + c['n']])
    v = a[c['pad']:c['pad'] + c['n']]
    ctx.check((a[:c['pad']] == -77).all() and (a[c['pad'] + c['n']:] == -77).all(), "wrote outside its part")
    sp = follows(ctx, c['d'], v, "set_values")
    b = np.zeros(c['n'])
    d.set_values(b)
    ctx.check(not sp or c['n'] < 2 or not np.array_equal(b, v), "second draw gives the same values")
    rand.seed(c['seed'])
    d.set_values(b)
    ctx.check(np.array_equal(b, v), "the same seed gives other values")
    ctx.nontrivial(sp and c['n'] >= 60)
    ctx.label(c['d']['kind'], 'truncated' if c['d'].get('min_') is not None or c['d'].get('max_') is not None else 'whole')


@facet('C22', st.tuples(st.sampled_from([None, 0.0, -1.0, 1e-6, 1e-4, 2.0, 90.0]), st.sampled_from([None, 0.0, -1.0, 1e-6, 4e-5, 6e-5, 1e-3, 3.0, 80.0]),
                        st.sampled_from([None, 0.7, 1.8, 3.0]), st.sampled_from([1e-4, 1.0, 10.0])), quick=200,
       rule="Weibull bounds that leave nothing, are negative or reversed are refused, others accepted (and then drawing ends); non-trivial: both bounds given")
def weibull_bounds(c, ctx):
    import numpy as np
    from gnome.utilities.distributions import WeibullDistribution
    lo, hi, al, la = c
    bad = al is None
    if not bad:
        w = lambda y: 1 - math.exp(-(max(y, 0) / la) ** al)
        for x, lim in ((lo, 0.999), (hi, 0.001)):
            if x is not None and abs(w(x) - lim) < 1e-9:
                return
        bad = (lo is not None and (lo < 0 or w(lo) > 0.999)) or \
            (hi is not None and (hi <= 0 or w(hi) < 0.001 or hi < 5e-5 or (lo is not None and hi < lo)))
    try:
        d = WeibullDistribution(alpha=al, lambda_=la, min_=lo, max_=hi)
    except (ValueError, TypeError) as e:
        ctx.check(bad, "refused: %s", e)
    else:
        ctx.check(not bad, "accepted a distribution that cannot be drawn from")
        if not (lo is not None and hi is not None and w(hi) - w(lo) < 1e-3):
            v = np.zeros(8)
            d.set_values(v)
            ctx.check((v >= (lo or 0)).all() and (hi is None or (v <= hi).all()), "drew %s", v)
    ctx.nontrivial(lo is not None and hi is not None and al is not None)


def rise(rho, d, nu, rw):
    """Stokes' law below 0.2 mm, form drag above 10 mm, a cubic that joins them in between"""
    b = 9.8 * (rw - rho) / rw
    S, Fm = (lambda x: b * x * x / 18 / nu), (lambda x: math.sqrt(8 * b * x / 3))
    slope = lambda f, x: f(x) / x / 2
    a, e = 2e-4, 1e-2
    if d < a:
        return S(d)
    if d >= e:
        return Fm(d)
    t, h = (d - a) / (e - a), e - a
    return ((2 * t ** 3 - 3 * t ** 2 + 1) * S(a) + (t ** 3 - 2 * t ** 2 + t) * h * slope(S, a)
            + (3 * t ** 2 - 2 * t ** 3) * Fm(e) + (t ** 3 - t ** 2) * h * slope(Fm, e))


@facet('C22', st.fixed_dictionaries({
    'd': st.lists(st.one_of(grid(1e-6, 4e-4, 50), grid(1e-4, 1.2e-2, 50), grid(5e-3, 5e-2, 20), st.sampled_from([2e-4, 1e-2, 0.0])), min_size=1, max_size=12),
    'rho': st.lists(st.sampled_from([700.0, 870.5, 990.0, 1010.0]), min_size=1, max_size=4), 'nu': st.sampled_from([1e-6, 1.3e-6, 3e-6]),
    'rw': st.sampled_from([1012.0, 1020.0, 1030.0])}), quick=600,
    rule="rise velocities of droplets from 0 to 5 cm against the Stokes, form drag and joining formulas; grow with size and buoyancy; non-trivial: droplets of at least two regimes")
def droplet_rise(c, ctx):
    import numpy as np
    from gnome.cy_gnome.cy_rise_velocity_mover import rise_velocity_from_drop_size
    d = np.array(c['d'])
    rho = np.array([c['rho'][i % len(c['rho'])] for i in range(len(d))])
    v = np.zeros(len(d))
    rise_velocity_from_drop_size(v, rho, d.copy(), c['nu'], c['rw'])
    for i in range(len(d)):
        ref = rise(rho[i], d[i], c['nu'], c['rw'])
        ctx.close(v[i], ref, rtol=1e-9, atol=1e-15, msg="rise velocity of a droplet of %g m and %g kg/m3" % (d[i], rho[i]))
    for x in (2e-4, 1e-2):
        q = np.zeros(2)
        rise_velocity_from_drop_size(q, np.full(2, rho[0]), np.array([x * (1 - 1e-9), x * (1 + 1e-9)]), c['nu'], c['rw'])
        ctx.close(q[0], q[1], rtol=1e-6, msg="the rise velocity jumps at a droplet size of %g m" % x)
    ctx.nontrivial(len({(x >= 2e-4) + (x >= 1e-2) for x in c['d']}) > 1)


@st.composite
def plume_run(draw):
    kind = draw(st.sampled_from(['droplet_size', 'droplet_size', 'rise_velocity', 'substance']))
    dt = draw(st.sampled_from([60, 300, 900]))
    n = draw(st.integers(2, 6))
    return {'kind': kind, 'd': draw(dist(scale=1e-3, positive=True)), 'dt': dt, 'n': n, 'els': draw(st.sampled_from([6, 60, 200])),
            'z': draw(st.sampled_from([0.0, 1.0, 30.0, 400.0])), 'dur': draw(st.sampled_from([0, 1, 2])) * dt, 'oil': draw(st.sampled_from(OILS)),
            'oilwater': draw(st.booleans()), 'temp': draw(st.sampled_from([275.0, 288.15, 300.0])), 'unc': draw(st.booleans()),
            'seed': draw(st.integers(0, 10 ** 6)), 'mover': draw(st.sampled_from([True, True, False])), 'two': draw(st.booleans())}


@facet('C22', plume_run(), quick=140,
       rule="runs of subsurface releases: drawn sizes or velocities, the rise velocity that belongs to each, kept for life, and the depth of every element after every step; non-trivial: released below the surface with a rise velocity mover")
def subsurface_runs(c, ctx):
    import gnome.scripting as gs
    import numpy as np
    from gnome.environment import Water
    from gnome.movers import RiseVelocityMover
    from gnome.spills.gnome_oil import GnomeOil
    from gnome.spills.substance import SubsurfaceSubstance
    from gnome.utilities import rand
    m = gs.Model(start_time=T0, time_step=c['dt'], duration=timedelta(seconds=c['dt'] * c['n']), uncertain=c['unc'])
    end = when(c['dur']) if c['dur'] else None
    kw = dict(release_time=T0, end_release_time=end)
    water = Water(temperature=c['temp'], units={'temperature': 'K'})

    def substance():
        if c['kind'] == 'substance':
            return SubsurfaceSubstance(make(c['d']), standard_density=905.0)
        return GnomeOil(c['oil'], water=water if c['oilwater'] else None)

    def add(sub, pos):
        if c['kind'] == 'substance':
            m.spills += gs.point_line_spill(num_elements=c['els'], start_position=pos, substance=sub, **kw)
        else:
            m.spills += gs.subsurface_spill(num_elements=c['els'], start_position=pos, distribution=make(c['d']),
                                            distribution_type=c['kind'], substance=sub, **kw)
    sub = substance()
    add(sub, (1.0, 2.0, c['z']))
    if c['two']:
        add(sub, (1.5, 2.0, c['z']))
    if c['mover']:
        m.movers += RiseVelocityMover()
    rho = 905.0
    if c['kind'] != 'substance':
        rho = sub.density_at_temp(c['temp']) if c['oilwater'] else sub.density_at_temp(288.15)
    rand.seed(c['seed'])
    seen, depth, moved = [{}, {}], [{}, {}], 0
    for k in range(c['n'] + 1):
        m.step()
        for j, sc in enumerate(m.spills.items()):
            ids = sc['id'].tolist()
            v = sc['rise_vel']
            if c['kind'] != 'rise_velocity':
                dd = sc['droplet_diameter']
                for x, y in zip(dd.tolist(), v.tolist()):
                    ctx.close(y, rise(rho, x, 1e-6, 1020.0), rtol=1e-7, atol=1e-15, msg="rise velocity of a droplet of %g m" % x)
            q = v if c['kind'] == 'rise_velocity' else dd
            for i, x, z in zip(ids, q.tolist(), sc['positions'][:, 2].tolist()):
                ctx.equal(seen[j].setdefault(i, x), x, "size or rise velocity of element %d changed" % i)
                if i in depth[j]:
                    want = max(depth[j][i] - (v[ids.index(i)] * c['dt'] if c['mover'] else 0.0), 0.0)
                    ctx.close(z, want, rtol=1e-9, atol=1e-9, msg="step %d: depth of element %d" % (k, i))
                    moved += 1
                depth[j][i] = z
    for j, sc in enumerate(m.spills.items()):
        ctx.equal(len(seen[j]), c['els'] * (2 if c['two'] else 1), "number of elements")
        follows(ctx, c['d'], np.array(list(seen[j].values())), "elements")
    ctx.nontrivial(c['z'] > 0 and c['mover'] and moved > 0)
    ctx.label(c['kind'], 'uncertain' if c['unc'] else 'forecast')


@facet('C22', st.fixed_dictionaries({
    'flux': st.lists(st.sampled_from([0.0, 0.5, 3.0, 10.0, 250.0]), min_size=1, max_size=7).filter(lambda x: sum(x) > 0),
    'dt': st.sampled_from([60, 600, 3600]), 'steps': st.integers(1, 10), 'open': st.booleans(), 'n': st.sampled_from([None, 1, 17, 500]),
    'cuts': st.lists(st.integers(-100, 40000), max_size=5)}), quick=400,
    rule="plume generators: elements per depth up to any time are the whole elements its flux has filled, however the time is split; non-trivial: at least two depths and elements")
def plumes(c, ctx):
    import itertools
    import numpy as np
    from gnome.utilities.plume import Plume, PlumeGenerator
    depths = [10.0 * i for i in range(len(c['flux']))]
    span = c['dt'] * c['steps']
    end = None if c['open'] else when(span)
    g = PlumeGenerator(T0, end, c['dt'], Plume((28.0, -78.0, 0.0), list(zip(depths, c['flux']))))
    le = sum(c['flux']) / len(c['flux']) * c['dt']
    if c['n'] and not c['open']:
        g.set_le_mass_from_total_le_count(c['n'])
        le = sum(c['flux']) * span / c['n']
    ctx.close(g.mass_of_an_le, le, rtol=1e-12, msg="mass of an element")

    def ref(t):
        t = max(t, 0) if c['open'] else min(max(t, 0), span)
        return [f * t / le for f in c['flux']]
    ts = sorted(c['cuts'])
    for t in ts:
        for a, x in zip(g.elems_from_beginning(when(t)).tolist(), ref(t)):
            ctx.check(a == int(math.floor(x)) or abs(x - round(x)) < 1e-6 and abs(a - x) <= 1, "%s elements up to %s s, flux gives %s", a, t, x)
    for a, b in zip(ts, ts[1:]):
        d = g.elems_in_range(when(a), when(b))
        ctx.check((d >= 0).all(), "%s elements between %s and %s", d, a, b)
    tot = np.zeros(len(depths), int)
    steps = list(itertools.islice(iter(g), c['steps']))
    ctx.equal(len(steps), c['steps'], "number of steps")
    for k, (t, els) in enumerate(steps):
        ctx.equal(t, when(k * c['dt']), "time of step %d" % k)
        ctx.equal([float(p['z']) for p, _ in els], depths, "depths")
        tot += [int(x) for _, x in els]
    ctx.check((tot == g.elems_from_beginning(when(span))).all(), "steps release %s elements, the whole time %s", tot, g.elems_from_beginning(when(span)))
    if c['n'] and not c['open']:
        ctx.check(0 <= c['n'] - tot.sum() <= len(depths), "%d elements for %d asked", tot.sum(), c['n'])
    ctx.nontrivial(len(depths) > 1 and tot.sum() > 0)


@facet('C22', st.fixed_dictionaries({'x': grid(0.01, 40, 60), 'w': grid(0.1, 30, 30), 'f': grid(0.01, 0.99, 50)}), quick=300,
       rule="Rayleigh wind distribution: the quantile undoes the distribution function, the density is its slope, its mean is the average speed; non-trivial: all")
def rayleigh(c, ctx):
    import numpy as np
    from gnome.utilities.distributions import RayleighDistribution as R
    s = float(R.sigma_from_wind(c['w']))
    ctx.close(s * math.sqrt(math.pi / 2), c['w'], rtol=1e-9, msg="mean speed")
    F = float(R.cdf(c['x'], s))
    ctx.check(0 <= F <= 1, "distribution function %s", F)
    if F < 1 - 1e-9:
        ctx.close(float(R.quantile(F, s)), c['x'], rtol=1e-4, msg="quantile of the distribution function")
    ctx.close(float(R.cdf(float(R.quantile(c['f'], s)), s)), c['f'], rtol=1e-9, msg="distribution function of the quantile")
    h = s * 1e-4
    ctx.close((float(R.cdf(c['x'] + h, s)) - float(R.cdf(c['x'] - h, s))) / 2 / h, float(R.pdf(c['x'], s)), rtol=1e-4, atol=1e-7 / s, msg="density")
    q = R.quantile(np.array([c['f'] / 2, c['f']]), s)
    ctx.check(q[0] < q[1], "quantiles %s", q)
    ctx.nontrivial(True)
