"""C09: a process that is off, or outside its active range, has no effect at all."""
from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import grid, make_wind, when, wind_spec
from vlib import scen

MOVERS = ['simple', 'wind', 'pywind', 'random', 'random3d', 'current', 'rise']
WEATHER = ['skim', 'burn', 'disp', 'evaporation', 'dispersion']


@st.composite
def extra(draw, kinds, n, dt):
    return {'kind': draw(st.sampled_from(kinds)), 'mode': draw(st.sampled_from(['off', 'after', 'before', 'switched'])),
            'wind': draw(wind_spec()), 'first': draw(st.booleans()), 'gap': draw(st.sampled_from([0, 1, 7]))}


@st.composite
def movers_case(draw):
    c = draw(scen.transport_scenario(max_steps=6, max_n=10))
    c['extra'] = draw(st.lists(extra(MOVERS + ['wind', 'pywind'], c['n'], c['dt']), min_size=1, max_size=3))
    if draw(st.booleans()):      # windages that are drawn anew in each step
        for s in c['spills']:
            s['windage'], s['wpersist'] = (0.01, 0.04), 900
    return c


@st.composite
def weather_case(draw):
    c = draw(scen.weathering_scenario(max_steps=6, max_n=8, cleanup=False))
    c['extra'] = draw(st.lists(extra(MOVERS + WEATHER * 2, c['n'], c['dt']), min_size=1, max_size=3))
    return c


def add_extra(model, e, c):
    import gnome.scripting as gs
    from gnome.environment import SteadyUniformCurrent
    from gnome.movers import CurrentMover, PointWindMover, RandomMover3D, RiseVelocityMover, SimpleMover, WindMover
    from gnome.weatherers import Burn, ChemicalDispersion, Evaporation, NaturalDispersion, Skimmer
    end = c['dt'] * c['n']
    gap = e['gap'] * c['dt']
    kw = {}
    if e['mode'] == 'off':
        kw['on'] = False
    elif e['mode'] == 'after':
        # the last step starts at end - dt and its middle is half a step before the end
        kw['active_range'] = (when(end + gap), when(end + gap + 3600))
    elif e['mode'] == 'before':
        kw['active_range'] = (when(-3600 - gap), when(-gap))
    k = e['kind']
    env = list(model.environment)
    wind = [x for x in env if type(x).__name__ == 'Wind'][0]
    water = [x for x in env if type(x).__name__ == 'Water'][0]
    waves = [x for x in env if type(x).__name__ == 'Waves'][0]
    if k == 'simple':
        p = SimpleMover(velocity=(0.7, -0.3, 0.0), **kw)
    elif k == 'wind':
        p = PointWindMover(make_wind(e['wind']), **kw)
    elif k == 'pywind':
        p = WindMover(make_wind(e['wind']), **kw)
    elif k == 'random':
        p = gs.RandomMover(diffusion_coef=50000.0, **kw)
    elif k == 'random3d':
        p = RandomMover3D(**kw)
    elif k == 'rise':
        p = RiseVelocityMover(**kw)
    elif k == 'current':
        p = CurrentMover(SteadyUniformCurrent(speed=1.0, direction=30.0), **kw)
    else:
        ar = kw.pop('active_range', (when(0), when(end)))
        if k == 'skim':
            p = Skimmer(amount=50, units='kg', efficiency=0.5, active_range=ar, water=water, **kw)
        elif k == 'burn':
            p = Burn(area=10, thickness=0.02, active_range=ar, area_units='m^2', thickness_units='m',
                     efficiency=0.5, wind=wind, water=water, **kw)
        elif k == 'disp':
            p = ChemicalDispersion(fraction_sprayed=0.3, active_range=ar, efficiency=0.5, waves=waves, **kw)
        elif k == 'evaporation':
            p = Evaporation(wind=wind, water=water, active_range=ar, **kw)
        else:
            p = NaturalDispersion(waves=waves, water=water, active_range=ar, **kw)
    if e['mode'] == 'switched':
        p.on = False
    coll = model.weatherers if k in WEATHER else model.movers
    items = list(coll) if e['first'] else []
    for x in items:
        coll.remove(x.id)
    coll += p
    for x in items:
        coll += x
    return p


def base_model(c, tmp):
    return scen.make_model(c, tmp)


def compare(c, ctx):
    import numpy as np
    from gnome.utilities import rand
    a = base_model(c, ctx.tmpdir())
    ra = scen.run_all(a)
    b = base_model(c, ctx.tmpdir())
    used = []
    for e in c['extra']:
        # a burn stops only when everything is burned, and the standard processes may be there already
        if e['kind'] == 'burn' and e['mode'] == 'before':
            e['mode'] = 'after'
        if e['kind'] in ('evaporation', 'dispersion') and e['kind'] in c['weather']:
            continue
        used.append(e['kind'] + '/' + e['mode'])
        add_extra(b, e, c)
    rb = scen.run_all(b)
    ctx.equal(len(rb), len(ra), "number of steps")
    # a process that needs the slick area makes the model add spreading, which is on in its own right
    spreads = any(getattr(w, '_ref_as', None) == 'spreading' and w.on for w in a.weatherers)
    skip = () if spreads else ('area', 'fay_area', 'max_area_le', 'frac_coverage')
    for i, ((t1, s1, m1), (t2, s2, m2)) in enumerate(zip(ra, rb)):
        ctx.equal(t1, t2, "time of step %d" % i)
        for j, (x, y) in enumerate(zip(s1, s2)):
            for k in x:
                if k in skip:
                    continue
                ctx.check(k in y, "array %s disappeared", k)
                ctx.check(np.array_equal(x[k], y[k], equal_nan=x[k].dtype.kind == 'f'),
                          "step %d, container %d: array %r changed by %s: %s became %s", i, j, k, used, x[k][:4], y[k][:4])
        for j, (x, y) in enumerate(zip(m1, m2)):
            for k in x:
                ctx.check(x[k] == y.get(k) or x[k] != x[k], "step %d, container %d: %s changed by %s: %r became %r",
                          i, j, k, used, x[k], y.get(k))
            for k in y:
                if k in scen.LOSSES and k not in x:
                    ctx.equal(y[k], 0.0, "step %d: %s with %s" % (i, k, used))
    ctx.nontrivial(bool(used) and any(len(s[0]['id']) for _, s, _ in ra))
    ctx.label(*used)


@facet('C09', movers_case(), quick=110,
       rule="transport runs with and without extra movers that are off, switched off or out of range; non-trivial: the run has elements and an extra process")
def inactive_movers(c, ctx):
    compare(c, ctx)


@facet('C09', weather_case(), quick=110,
       rule="weathering runs with and without extra processes that are off, switched off or out of range; non-trivial: the run has elements and an extra process")
def inactive_processes(c, ctx):
    compare(c, ctx)


@st.composite
def window_case(draw):
    c = draw(scen.weathering_scenario(max_steps=8, max_n=8, cleanup=False, unc=False, maps=('none',)))
    n, dt = c['n'], c['dt']
    c['weather'] = ['emulsification']
    c['win'] = {}
    for k in draw(st.lists(st.sampled_from(['evaporation', 'dispersion', 'skim', 'burn', 'disp']), min_size=1, max_size=3, unique=True)):
        a = draw(st.integers(-2, 2 * n))
        b = a + draw(st.integers(1, 2 * n))
        c['win'][k] = (a * dt // 2, b * dt // 2)
    return c


KEY = {'evaporation': 'evaporated', 'dispersion': 'natural_dispersion', 'skim': 'skimmed', 'burn': 'burned', 'disp': 'chem_dispersed'}


@facet('C09', window_case(), quick=120,
       rule="runs whose loss processes have active ranges; a loss may grow only in steps whose middle lies in the range; non-trivial: some loss in some step and some step out of range")
def losses_only_while_active(c, ctx):
    from gnome.weatherers import Evaporation, NaturalDispersion
    model = scen.make_model(c, ctx.tmpdir())
    env = list(model.environment)
    wind = [x for x in env if type(x).__name__ == 'Wind'][0]
    water = [x for x in env if type(x).__name__ == 'Water'][0]
    waves = [x for x in env if type(x).__name__ == 'Waves'][0]
    for k, (a, b) in c['win'].items():
        ar = (when(a), when(b))
        if k == 'evaporation':
            model.weatherers += Evaporation(wind=wind, water=water, active_range=ar)
        elif k == 'dispersion':
            model.weatherers += NaturalDispersion(waves=waves, water=water, active_range=ar)
        else:
            model.weatherers += scen.make_cleanup({'kind': k, 'from': a, 'to': b, 'eff': 0.5, 'amount': 50.0, 'units': 'kg'},
                                                  wind, water, waves)
    prev = {}
    grew = quiet = False
    for k in range(c['n'] + 1):
        model.step()
        bal = scen.budget_of(model)[0]
        mid = (k - 1) * c['dt'] + c['dt'] / 2
        for name, (a, b) in c['win'].items():
            key = KEY[name]
            now, old = bal.get(key, 0.0), prev.get(key, 0.0)
            inside = (a <= mid <= b) or (name == 'burn' and mid >= a)
            if k > 0 and not inside:
                quiet = True
                ctx.check(now == old, "step %d (middle %s s): %s went from %r to %r outside its active range %s", k, mid, key, old, now, (a, b))
            grew = grew or now > old
        prev = bal
    ctx.nontrivial(grew and quiet)
    ctx.label(*c['win'])


@st.composite
def range_case(draw):
    pt = st.one_of(st.integers(-10, 10), st.integers(-10, 10), st.integers(-20, 20).map(lambda x: x / 2), st.sampled_from(['-inf', 'inf']))
    return {'kind': draw(st.sampled_from(['simple', 'wind', 'random', 'pywind', 'skim', 'evaporation'])),
            'a': draw(pt), 'b': draw(pt), 'now': draw(st.integers(-10, 10)), 'dt': draw(st.sampled_from([1, 2, 4, -2])),
            'on': draw(st.booleans()), 'unit': draw(st.sampled_from([900, 901]))}


@facet('C09', range_case(), quick=900,
       rule="the active flag of a process for generated ranges (open ends included), times and steps; inverted ranges are refused; non-trivial: a valid range")
def active_flag(c, ctx):
    from gnome.environment.wind import constant_wind
    from gnome.movers import PointWindMover, RandomMover, SimpleMover, WindMover
    from gnome.utilities.inf_datetime import InfDateTime
    from gnome.weatherers import Evaporation
    from vlib.props.c08 import container
    U = c['unit']

    def tm(x):
        return InfDateTime(x) if isinstance(x, str) else when(x * U)

    def num(x):
        return {'-inf': float('-inf'), 'inf': float('inf')}.get(x, x)
    mk = {'simple': lambda **k: SimpleMover(velocity=(1, 1, 0), **k),
          'wind': lambda **k: PointWindMover(constant_wind(5, 90), **k),
          'pywind': lambda **k: WindMover(constant_wind(5, 90), **k),
          'random': lambda **k: RandomMover(**k),
          'evaporation': lambda **k: Evaporation(wind=constant_wind(5, 90), **k),
          'skim': lambda **k: SimpleMover(velocity=(1, 1, 0), **k)}[c['kind']]
    a, b = num(c['a']), num(c['b'])
    if not a < b:
        ctx.raises(ValueError, lambda: mk(active_range=(tm(c['a']), tm(c['b']))), "active range %s - %s accepted" % (c['a'], c['b']))
        p = mk()

        def setit():
            p.active_range = (tm(c['a']), tm(c['b']))
        ctx.raises(ValueError, setit, "setting active range %s - %s accepted" % (c['a'], c['b']))
        return
    p = mk(on=c['on'], active_range=(tm(c['a']), tm(c['b'])))
    q = mk()
    q.on = c['on']
    q.active_range = (tm(c['a']), tm(c['b']))
    want = c['on'] and a <= c['now'] + c['dt'] / 2 <= b
    for r in (p, q):
        if c['kind'] == 'evaporation':
            class SC(dict):
                substance = None
                uncertain = False
                num_released = 0

                def __len__(self):
                    return 0
            from gnome.movers.movers import Process
            Process.prepare_for_model_step(r, SC(), c['dt'] * U, when(c['now'] * U))
        else:
            sc = container([(0, 0, 0)], [2])
            r.prepare_for_model_run()
            r.prepare_for_model_step(sc, c['dt'] * U, when(c['now'] * U))
        ctx.equal(bool(r.active), bool(want), "%s active at %s + %s/2 with range (%s, %s), on=%s" % (
            c['kind'], c['now'], c['dt'], c['a'], c['b'], c['on']))
    ctx.nontrivial()
