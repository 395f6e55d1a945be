"""C27: a model finds, merges and checks exactly what was put into it."""
import warnings
from datetime import timedelta

from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import OILS, T0, grid, when

HOW = st.sampled_from(['index', 'id', 'back'])


def spill(k, **kw):
    import gnome.scripting as gs
    kw.setdefault('num_elements', k % 4 + 1)
    kw.setdefault('start_position', (0.001 * k, 0.0, 0.0))
    kw.setdefault('release_time', when(0))
    return gs.point_line_spill(substance=gs.NonWeatheringSubstance(windage_range=(0.0, 0.0)), amount=float(k), units='kg', name='s%d' % k, **kw)


# ---------------------------------------------------------------- spills of the forecast and of the uncertainty run
OP = st.one_of(
    st.tuples(st.just('add'), st.sampled_from(['one', 'append', 'list', 'pair', 'again', 'wrong']), st.integers(0, 3)),
    st.tuples(st.just('add'), st.sampled_from(['one', 'append', 'list', 'pair', 'again', 'wrong']), st.integers(0, 3)),
    st.tuples(st.just('del'), HOW, st.integers(0, 5)),
    st.tuples(st.just('set'), HOW, st.integers(0, 5)),
    st.tuples(st.just('update'), st.sampled_from(['same', 'reversed', 'fewer', 'new', 'none']), st.integers(0, 3)),
    st.tuples(st.just('unc'), st.booleans(), st.just(0)),
    st.tuples(st.just('edit'), st.just(''), st.integers(0, 5)),
    st.tuples(st.just('rewind'), st.just(''), st.just(0)),
    st.tuples(st.just('clear'), st.just(''), st.just(0)))


@facet('C27', st.fixed_dictionaries({'unc': st.booleans(), 'ops': st.lists(OP, min_size=1, max_size=12)}), quick=400,
       rule="histories of edits of a model's spills with the uncertainty on or off; non-trivial: a removal, replacement or update among at least two spills")
def spill_pairs(c, ctx):
    import gnome.scripting as gs
    model = gs.Model(start_time=when(0), duration=timedelta(hours=1), time_step=900, uncertain=c['unc'])
    pair = model.spills
    ref, unc, count, hard, stale = [], c['unc'], 0, False, False

    def new(**kw):
        nonlocal count
        count += 1
        return spill(count, **kw)

    def ident(how, i):
        if how == 'back':
            return i - len(ref), i
        return (i if how == 'index' else ref[i].id), i
    for op, how, k in c['ops']:
        if op == 'add':
            if how == 'one':
                s = new()
                pair += s
                ref.append(s)
            elif how == 'append':
                s = new()
                pair.append(s)
                ref.append(s)
            elif how == 'list':
                ss = [new() for i in range(k)]
                pair.add(ss)
                ref += ss
            elif how == 'pair':
                s = new()
                pair.add((s, s.uncertain_copy()) if unc else (s,))
                ref.append(s)
            elif how == 'wrong':
                s = new()
                ctx.raises(ValueError, lambda: pair.add((s,) if unc else (s, s.uncertain_copy())), "a tuple of the wrong length was accepted")
            elif ref:       # again: a spill that is already there
                pair += ref[k % len(ref)]
        elif op == 'del' and ref:
            hard = hard or len(ref) > 1
            a, i = ident(how, k % len(ref))
            if k % 2:
                del pair[a]
            else:
                pair.remove(a)
            del ref[i]
        elif op == 'set' and ref:
            hard = hard or len(ref) > 1
            a, i = ident(how, k % len(ref))
            s = new()
            pair[a] = s
            ref[i] = s
        elif op == 'update':
            want = {'same': list(ref), 'reversed': ref[::-1], 'fewer': ref[:-1], 'none': []}.get(how)
            if want is None:
                want = ref[:k] + [new()]
            changed = [id(x) for x in want] != [id(x) for x in ref]
            hard = hard or len(ref) > 1 and changed
            ctx.equal(bool(pair.update_from_dict({'spills': list(want)})), changed, "update with %s" % how)
            if changed:
                ref = list(want)
                stale = False
        elif op == 'unc':
            model.uncertain = how
            if how != unc:
                stale = False
            unc = how
        elif op == 'edit' and ref:
            ref[k % len(ref)].num_elements = k + 5
            stale = True        # the uncertain copy follows with the next rewind
        elif op == 'rewind':
            model.rewind()
            stale = False
        elif op == 'clear':
            pair.clear()
            ref, stale = [], False
        what = "after %s %s %d (%d spills, uncertainty %s)" % (op, how, k, len(ref), unc)
        ctx.equal(len(pair), len(ref), "number of spills " + what)
        ctx.check([id(x) for x in pair] == [id(x) for x in ref], "spills %s: %s, expected %s", what, [x.name for x in pair], [x.name for x in ref])
        ctx.equal(pair.uncertain, unc, "uncertainty " + what)
        cont = pair.items()
        ctx.equal(len(cont), 2 if unc else 1, "containers " + what)
        ctx.equal(model.contains_object(ref[0].id) if ref else True, True, "a spill of the model " + what)
        for i, s in enumerate(ref):
            ctx.check(s in pair and pair[i] is s and pair[s.id] is s and pair.index(s) == i and pair.spill_by_index(i) is s, "lookup of spill %d %s", i, what)
        if unc:
            u = list(cont[1].spills)
            ctx.equal(len(u), len(ref), "number of spills of the uncertainty run " + what)
            for a, b in zip(ref, u):
                ctx.check(a is not b and a.id != b.id, "the uncertainty run shares a spill with the forecast %s", what)
                ctx.equal(b.name, a.name, "spill of the uncertainty run " + what)
                if not stale:
                    ctx.check(a == b, "spill %s of the uncertainty run differs from the forecast's %s", a.name, what)
            ctx.check(all(pair.spill_by_index(i, uncertain=True) is x for i, x in enumerate(u)), "spill_by_index of the uncertainty run %s", what)
        total = sum(s.amount for s in ref)
        ctx.close(cont[0].total_mass or 0.0, total, "total mass " + what, rtol=1e-12)
    for s in ref:
        ctx.check(s in pair._spill_container.spills, "spill lost")
    # what is there is what runs
    model.rewind()
    model.step()
    for sc in model.spills.items():
        ctx.equal(len(sc), sum(s.num_elements for s in ref), "elements of the run (uncertain: %s)" % sc.uncertain)
    ctx.nontrivial(hard)
    ctx.label('uncertain' if unc else 'certain')


# ---------------------------------------------------------------- queries of the element data
OPS = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b}


@st.composite
def query_case(draw):
    cond = st.tuples(st.sampled_from(['mass', 'age', 'spill_num', 'status_codes', 'id', 'windages', 'density']), st.sampled_from(sorted(OPS)),
                     st.integers(0, 20), st.sampled_from(['at', 'above', 'below', 'whole']))
    return {'n': draw(st.integers(0, 5)), 'unc': draw(st.booleans()), 'seedy': draw(st.integers(0, 3)),
            'spills': draw(st.lists(st.tuples(st.integers(1, 5), st.sampled_from([0.0, 0.7, 2.0, 3.3, 40.0]), st.integers(0, 3), grid(-0.2, 0.2, 8)), min_size=1, max_size=3)),
            'q': draw(st.lists(st.tuples(st.sampled_from(['&&', '||', 'both']), st.lists(cond, min_size=1, max_size=3), st.lists(cond, min_size=1, max_size=2),
                                         st.lists(st.sampled_from(['mass', 'id', 'positions', 'age', 'status_codes']), unique=True, min_size=1, max_size=3)),
                               min_size=1, max_size=4))}


@facet('C27', query_case(), quick=250,
       rule="element data of runs asked for by name and by conditions on generated values; non-trivial: a condition that some but not all elements fulfil")
def queries(c, ctx):
    import numpy as np
    import gnome.scripting as gs
    model = gs.Model(start_time=when(0), duration=timedelta(hours=2), time_step=900, uncertain=c['unc'])
    sub = gs.NonWeatheringSubstance(windage_range=(0.01, 0.04), windage_persist=-1)
    for n, amount, late, lon in c['spills']:
        model.spills += gs.point_line_spill(num_elements=n, start_position=(lon, 0.0, 0.0), release_time=when(900 * late), amount=amount, units='kg', substance=sub)
    model.movers += gs.RandomMover(diffusion_coef=1e4)
    for k in range(c['n'] + 1):
        model.step()
    total = sum(a for _, a, _, _ in c['spills'])
    some = False
    for u, sc in enumerate(model.spills.items()):
        ctx.close(sc.total_mass or 0.0, total, "total mass spilled", rtol=1e-12)
        for name in model.list_spill_properties():
            want = sc[name]
            got = model.get_spill_property(name, ucert=bool(u))
            ctx.check(np.array_equal(got, want, equal_nan=np.asarray(want).dtype.kind == 'f'), "property %s of container %d", name, u)
            ctx.check(np.array_equal(model.spills.LE(name, uncertain=bool(u)), want, equal_nan=np.asarray(want).dtype.kind == 'f'), "LE(%s) of container %d", name, u)
            ctx.check(name in model.spills.LE_data, "%s is not among the names of element data", name)
        ctx.equal(model.spills.LE('current_time_stamp', uncertain=bool(u)), model.model_time, "time stamp")
        ctx.equal(model.spills.num_released[u], len(sc), "elements released")
        for join, one, two, targets in c['q']:
            groups = [one, two] if join == 'both' else [[x] for x in one] if join == '&&' else [one]
            text, masks = [], []
            for g in groups:
                t, m = [], np.zeros(len(sc), bool)
                for prop, op, j, where in g:
                    vals = np.unique(np.asarray(sc[prop], float))
                    v = float(vals[j % len(vals)]) if len(vals) else 0.0
                    v = {'at': v, 'above': v + 0.25, 'below': v - 0.25, 'whole': float(round(v))}[where]
                    t.append('%s %s %r' % (prop, op, v))
                    m |= OPS[op](np.asarray(sc[prop], float), v)
                text.append(' || '.join(t))
                masks.append(m)
            cond = ' && '.join(text)
            want = np.logical_and.reduce(masks)
            got = model.get_spill_data(list(targets), cond, ucert=[0, 'ucert'][u])
            ctx.equal(sorted(got), sorted(targets), "properties returned")
            for t in targets:
                w = np.asarray(sc[t])[want]
                g = np.asarray(got[t]).reshape(w.shape) if len(got[t]) == len(w) else None
                ctx.check(g is not None and np.array_equal(g, w), "elements with %s: %s of %d elements, expected %d: %s", cond, t, len(got[t]), len(w), w[:4])
            some = some or 0 < want.sum() < len(want)
    ctx.raises(ValueError, lambda: model.get_spill_property('no such property'), "a property that does not exist")
    ctx.nontrivial(some)


# ---------------------------------------------------------------- looking up and merging objects
OBJ = st.sampled_from(['wind', 'wind', 'water', 'simple', 'pointwind', 'random', 'sharedwind', 'evaporation', 'netcdf', 'spill', 'spill', 'current'])


@st.composite
def merge_case(draw):
    return {'a': draw(st.lists(OBJ, max_size=6)), 'b': draw(st.lists(OBJ, max_size=6)), 'shared': draw(st.lists(OBJ, max_size=2)),
            'unc': draw(st.booleans()), 'run': draw(st.integers(0, 2)), 'onlist': draw(st.booleans()), 'names': draw(st.sampled_from([0, 0, 1, 2]))}


@facet('C27', merge_case(), quick=250,
       rule="two models with generated objects, some of them shared, looked up by class, id and attribute and merged; non-trivial: objects in both, and one shared")
def merging(c, ctx):
    import os
    import numpy as np
    import gnome.scripting as gs
    from gnome.environment import SteadyUniformCurrent
    from gnome.environment.wind import Wind, constant_wind
    from gnome.movers import CurrentMover, PointWindMover, SimpleMover
    from gnome.outputters import NetCDFOutput
    from gnome.weatherers import Evaporation
    d = ctx.tmpdir()
    num = [0]
    shared_wind = constant_wind(3.0, 45.0)
    shared_wind.name = 'shared'

    def make(kind):
        num[0] += 1
        k = num[0]
        n = k % c['names'] if c['names'] else k  # names need not be unique
        if kind == 'wind':
            w = constant_wind(1.0 + k, 30.0 * k % 360)
            w.name = 'w%d' % n
            return 'environment', w
        if kind == 'water':
            return 'environment', gs.Water(temperature=280.0 + k, name='water%d' % n)
        if kind == 'simple':
            return 'movers', SimpleMover((0.1 * k, -0.05 * k, 0), name='m%d' % n)
        if kind == 'pointwind':
            w = constant_wind(1.0 + k, 10.0 * k % 360)
            return 'movers', PointWindMover(w, name='m%d' % n)
        if kind == 'sharedwind':
            return 'movers', PointWindMover(shared_wind, name='m%d' % n)
        if kind == 'current':
            return 'movers', CurrentMover(SteadyUniformCurrent(speed=0.1 * k, direction=20.0 * k % 360), name='m%d' % n)
        if kind == 'random':
            return 'movers', gs.RandomMover(diffusion_coef=0.0, name='m%d' % n)
        if kind == 'evaporation':
            return 'weatherers', Evaporation(wind=shared_wind, water=gs.Water(temperature=280.0 + k), on=False, name='e%d' % n)
        if kind == 'netcdf':
            return 'outputters', NetCDFOutput(os.path.join(d, 'o%d.nc' % k), name='o%d' % n)
        s = spill(k)
        s.name = 's%d' % n
        return 'spills', s
    refs = [{n: [] for n in ('environment', 'movers', 'weatherers', 'outputters', 'spills')} for _ in range(2)]
    models = [gs.Model(name='m%d' % i, start_time=when(0), duration=timedelta(hours=1), time_step=900, uncertain=c['unc']) for i in range(2)]

    def added(ref, coll, o):
        if not any(x is o for x in ref[coll]):
            ref[coll].append(o)
        if coll in ('movers', 'weatherers', 'environment'):
            for at in ('wind', 'tide', 'waves', 'water', 'current'):
                e = getattr(o, at, None)
                if e is not None and not any(x is e for x in ref['environment']):
                    ref['environment'].append(e)
    shared = [make(k) for k in c['shared']]
    for i, kinds in enumerate((c['a'], c['b'])):
        objs = [make(k) for k in kinds] + shared
        for coll, o in objs:
            oc = getattr(models[i], coll)
            if c['onlist'] and coll != 'spills':
                oc += [o]
            else:
                oc += o
            added(refs[i], coll, o)

    def compare(m, ref, what):
        for coll, want in ref.items():
            got = list(getattr(m, coll))
            ctx.check([id(x) for x in got] == [id(x) for x in want], "%s of %s: %s, expected %s", coll, what, [x.name for x in got], [x.name for x in want])
            for o in want:
                ctx.check(m.contains_object(o.id), "%s does not contain the %s %s", what, coll, o.name)
            for cls in (PointWindMover, SimpleMover, Wind, Evaporation, gs.Water, NetCDFOutput):
                w = [o for o in want if isinstance(o, cls)]
                got = m.find_by_class(cls, getattr(m, coll), ret_all=True)
                ctx.check([id(x) for x in got or []] == [id(x) for x in w], "objects of class %s in the %s of %s", cls.__name__, coll, what)
                ctx.check(m.find_by_class(cls, getattr(m, coll)) is (w[0] if w else None), "first %s in the %s of %s", cls.__name__, coll, what)
            if want:
                o = want[-1]
                same = [x for x in want if x.name == o.name]
                ctx.check(m.find_by_attr('name', o.name, getattr(m, coll)) is same[0], "%s called %s", coll, o.name)
                ctx.check([id(x) for x in m.find_by_attr('name', o.name, getattr(m, coll), allitems=True)] == [id(x) for x in same], "all %s called %s", coll, o.name)
        for o in ref['outputters']:
            if not any(o is x for _, x in shared):
                ctx.check(o.cache is m._cache, "the outputter reads the cache of another model")
        for at in ('wind', 'water', 'waves'):
            w = [o for o in ref['environment'] if getattr(o, '_ref_as', None) is not None and (o._ref_as == at if isinstance(o._ref_as, str) else at in o._ref_as)]
            ctx.check(m.find_by_attr('_ref_as', at, m.environment) is (w[0] if w else None), "the %s of %s", at, what)
        ctx.check(not m.contains_object('no such id') and m.contains_object(m.map.id), "contains_object")
    for i in range(2):
        compare(models[i], refs[i], 'model %d' % i)
    a, b = models
    for k in range(c['run']):
        if not refs[0]['outputters']:
            a.step()
    before = {k: [id(x) for x in getattr(b, k)] for k in refs[1]}
    a.merge(b)
    # everything of b that a did not have, each once; the order within a collection is kept
    for coll in refs[0]:
        got = [id(x) for x in getattr(a, coll)]
        mine, theirs = [id(x) for x in refs[0][coll]], [id(x) for x in refs[1][coll]]
        ctx.equal(sorted(got), sorted(set(mine) | set(theirs)), "%s of the merged model" % coll)
        ctx.equal(got[:len(mine)], mine, "own %s of the merged model" % coll)
        if coll != 'environment':
            ctx.equal(got[len(mine):], [x for x in theirs if x not in mine], "%s that came from the other model" % coll)
        ctx.equal([id(x) for x in getattr(b, coll)], before[coll], "%s of the model that was merged in" % coll)
    for o in a.outputters:
        ctx.check(any(o is x for _, x in shared) or o.cache is a._cache, "an outputter of the merged model reads the cache of another model")
    ctx.equal(a.current_time_step, -1, "step number after a merge")
    ctx.equal((a.start_time, a.duration, a.time_step, a.uncertain, a.name), (when(0), timedelta(hours=1), 900, c['unc'], 'm0'), "settings after a merge")
    # the merged model runs like one into which all was put directly
    spills, movers = [s for s in a.spills], [m for m in a.movers]
    if spills:
        end = []
        for direct in (False, True):
            if direct:
                m = gs.Model(start_time=when(0), duration=timedelta(hours=1), time_step=900)
                m.spills.add(spills)
                m.movers += movers
                m.rewind()
            else:
                m = a
                for o in list(m.outputters):
                    m.outputters.remove(o.id)
                for w in list(m.weatherers):
                    m.weatherers.remove(w.id)
                m.rewind()
            for k in range(3):
                m.step()
            end.append(np.array(m.get_spill_property('positions')))
            if not direct and c['unc']:
                ctx.equal(len(m.get_spill_property('positions', ucert=True)), len(end[0]), "elements of the uncertainty run")
        ctx.check(np.array_equal(*end), "the merged model moves its elements to %s, one put together directly to %s", end[0][:3], end[1][:3])
    ctx.nontrivial(bool(c['a'] and c['b'] and c['shared']))


# ---------------------------------------------------------------- the check before a run
@st.composite
def input_case(draw):
    sp = st.fixed_dictionaries({'lon': st.sampled_from([0.0, 0.0, 0.3, 0.7, 1.5]), 'rel': st.sampled_from([0, 0, 0, -1, 1, 3, 4, 5]), 'on': st.sampled_from([True, True, True, False]),
                                'dur': st.sampled_from([0, 0, 0, 2]), 'z': st.sampled_from([0.0, 0.0, 5.0]), 'end': st.sampled_from([None, None, 0.3, 1.5])})
    return {'n': 4, 'back': draw(st.sampled_from([False, False, True])), 'spills': draw(st.lists(sp, max_size=3)),
            'oil': draw(st.sampled_from([None, OILS[0]])), 'env': draw(st.lists(st.sampled_from(['wind', 'water', 'waves']), unique=True)),
            'evap': draw(st.sampled_from(['no', 'yes', 'off', 'given'])), 'temp': draw(st.sampled_from([275.0, 290.0])), 'land': draw(st.booleans()),
            'unc': draw(st.booleans())}


@facet('C27', input_case(), quick=300,
       rule="the check of generated model set-ups before a run: spills off the map, on land, too early or too late, missing wind or water, backward runs; non-trivial: something to report")
def checked_inputs(c, ctx):
    import gnome.scripting as gs
    from gnome.environment.wind import constant_wind
    from gnome.exceptions import GnomeRuntimeError
    from gnome.weatherers import Evaporation
    from vlib.gen import write_bna
    from gnome.maps import GnomeMap
    sgn = -1 if c['back'] else 1
    if c['land']:
        path = ctx.tmpdir() + '/l.bna'
        write_bna(path, [('map', [(-1, -1), (1, -1), (1, 1), (-1, 1)]), ('1', [(0.5, -0.5), (0.9, -0.5), (0.9, 0.5), (0.5, 0.5)])])
        gmap = gs.MapFromBNA(path, raster_size=64 * 64)
    else:
        gmap = GnomeMap(map_bounds=((-1, -1), (1, -1), (1, 1), (-1, 1)))
    model = gs.Model(start_time=when(0), duration=timedelta(hours=c['n']), time_step=3600, map=gmap, run_backwards=c['back'], uncertain=c['unc'])
    sub = gs.GnomeOil(c['oil']) if c['oil'] else gs.NonWeatheringSubstance()
    for i, s in enumerate(c['spills']):
        kw = {}
        if s['dur']:
            kw['end_release_time'] = when(3600 * (sgn * s['rel'] + s['dur']))
        if s['end'] is not None:
            kw['end_position'] = (s['end'], 0.0, s['z'])
        model.spills += gs.point_line_spill(num_elements=9, start_position=(s['lon'], 0.0, s['z']), release_time=when(3600 * sgn * s['rel']),
                                            substance=sub, amount=10, units='kg', name='spill-%d' % i, on=s['on'], **kw)
    wind, water = constant_wind(5, 90), gs.Water(temperature=c['temp'])
    have = set()
    for e in c['env']:
        model.environment += {'wind': wind, 'water': water, 'waves': gs.Waves(wind, water)}[e]
        have |= {'wind', 'water', 'waves'} if e == 'waves' else {e}
    if c['evap'] == 'given':
        model.weatherers += Evaporation(wind=wind, water=water)
        have |= {'wind', 'water'}
    elif c['evap'] != 'no':
        model.weatherers += Evaporation(on=c['evap'] == 'yes')
    on = [(i, s) for i, s in enumerate(c['spills']) if s['on']]
    weathering = c['evap'] in ('yes', 'given')
    early = [i for i, s in on if s['rel'] < 0]
    late = [i for i, s in on if s['rel'] > 0]
    missing = {'wind', 'water'} - have if c['evap'] == 'yes' else set()
    refused = c['back'] and (any(s['dur'] for _, s in on) or c['oil'] and weathering and on)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if refused:
            ctx.raises(GnomeRuntimeError, model.check_inputs, "a backward run of a continuous release or with weathering")
            ctx.nontrivial()
            return
        msgs, valid = model.check_inputs()
    text = '\n'.join(msgs)

    def told(name, words):
        return any(name in m and words in m for m in msgs)
    off = lambda x: abs(x) > 1
    onland = lambda x: c['land'] and x == 0.7
    for i, s in enumerate(c['spills']):
        name = 'spill-%d' % i
        if not s['on']:
            ctx.check(name not in text, "a spill that is switched off is reported: %s", text)
            continue
        xs = [s['lon']] + ([s['end']] if s['end'] is not None else [])
        ctx.equal(told(name, 'outside of map bounds'), any(map(off, xs)), "spill at %s (map to 1) reported off the map" % xs)
        ctx.equal(told(name, 'on land'), any(map(onland, xs)), "spill at %s reported on land" % xs)
        ctx.equal(told(name, 'after model start'), s['rel'] > 0, "spill released %d h after the start reported late" % s['rel'])
        ctx.equal(told(name, 'before model start'), s['rel'] < 0, "spill released %d h after the start reported early" % s['rel'])
    for x in ('wind', 'water', 'waves'):
        ctx.equal(told(x, 'not found in environment'), x in missing, "%s reported missing (environment %s, evaporation %s)" % (x, c['env'], c['evap']))
    ctx.equal('contains no spills' in text, not c['spills'], "no spills reported")
    ctx.equal('time interval being modeled' in text, bool(on) and all(s['rel'] >= c['n'] for _, s in on), "all spills after the run reported")
    ctx.equal(bool(valid), not (early or missing), "the set-up is valid (%s)" % text)
    if not missing:
        # an invalid set-up does not start, a valid one does
        def start():
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                model.step()
        if early:
            ctx.raises(RuntimeError, start, "a model with a spill before its start was started")
            ctx.equal(model.current_time_step, -1, "step number of a model that did not start")
            for i in early:
                model.spills[i].on = False
            model.rewind()
        if not (weathering and c['oil'] and not {'wind', 'water'} <= have):
            start()
            ctx.equal(model.current_time_step, 0, "step number of a model that was started")
    ctx.nontrivial(bool(msgs))
