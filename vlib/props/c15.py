"""C15: what the element cache gives back for a step is what the model held after that step."""
import os
from datetime import timedelta

from hypothesis import strategies as st

from vlib.engine import facet
from vlib import scen
from vlib.gen import T0, when


def state(model):
    """everything a cached step has to give back, copied"""
    import numpy as np
    out = []
    for sc in model.spills.items():
        out.append((bool(sc.uncertain), sc.current_time_stamp,
                    {k: np.array(v, copy=True) for k, v in sc.data_arrays.items()},
                    {k: (v.item() if hasattr(v, 'item') else v) for k, v in sc.mass_balance.items()}))
    return out


def same(a, b):
    import numpy as np
    return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')


def compare(ctx, pair, want, k, what):
    got = list(pair.items())
    ctx.equal([bool(sc.uncertain) for sc in got], [w[0] for w in want], "%s: containers of step %d" % (what, k))
    for sc, (unc, t, arrays, mb) in zip(got, want):
        name = "%s: step %d, %s elements: " % (what, k, 'uncertain' if unc else 'forecast')
        ctx.equal(sc.current_time_stamp, t, name + "time")
        ctx.equal(sorted(sc.data_arrays), sorted(arrays), name + "arrays")
        for a in arrays:
            ctx.check(same(sc.data_arrays[a], arrays[a]), "%sarray %r: got %s, expected %s", name, a,
                      sc.data_arrays[a][:4], arrays[a][:4])
        ctx.equal(sorted(sc.mass_balance), sorted(mb), name + "mass balance entries")
        for e in mb:
            x, y = sc.mass_balance[e], mb[e]
            ctx.check(x == y or (x != x and y != y), "%smass balance %r: got %r, expected %r", name, e, x, y)


OPS = st.lists(st.one_of(
    st.just(('step',)), st.just(('step',)), st.just(('step',)), st.just(('step',)),
    st.tuples(st.just('load'), st.integers(-1, 12)),
    st.tuples(st.just('load'), st.integers(-1, 12)),
    st.tuples(st.just('scribble'), st.integers(0, 12)),
    st.tuples(st.just('scribble_live')),
    st.tuples(st.just('enable'), st.booleans()),
    st.just(('rewind',)),
    st.tuples(st.just('uncertain'), st.booleans()),
    st.just(('full',)),
), min_size=4, max_size=30)


@st.composite
def history_case(draw):
    c = draw(st.one_of(scen.weathering_scenario(max_steps=7, max_spills=2, max_n=10),
                       scen.transport_scenario(max_steps=8, max_spills=2, max_n=10)))
    return {'c': c, 'enabled': draw(st.sampled_from([True, True, True, False])), 'ops': draw(OPS),
            'other': draw(st.booleans())}


def scribble(pair):
    for sc in pair.items():
        for v in sc.data_arrays.values():
            v[...] = 0
        for k in list(sc.mass_balance):
            sc.mass_balance[k] = -1.0


@facet('C15', history_case(), quick=260, rule="non-trivial: a step other than the latest is read back with elements in it")
def history(case, ctx):
    from gnome.utilities.cache import CacheError
    c = case['c']
    m = scen.make_model(c, ctx.tmpdir(), cache_enabled=case['enabled'])
    other = None
    if case['other']:         # a second model with its own cache runs in the same process
        import gnome.scripting as gs
        other = gs.Model(start_time=T0, duration=timedelta(hours=10), time_step=600)
        other.spills += gs.point_line_spill(num_elements=2, start_position=(9, 9, 0), release_time=T0)
    disk, latest, enabled = {}, None, case['enabled']

    def load_and_check(k):
        have = disk.get(k) or (latest[1] if latest and latest[0] == k else None)
        if have is None:
            ctx.raises(CacheError, lambda: m._cache.load_timestep(k), "step %d, which is not in the cache" % k)
            return None
        pair = m._cache.load_timestep(k)
        compare(ctx, pair, have, k, 'load')
        ctx.nontrivial(k in disk and k != latest[0] and len(have[0][2]['mass']) > 0)
        return pair

    def forget():
        return {}, None

    for op in case['ops']:
        if op[0] == 'step':
            if m.current_time_step == m.num_time_steps - 1:
                continue
            m.step()
            latest = (m.current_time_step, state(m))
            disk.pop(latest[0], None)
            if enabled:
                disk[latest[0]] = latest[1]
            if other:
                if other.current_time_step >= 40:
                    other.rewind()
                other.step()
        elif op[0] == 'full':
            m.rewind()
            disk, latest = forget()
            while True:
                try:
                    m.step()
                except StopIteration:
                    break
                latest = (m.current_time_step, state(m))
                if enabled:
                    disk[latest[0]] = latest[1]
        elif op[0] == 'load':
            load_and_check(op[1])
        elif op[0] == 'scribble':
            pair = load_and_check(op[1])
            if pair is not None:
                scribble(pair)
                load_and_check(op[1])
        elif op[0] == 'scribble_live':
            # what happens to the live elements afterwards does not reach the cached step
            if latest:
                keep = [{k: v.copy() for k, v in sc.data_arrays.items()} for sc in m.spills.items()]
                for sc in m.spills.items():
                    for v in sc.data_arrays.values():
                        v[...] = 0
                load_and_check(latest[0])
                for sc, arrays in zip(m.spills.items(), keep):
                    for k, v in arrays.items():
                        sc.data_arrays[k][...] = v
        elif op[0] == 'enable':
            m.cache_enabled = enabled = op[1]
        elif op[0] == 'rewind':
            m.rewind()
            disk, latest = forget()
        elif op[0] == 'uncertain':
            if m.uncertain != op[1]:
                m.uncertain = op[1]         # documented: rewinds the model
                disk, latest = forget()
    for k in range(-1, c['n'] + 2):
        load_and_check(k)


@st.composite
def direct_case(draw):
    n = draw(st.integers(1, 6))
    steps = []
    for i in range(n):
        steps.append({'k': draw(st.sampled_from([0, 1, 2, 3, 9, 10, 99, 100, 12345, 999999, 1000000])), 'unc': draw(st.booleans()),
                      'n': draw(st.integers(0, 5)), 'v': draw(st.lists(st.floats(width=64), min_size=5, max_size=5)),
                      'i': draw(st.integers(-2 ** 31, 2 ** 31 - 1)), 't': draw(st.one_of(st.none(), st.integers(-10 ** 6, 10 ** 6))),
                      'mb': draw(st.dictionaries(st.sampled_from(['evaporated', 'floating', 'beached', 'amount_released', 'skimmed']),
                                                 st.floats(allow_nan=False), max_size=3)),
                      'name': draw(st.sampled_from(['extra', 'a_b', 'x1']))})
    return {'steps': steps, 'dir': draw(st.booleans()), 'two': draw(st.booleans()), 'enabled': draw(st.booleans())}


class _SC:
    def __init__(self, uncertain, arrays, mb, t):
        self.uncertain, self.data_arrays, self.mass_balance, self.current_time_stamp = uncertain, arrays, mb, t


class _Pair:
    def __init__(self, scs):
        self._scs = scs

    def items(self):
        return self._scs


@facet('C15', direct_case(), quick=300, rule="non-trivial: two or more different steps saved to disk")
def caches(case, ctx):
    """ElementCache used directly: arbitrary step numbers and element data, with its own directory, next to another cache"""
    import numpy as np
    from gnome.utilities.cache import CacheError, ElementCache
    d = None
    if case['dir']:
        d = os.path.join(ctx.tmpdir(), 'cache')
        os.mkdir(d)
    cache = ElementCache(cache_dir=d, enabled=case['enabled'])
    second = ElementCache(enabled=True) if case['two'] else None
    saved, last = {}, None
    for s in case['steps']:
        scs = []
        for u in [False] + [True] * s['unc']:
            arrays = {'positions': np.arange(s['n'] * 3.0).reshape(-1, 3) * (1 + u), 'mass': np.array(s['v'][:s['n']]),
                      'status_codes': np.full(s['n'], s['i'] % 1000, dtype=np.int16),
                      s['name']: np.full(s['n'], s['i'], dtype=np.int32), 'id': np.arange(s['n'], dtype=np.uint32) + u}
            scs.append(_SC(u, arrays, dict(s['mb']), None if s['t'] is None else when(s['t'])))
        key = s['k']
        if key in saved and saved[key] is not None and len(saved[key]) > len(scs):
            continue          # a step is saved anew without its uncertain part only after a rewind
        cache.save_timestep(key, _Pair(scs))
        want = [(sc.uncertain, sc.current_time_stamp, {k: v.copy() for k, v in sc.data_arrays.items()}, dict(sc.mass_balance)) for sc in scs]
        saved[key] = want
        last = key
        for sc in scs:        # the cache keeps its own copy
            for v in sc.data_arrays.values():
                v[...] = 1
            sc.mass_balance['evaporated'] = -7.0
    ctx.nontrivial(case['enabled'] and len(saved) > 1)
    if second is not None:
        for key in saved:
            ctx.raises(CacheError, lambda: second.load_timestep(key), "step of another cache")
        second.rewind()
    for rnd in range(2):
        for key, want in saved.items():
            if not case['enabled'] and key != last:
                ctx.raises(CacheError, lambda: cache.load_timestep(key), "step %d of a cache that is not enabled" % key)
                continue
            pair = cache.load_timestep(key)
            got = list(pair.items())
            ctx.equal([bool(g.uncertain) for g in got], [w[0] for w in want], "containers")
            for g, w in zip(got, want):
                if w[1] is not None:
                    ctx.equal(g.current_time_stamp, w[1], "time")
                for a in w[2]:
                    ctx.check(same(g.data_arrays[a], w[2][a]), "array %r: got %s, expected %s", a, g.data_arrays[a], w[2][a])
                ctx.equal(sorted(g.data_arrays), sorted(w[2]), "arrays")
                ctx.equal(dict(g.mass_balance), w[3], "mass balance")
            scribble(pair)
    cache.rewind()
    for key in saved:
        ctx.raises(CacheError, lambda: cache.load_timestep(key), "step %d after a rewind" % key)
