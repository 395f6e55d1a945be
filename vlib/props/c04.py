"""C04: the element arrays stay aligned, and every element keeps its identity for life."""
from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import OILS, grid, make_spill, make_substance, when  # noqa: F401
from vlib import scen

CODES = {0, 2, 3, 7, 12, 32}       # gnome.basic_types.oil_status values used on live elements


def aligned(ctx, sc, where):
    import numpy as np
    n = len(sc)
    for k, at in sc.array_types.items():
        a = sc[k]
        ctx.check(isinstance(a, np.ndarray) and len(a) == n, "%s: array %s has %s entries, %s elements", where, k, len(a), n)
        ctx.equal(a.dtype, np.dtype(at.dtype), "%s: dtype of %s" % (where, k))
        if at.shape is not None:
            ctx.equal(a.shape[1:], tuple(at.shape), "%s: shape of %s" % (where, k))
    ids = sc['id'].tolist()
    ctx.equal(len(set(ids)), len(ids), where + ": element ids are unique")
    ctx.check((sc['spill_num'] < len(sc.spills)).all(), "%s: spill_num %s of %s spills", where, sc['spill_num'], len(sc.spills))


def elements(c, ctx):
    import numpy as np
    from gnome.basic_types import oil_status
    tmp = ctx.tmpdir()
    model = scen.make_model(c, tmp)
    off = c.get('off', [])
    for i in off:
        if i < len(c['spills']):
            list(model.spills)[i].on = False
    model.rewind()      # edits of a spill reach its uncertain copy with the next rewind
    hist = {}           # (container, id) -> record of the last step
    gone = set()
    ever = {}
    starts = {}
    removed = 0
    k = 0
    sw = c.get('switch')
    while True:
        if sw and k in sw[:2] and sw[2] < len(c['spills']) and sw[2] not in off:
            list(model.spills)[sw[2]].on = k == sw[1]       # off at one step, perhaps on again at a later one
        try:
            model.step()
        except StopIteration:
            break
        k += 1
        t = (model.model_time - when(0)).total_seconds()
        for j, sc in enumerate(model.spills.items()):
            where = "step %d container %d" % (k - 1, j)
            aligned(ctx, sc, where)
            ctx.equal(sc.current_time_stamp, model.model_time, where + ": time stamp")
            ctx.equal(sc.uncertain, j == 1, where + ": uncertainty flag")
            live = set()
            hi = ever.get(j, -1)
            for i in range(len(sc)):
                key = (j, int(sc['id'][i]))
                live.add(key)
                ctx.check(key not in gone, "%s: element id %s came back or was given twice", where, key[1])
                num = int(sc['spill_num'][i])
                ctx.check(num not in off, "%s: an element of spill %d, which is off", where, num)
                rec = (num, float(sc['init_mass'][i]) if 'init_mass' in sc else None)
                age = int(sc['age'][i])
                st_code = int(sc['status_codes'][i])
                ctx.check(st_code in (oil_status.in_water, oil_status.on_land), "%s: status %s on a live element", where, st_code)
                s = c['spills'][num]
                r0, r1 = s['rel'], s['rel'] + s.get('dur', 0)
                if c.get('back'):
                    ctx.equal(age, round(-t), where + ": age in a run back in time")
                ctx.check((sw is not None or t - r1 - c['dt'] / 2 - 1e-6 <= age) and age <= abs(t) - r0 + c['dt'] / 2 + 1e-6,
                          "%s: age %s s, spill released between %s and %s, now %s", where, age, r0, r1, t)
                if key in hist:
                    ctx.equal(rec[0], hist[key][0][0], where + ": spill of element %d" % key[1])
                    ctx.equal(rec[1], hist[key][0][1], where + ": initial mass of element %d" % key[1])
                    ctx.equal(age, hist[key][1] + abs(c['dt']), where + ": age of element %d" % key[1])
                else:
                    ctx.check(key[1] > hi, "%s: new element got id %s, ids up to %s were used before", where, key[1], hi)
                    ctx.check(age in (0, abs(c['dt'])), "%s: new element has age %s", where, age)
                hist[key] = (rec, age)
                starts[key] = 1
            for key in [x for x in hist if x[0] == j and x not in live]:
                gone.add(key)
                removed += 1
                del hist[key]
            ever[j] = max([hi] + [x[1] for x in live])
            for n, sp in enumerate(sc.spills):
                ctx.check(np.array_equal(sc.get_spill_mask(sp), sc['spill_num'] == n), "%s: mask of spill %d", where, n)
            total = sum(s['n'] for i, s in enumerate(c['spills']) if i not in off)
            ctx.check(ever[j] < total, "%s: id %s among %s elements", where, ever[j], total)
    ctx.nontrivial(len(hist) > 1)
    ctx.label('removed' if removed else 'kept', 'off' if off else 'all on')


@st.composite
def with_off(draw, base):
    c = draw(base)
    many = len(c['spills'])
    c['switch'] = draw(st.one_of(st.none(), st.tuples(st.integers(1, 3), st.integers(2, 9), st.integers(0, many - 1))))
    if c.get('back'):
        c['switch'] = None
        for s in c['spills']:
            s['rel'] = 0
    if c['switch'] and many > 1 and draw(st.booleans()):
        # one spill is switched off after its release, another goes on releasing
        o = draw(st.integers(0, many - 2))
        o += o >= c['switch'][2]
        c['spills'][c['switch'][2]].update(rel=0, dur=0)
        c['spills'][o].update(rel=0, dur=c['n'] * c['dt'], n=max(c['spills'][o]['n'], c['n'] + 2))
    elif many > 1:
        c['off'] = draw(st.lists(st.integers(0, len(c['spills']) - 1), max_size=1))
    return c


@facet('C04', with_off(scen.weathering_scenario()), quick=110,
       rule="whole weathering runs with land, bounds, cleanup and switched-off spills; non-trivial: at least two live elements at the end")
def weathering_runs(c, ctx):
    elements(c, ctx)


@facet('C04', with_off(scen.transport_scenario(max_n=25, backward=True)), quick=160,
       rule="whole transport runs with land, bounds and switched-off spills; non-trivial: at least two live elements at the end")
def transport_runs(c, ctx):
    elements(c, ctx)


@st.composite
def split_case(draw):
    c = draw(scen.weathering_scenario(cleanup=False, maps=('none',), max_steps=3, max_n=6, max_spills=2))
    for s in c['spills']:
        s['rel'] = 0
    n = draw(st.integers(1, 4))
    c['splits'] = []
    for _ in range(n):
        num = draw(st.integers(2, 5))
        fr = draw(st.one_of(st.none(), st.lists(st.integers(1, 8), min_size=num, max_size=num)))
        c['splits'].append((draw(st.integers(0, 30)), num, [x / sum(fr) for x in fr] if fr else None))
    return c


@facet('C04', split_case(), quick=90, rule="splitting live elements of a running model; non-trivial: every case with a split of unequal fractions or several splits")
def splitting(c, ctx):
    import numpy as np
    model = scen.make_model(c, ctx.tmpdir())
    model.step()
    model.step()
    sc = list(model.spills.items())[0]
    for which, num, fr in c['splits']:
        idx = which % len(sc)
        ident = int(sc['id'][idx])
        idx = int(np.where(sc['id'] == ident)[0][0])
        before = {k: np.array(sc[k]) for k in sc.array_types}
        sc.split_element(ident, num, fr)
        w = np.asarray(fr) if fr else np.full(num, 1.0 / num)
        for k, at in sc.array_types.items():
            a, b = sc[k], before[k]
            ctx.equal(len(a), len(b) + num - 1, "length of %s after a split" % k)
            ctx.equal(a.dtype, b.dtype, "dtype of %s after a split" % k)
            ctx.check(np.array_equal(a[:idx], b[:idx], equal_nan=b.dtype.kind == 'f')
                      and np.array_equal(a[idx + num:], b[idx + 1:], equal_nan=b.dtype.kind == 'f'),
                      "splitting element %d changed %s of other elements", ident, k)
            if k in ('mass', 'mass_components', 'init_mass', 'bulk_init_volume'):
                want = w.reshape((num,) + (1,) * (b.ndim - 1)) * b[idx]
                ctx.close(a[idx:idx + num], want, "share of %s" % k, rtol=1e-9)
                ctx.close(a[idx:idx + num].sum(axis=0), b[idx], "total %s" % k, rtol=1e-9)
            else:
                ctx.check(np.array_equal(a[idx:idx + num], np.broadcast_to(b[idx], a[idx:idx + num].shape),
                                         equal_nan=b.dtype.kind == 'f'), "split elements differ in %s: %s", k, a[idx:idx + num])
    ctx.nontrivial(any(f for _, _, f in c['splits']) or len(c['splits']) > 1)
    for bad in ((2, [0.5, 0.4]), (2, [1.0]), (1, None), (3, [0.5, 0.5])):
        n0 = len(sc)
        ctx.raises(ValueError, lambda: sc.split_element(int(sc['id'][0]), *bad), "split %s" % (bad,))
        ctx.equal(len(sc), n0, "elements after a refused split")
        ctx.equal({len(sc[k]) for k in sc.array_types}, {n0}, "array lengths after a refused split")


@st.composite
def assign_case(draw):
    return {'n': draw(st.integers(1, 6)), 'm': draw(st.integers(0, 8)), 'name': draw(st.sampled_from(['mass', 'positions', 'age', 'fresh'])),
            'dtype': draw(st.sampled_from(['float64', 'float32', 'int32'])), 'cols': draw(st.sampled_from([0, 2, 3]))}


@facet('C04', assign_case(), quick=150, rule="assigning replacement arrays of any length, shape and type; non-trivial: every refused assignment")
def assignments(c, ctx):
    import numpy as np
    import gnome.scripting as gs
    model = gs.Model(start_time=when(0), time_step=900)
    model.spills += gs.point_line_spill(num_elements=c['n'], start_position=(0, 0, 0), release_time=when(0))
    model.step()
    sc = list(model.spills.items())[0]
    shape = (c['m'],) + ((c['cols'],) if c['cols'] else ())
    arr = np.ones(shape, dtype=c['dtype'])
    if c['name'] == 'fresh':
        ok = c['m'] == c['n']
    else:
        ok = arr.shape == sc[c['name']].shape and arr.dtype == sc[c['name']].dtype
    before = np.array(sc[c['name']]) if c['name'] in sc else None
    try:
        sc[c['name']] = arr
        done = True
    except (ValueError, IndexError, TypeError):
        done = False
    ctx.equal(done, ok, "assignment of %s %s to %s of %d elements accepted" % (arr.shape, arr.dtype, c['name'], c['n']))
    if not ok and before is not None:
        ctx.check(np.array_equal(before, sc[c['name']]), "refused assignment changed the array")
    ctx.nontrivial(not ok)


@st.composite
def pair_case(draw):
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('add'), st.integers(0, 9)), st.tuples(st.just('addlist'), st.integers(0, 9)),
        st.tuples(st.just('remove'), st.integers(0, 9)),
        st.tuples(st.just('replace'), st.integers(0, 9)), st.tuples(st.just('edit'), st.integers(0, 9)),
        st.tuples(st.just('switch'), st.integers(0, 9)), st.tuples(st.just('unc'), st.booleans()),
        st.tuples(st.just('clear'), st.just(0)), st.tuples(st.just('run'), st.integers(1, 3))), min_size=1, max_size=14))
    return {'unc': draw(st.booleans()), 'ops': ops}


@facet('C04', pair_case(), quick=250,
       rule="histories of adding, removing, replacing, editing and switching spills with uncertainty turned on and off, against a list model; "
            "non-trivial: at least one spill left after a removal or replacement, or a run with uncertainty")
def spill_collections(c, ctx):
    import gnome.scripting as gs
    m = gs.Model(start_time=when(0), time_step=900, uncertain=c['unc'])
    ref = []            # [spill, number of elements, on]
    unc = c['unc']
    count = [0]

    def new():
        count[0] += 1
        return gs.point_line_spill(num_elements=count[0], start_position=(count[0], 0, 0), release_time=when(0))
    for op, v in c['ops']:
        if op == 'add':
            sp = new()
            m.spills += sp
            ref.append([sp, count[0], True])
        elif op == 'addlist':
            sps = [new(), new()]
            m.spills += sps
            ref += [[sps[0], count[0] - 1, True], [sps[1], count[0], True]]
        elif op == 'clear':
            m.spills.clear()
            ref = []
        elif op == 'unc':
            m.uncertain = unc = v
        elif op == 'run':
            m.rewind()
            for _ in range(v):
                m.step()
            for j, sc in enumerate(m.spills.items()):
                want = [i for i, r in enumerate(ref) for _ in range(r[1]) if r[2]]
                ctx.equal(sc['spill_num'].tolist(), want, "elements by spill in container %d" % j)
                ctx.equal([x for x in sc['positions'][:, 0]], [float(ref[i][3] if len(ref[i]) > 3 else ref[i][0].release.start_position[0])
                                                              for i in want], "where they are")
            ctx.nontrivial(unc and len(ref) > 1)
        elif ref:
            i = v % len(ref)
            sp = ref[i][0]
            if op == 'remove':
                m.spills.remove(sp.id)
                del ref[i]
            elif op == 'replace':
                n = new()
                m.spills[sp.id] = n
                ref[i] = [n, count[0], True]
            elif op == 'edit':
                count[0] += 1
                sp.release.num_elements = count[0]
                ref[i][1] = count[0]
            elif op == 'switch':
                sp.on = not sp.on
                ref[i][2] = sp.on
            ctx.nontrivial(op in ('remove', 'replace') and len(ref) > 0)
        ctx.equal(len(m.spills), len(ref), "number of spills after %s" % op)
        ctx.check([s.id for s in m.spills] == [r[0].id for r in ref], "spills after %s", op)
        ctx.equal(len(list(m.spills.items())), 2 if unc else 1, "containers")
        for r in ref:
            ctx.check(r[0] in m.spills, "spill not found after %s", op)
        if unc:
            ctx.equal(len(list(m.spills.items())[1].spills), len(ref), "uncertain spills after %s" % op)
