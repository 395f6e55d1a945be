"""C05: the model clock."""
from datetime import timedelta

from hypothesis import strategies as st

from vlib.engine import facet
from vlib.gen import T0, when


@st.composite
def clock_case(draw):
    dt = draw(st.one_of(st.sampled_from([1, 7, 60, 300, 900, 1000, 3600, 7200, 86400]), st.integers(2, 130)))
    n = draw(st.integers(0, 12))
    return {'dt': dt, 'dur': n * dt + draw(st.sampled_from([0, 0, 1, dt // 2, dt - 1])), 'td': draw(st.booleans()),
            'back': draw(st.booleans()), 'unc': draw(st.booleans()), 'spill': draw(st.booleans()), 'start': draw(st.integers(-10**6, 10**6)),
            'sub': min(dt, draw(st.sampled_from([1, 1, 1, 2, 3, 4, 5, 7, 13, 17]))), 'mode': draw(st.sampled_from(['step', 'full', 'iter', 'partial'])),
            'k': draw(st.integers(0, 12))}


def recorder():
    """a mover and a weatherer that only write down when the model calls them"""
    import numpy as np
    from gnome.movers.movers import Mover
    from gnome.weatherers.core import Weatherer

    class RecMover(Mover):
        _schema = Mover._schema if hasattr(Mover, '_schema') else None

        def __init__(self, **kw):
            super().__init__(**kw)
            self.prep, self.moves, self.done, self.runs = [], [], 0, 0

        def prepare_for_model_run(self):
            self.runs += 1

        def prepare_for_model_step(self, sc, time_step, t):
            super().prepare_for_model_step(sc, time_step, t)
            self.prep.append((t, time_step))

        def get_move(self, sc, time_step, t):
            self.moves.append((t, time_step, sc.uncertain))
            return np.zeros_like(sc['positions'])

        def model_step_is_done(self, sc=None):
            self.done += 1

    class RecWeatherer(Weatherer):
        def __init__(self, **kw):
            super().__init__(**kw)
            self.prep, self.calls = [], []

        def prepare_for_model_run(self, sc):
            pass

        def prepare_for_model_step(self, sc, time_step, t):
            super().prepare_for_model_step(sc, time_step, t)
            self.prep.append((t, time_step))

        def initialize_data(self, sc, n):
            pass

        def weather_elements(self, sc, time_step, t):
            self.calls.append((t, time_step))

    return RecMover(), RecWeatherer()


@facet('C05', clock_case(), quick=400,
       rule="models of any step length, duration (multiples or not), direction, run by step(), full_run() or iteration; non-trivial: at least two steps")
def clock(c, ctx):
    import gnome.scripting as gs
    start = T0 + timedelta(seconds=c['start'])
    sign = -1 if c['back'] else 1
    model = gs.Model(start_time=start, time_step=timedelta(seconds=c['dt']) if c['td'] else c['dt'],
                     duration=timedelta(seconds=c['dur']), run_backwards=c['back'], uncertain=c['unc'], weathering_substeps=c['sub'])
    mov, wea = recorder()
    model.movers += mov
    model.weatherers += wea
    if c['spill']:
        model.spills += gs.point_line_spill(num_elements=2, start_position=(0, 0, 0), release_time=start)
    n = c['dur'] // c['dt']
    ctx.equal(model.num_time_steps, n + 1, "number of time steps")
    ctx.equal(model.model_time, start, "time before the run")
    want = [start + timedelta(seconds=sign * k * c['dt']) for k in range(n + 1)]
    times = []

    def one():
        r = model.step()
        times.append(model.model_time)
        ctx.equal(model.current_time_step, len(times) - 1, "step counter")
        ctx.equal(r['step_num'], len(times) - 1, "step number in the output")
        for sc in model.spills.items():
            ctx.equal(sc.current_time_stamp, model.model_time, "time stamp of the elements")
        return r
    first = 0
    if c['mode'] == 'partial':      # some steps, then the rest without rewinding
        first = min(c['k'], n + 1)
        for _ in range(first):
            one()
        res = model.full_run(rewind=False)
        ctx.equal([r['step_num'] for r in res], list(range(first, n + 1)), "steps of the rest of the run")
    elif c['mode'] == 'full':
        for _ in range(min(c['k'], n + 1)):     # a full run rewinds first
            one()
        del mov.moves[:], wea.calls[:], mov.prep[:]
        res = model.full_run()
        ctx.equal([r['step_num'] for r in res], list(range(n + 1)), "steps of a full run")
    elif c['mode'] == 'iter':
        for r in model:
            times.append(model.model_time)
        ctx.equal(times, want, "times of an iterated run")
    else:
        for _ in range(n + 1):
            one()
        ctx.equal(times, want, "times of the steps")
    ctx.raises(StopIteration, model.step, "a step after the end of the run")
    ctx.equal(model.model_time, want[-1], "time at the end")
    ctx.equal(model.current_time_step, n, "step counter at the end")
    # every process was asked to act once for every interval [t_k, t_k+1)
    if c['spill']:
        per = 2 if c['unc'] else 1
        got = [(t, d) for t, d, _ in mov.moves]
        exp = [(t, sign * c['dt']) for t in want[:-1] for _ in range(per)]
        ctx.equal(got, exp, "intervals over which the mover was applied")
    ctx.equal(mov.prep, [(t, sign * c['dt']) for t in want[:-1] for _ in range(2 if c['unc'] else 1)], "intervals prepared")
    if c['back']:
        ctx.equal(wea.calls, [], "weathering in a backwards run")
    else:
        t = start
        for tt, d in wea.calls:
            ctx.equal(tt, t, "start of a weathering (sub)step")
            ctx.check(d > 0, "empty weathering substep")
            t = tt + timedelta(seconds=d)
        ctx.equal(t, want[-1], "end of the weathered time")
    ctx.nontrivial(n >= 2)
    ctx.label(c['mode'], 'back' if c['back'] else 'forward', 'sub%d' % c['sub'])


@st.composite
def change_case(draw):
    dt = draw(st.sampled_from([60, 900, 1000, 3600]))
    return {'dt': dt, 'n': draw(st.integers(2, 8)), 'unc': draw(st.booleans()),
            'ops': draw(st.lists(st.one_of(
                st.tuples(st.just('step'), st.integers(1, 5)),
                st.tuples(st.just('rewind'), st.just(0)),
                st.tuples(st.just('dt'), st.sampled_from([60, 450, 900, 1800])),
                st.tuples(st.just('dur'), st.integers(1, 20000)),
                st.tuples(st.just('start'), st.integers(-100, 100)),
                st.tuples(st.just('unc'), st.booleans()),
                st.tuples(st.just('map'), st.integers(1, 9)),
                st.tuples(st.just('back'), st.booleans()),
                st.tuples(st.just('full'), st.just(0))), min_size=1, max_size=8))}


@facet('C05', change_case(), quick=400,
       rule="histories of steps, rewinds and changes of step, duration, start and uncertainty against a model of the clock; non-trivial: a setting changed after a step")
def reconfigured_clock(c, ctx):
    import gnome.scripting as gs
    from gnome.maps import GnomeMap
    m = gs.Model(start_time=T0, time_step=c['dt'], duration=timedelta(seconds=c['dt'] * c['n']), uncertain=c['unc'])
    m.spills += gs.point_line_spill(num_elements=3, start_position=(0, 0, 0), release_time=T0)
    dt, dur, start, cur, unc = c['dt'], c['dt'] * c['n'], T0, -1, c['unc']
    sign = 1
    stepped = False
    for op, v in c['ops']:
        n = dur // dt
        if op == 'step':
            for _ in range(v):
                if cur >= n:
                    ctx.raises(StopIteration, m.step, "step at the end")
                else:
                    m.step()
                    cur += 1
            stepped = True
        elif op == 'rewind':
            m.rewind()
            cur = -1
        elif op == 'full':
            r = m.full_run()
            ctx.equal(len(r), n + 1, "steps of a full run")
            cur = n
        elif op == 'dt':
            m.time_step = sign * v
            dt, cur = v, -1
        elif op == 'dur':
            if v < dur:
                cur = -1
            dur = v
            m.duration = timedelta(seconds=sign * v)
        elif op == 'start':
            start = T0 + timedelta(hours=v)
            for s in m.spills:
                s.release_time = start
            m.start_time = start
            cur = -1
        elif op == 'unc':
            if v != unc:
                cur = -1
            unc = v
            m.uncertain = v
        elif op == 'map':
            m.map = GnomeMap(map_bounds=[(-v, -v), (v, -v), (v, v), (-v, v)])
            cur = -1
        elif op == 'back':
            if v != (sign < 0):
                cur = -1
            sign = -1 if v else 1
            m.run_backwards = v
        if op not in ('step', 'full', 'rewind') and stepped:
            ctx.nontrivial()
        ctx.equal(m.num_time_steps, dur // dt + 1, "number of steps after %s" % op)
        ctx.equal(m.current_time_step, cur, "step counter after %s" % op)
        ctx.equal(m.model_time, start + timedelta(seconds=sign * max(cur, 0) * dt), "model time after %s" % op)
        ctx.equal(len(list(m.spills.items())), 2 if unc else 1, "containers after %s" % op)
        for sc in m.spills.items():
            # a rewound model holds no elements; one that has started holds all of them
            ctx.equal(sc.num_released, 0 if cur < 0 else 3, "elements after %s" % op)
