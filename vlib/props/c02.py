"""C02: a run is reproducible."""
from hypothesis import strategies as st

from vlib.engine import facet
from vlib import scen

SC = st.one_of(scen.weathering_scenario(max_steps=6, max_n=10, max_spills=2), scen.transport_scenario(max_steps=6))
RULE = "non-trivial: at least two steps with released elements and a random process (diffusion, windage, uncertainty or refloating) in play"


def rnd(c, ctx, run):
    ctx.nontrivial(len(run) >= 2 and len(run[-1][1][0]['mass']) > 0)
    if c['unc']:
        ctx.label('uncertain')
    if c['diff']:
        ctx.label('diffusion')
    if c['weather']:
        ctx.label('weathering')
    ctx.label('map ' + c['map'])


@facet('C02', st.tuples(SC, st.integers(0, 6)), quick=150, rule=RULE)
def rewind_restores(case, ctx):
    """run k steps, rewind, run to the end: same as a fresh model's run"""
    c, k = case
    a = scen.make_model(c, ctx.tmpdir())
    a.rewind()
    ref = scen.run_all(a)
    rnd(c, ctx, ref)
    ctx.equal(len(ref), c['n'] + 1, "steps in the run")
    a.rewind()
    scen.run_all(a, k)
    a.rewind()
    ctx.equal(a.current_time_step, -1, "time step after rewind")
    ctx.equal(a.model_time, a.start_time, "model time after rewind")
    ctx.equal(sum(sc.num_released for sc in a.spills.items()), 0, "elements after rewind")
    scen.same_runs(ctx, ref, scen.run_all(a), "rerun after rewinding at step %d" % k)


@facet('C02', SC, quick=150, rule=RULE)
def fresh_models_agree(c, ctx):
    a = scen.make_model(c, ctx.tmpdir())
    a.rewind()
    ra = scen.run_all(a)
    rnd(c, ctx, ra)
    b = scen.make_model(c, ctx.tmpdir())
    b.rewind()
    scen.same_runs(ctx, ra, scen.run_all(b), "second model from the same description")


@facet('C02', st.tuples(SC, SC, st.integers(0, 5)), quick=90, rule=RULE)
def other_models_do_not_leak(case, ctx):
    """another model is built and run in the same process between two runs"""
    c, d, k = case
    import os
    a = scen.make_model(c, ctx.tmpdir())
    a.rewind()
    ra = scen.run_all(a)
    rnd(c, ctx, ra)
    os.makedirs(ctx.tmpdir() + '/o', exist_ok=True)
    b = scen.make_model(d, ctx.tmpdir() + '/o')
    scen.run_all(b, k)
    a.rewind()
    scen.same_runs(ctx, ra, scen.run_all(a), "rerun after another model ran")


@facet('C02', st.tuples(SC, st.lists(st.sampled_from(['cache', 'netcdf', 'weathering', 'oilbudget']),
                                     min_size=1, max_size=3, unique=True), st.booleans()),
       quick=80, rule=RULE)
def observers_do_not_disturb(case, ctx):
    """caching, outputters and full_run() leave the trajectory and the fate of the oil unchanged"""
    c, obs, full = case
    import gnome.scripting as gs
    from gnome.outputters import WeatheringOutput, OilBudgetOutput
    a = scen.make_model(c, ctx.tmpdir())
    a.rewind()
    ra = scen.run_all(a)
    rnd(c, ctx, ra)
    b = scen.make_model(c, ctx.tmpdir(), cache_enabled='cache' in obs)
    if 'netcdf' in obs:
        b.outputters += gs.NetCDFOutput(ctx.tmpdir() + '/o.nc', which_data='all')
    if 'weathering' in obs:
        b.outputters += WeatheringOutput()
    if 'oilbudget' in obs and c['weather']:
        b.outputters += OilBudgetOutput(ctx.tmpdir() + '/b.csv')
    b.rewind()
    if full:
        b.full_run()
        last = ra[-1]
        s = scen.snapshot(b)
        drop = [(last[0], [{k: x[k] for k in x if k in y} for x, y in zip(last[1], s)], last[2])]
        scen.same_runs(ctx, drop, [(b.model_time, [{k: y[k] for k in y if k in x} for x, y in zip(last[1], s)],
                                    scen.budget_of(b))], "full_run with " + ",".join(obs))
    else:
        rb = scen.run_all(b)
        rb = [(t, [{k: y[k] for k in y if k in x} for x, y in zip(r[1], s)], m) for (t, s, m), r in zip(rb, ra)]
        scen.same_runs(ctx, ra, rb, "run with " + ",".join(obs))
