"""C01: the oil budget balances."""
from vlib.engine import facet
from vlib import scen

LOSSES = scen.LOSSES


@facet('C01', scen.weathering_scenario(), quick=140, budget=40,
       rule="random oil, wind, water, map, spills, weathering and cleanup; non-trivial: some oil was lost "
            "through at least one process while some remained")
def budget(c, ctx):
    import numpy as np
    model = scen.make_model(c, ctx.tmpdir())
    prev = None
    sc = None
    for _ in range(c['n'] + 1):
        model.step()
        for sc in model.spills.items():
            m = np.asarray(sc['mass'])
            ctx.check(np.isfinite(m).all() and (m >= 0).all(), "element masses are finite and >= 0: %s", m)
            if 'mass_components' in sc:
                mc = np.asarray(sc['mass_components'])
                ctx.check(np.isfinite(mc).all() and (mc >= 0).all(), "component masses are finite and >= 0")
                if not sc.uncertain:
                    ctx.close(mc.sum(axis=1), m, "element mass is the sum of its components", rtol=1e-5)
        sc = model.spills.items()[0]
        mb = sc.mass_balance
        rel = mb['amount_released']
        frac = np.asarray(sc.substance.mass_fraction, dtype=float)
        tol = rel * (abs(1 - frac.sum()) * 1.01 + 1e-9) + 1e-12
        lost = sum(mb.get(k, 0.0) for k in LOSSES)
        ctx.check(abs(lost + sc['mass'].sum() - rel) <= tol,
                  "step %s: lost %r + remaining %r != released %r  %s", model.current_time_step, lost,
                  float(sc['mass'].sum()), rel, {k: mb.get(k) for k in LOSSES})
        for k in LOSSES:
            if k in mb:
                ctx.check(mb[k] >= -1e-12 * max(1.0, rel), "%s is %r", k, mb[k])
                ctx.check(mb[k] <= rel + tol, "%s %r exceeds what was released %r", k, mb[k], rel)
                if prev is not None and k in prev:
                    ctx.check(mb[k] >= prev[k] - 1e-9 * max(1.0, rel), "%s went down: %r -> %r", k, prev[k], mb[k])
        prev = {k: mb[k] for k in mb if k in LOSSES}
        ctx.nontrivial(lost > 0 and sc['mass'].sum() > 0)
        for k in LOSSES:
            if mb.get(k, 0) > 0:
                ctx.label(k)
    if c['unc']:
        ctx.label('uncertain')
