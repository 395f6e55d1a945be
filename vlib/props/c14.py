"""C14: OrderedCollection behaves as an ordered list of distinct objects also reachable by id."""
from hypothesis import strategies as st

from vlib.engine import facet

IDX = st.integers(-6, 6)
OPS = st.lists(st.one_of(
    st.tuples(st.just('add'), st.integers(0, 7)),
    st.tuples(st.just('addlist'), st.lists(st.integers(0, 7), max_size=4)),
    st.tuples(st.just('append'), st.integers(0, 7)),
    st.tuples(st.just('del_i'), IDX), st.tuples(st.just('del_id'), st.integers(0, 7)),
    st.tuples(st.just('rep_i'), st.tuples(IDX, st.integers(8, 30))),
    st.tuples(st.just('rep_id'), st.tuples(st.integers(0, 12), st.integers(8, 30))),
    st.tuples(st.just('clear'), st.just(0)), st.tuples(st.just('remake'), st.just(0)),
    st.tuples(st.just('slice'), st.tuples(st.one_of(st.none(), IDX), st.one_of(st.none(), IDX),
                                          st.sampled_from([None, 1, 2, -1, -2]))),
    st.tuples(st.just('bad'), st.integers(0, 2))), min_size=1, max_size=25)


@st.composite
def case(draw):
    return {'ids': draw(st.sampled_from(['id', 'noid', 'equal'])), 'init': draw(st.lists(st.integers(0, 7), unique=True, max_size=4)),
            'ops': draw(OPS)}


@facet('C14', case(), quick=1500, rule="operation histories over objects with an id, without one, or all equal to each other, against a Python list; "
                                      "non-trivial: an access by index or a replacement after a removal")
def list_model(c, ctx):
    from gnome.utilities.orderedcollection import OrderedCollection

    class WithId:
        def __init__(self, n):
            self.n, self.id = n, 'obj-%d' % n

    class NoId:
        def __init__(self, n):
            self.n = n

    class Equal(WithId):
        def __eq__(self, o):
            return isinstance(o, Equal)

        def __hash__(self):
            return 1
    cls = {'id': WithId, 'noid': NoId, 'equal': Equal}[c['ids']]
    pool = {i: cls(i) for i in range(31)}

    def key(o):
        return o.id if hasattr(o, 'id') else str(id(o))
    ref = [pool[i] for i in c['init']]
    oc = OrderedCollection(list(ref), dtype=cls)
    events, want = [], []
    oc.register_callback(lambda o: events.append(('add', o.n)), 'add')
    oc.register_callback(lambda o: events.append(('rm', o.n)), ('remove',))
    oc.register_callback(lambda o: events.append(('rep', o.n)), ['replace'])
    oc.register_callback(lambda o: events.append(('any', o.n)))

    def fired(what, o):
        want.append((what, o.n))
        want.append(('any', o.n))

    def pos(o):
        return [i for i, x in enumerate(ref) if x is o]
    holes = False
    for op, v in c['ops']:
        if op in ('add', 'append'):
            o = pool[v]
            getattr(oc, op)(o) if op == 'append' or v % 2 else oc.__iadd__(o)
            if not pos(o):
                ref.append(o)
                fired('add', o)
        elif op == 'addlist':
            oc += [pool[i] for i in v]
            for i in v:
                if not pos(pool[i]):
                    ref.append(pool[i])
                    fired('add', pool[i])
        elif op == 'del_i':
            if -len(ref) <= v < len(ref):
                o = ref.pop(v)
                del oc[v]
                fired('rm', o)
                holes = True
            else:
                ctx.raises(IndexError, lambda: oc.remove(v), "remove(%d) of %d" % (v, len(ref)))
        elif op == 'del_id':
            o = pool[v]
            if pos(o):
                oc.remove(key(o))
                del ref[pos(o)[0]]
                fired('rm', o)
                holes = True
            else:
                ctx.raises(KeyError, lambda: oc.remove(key(o)), "remove of an absent id")
        elif op in ('rep_i', 'rep_id'):
            a, b = v
            new = pool[b]
            if op == 'rep_i' and -len(ref) <= a < len(ref):
                if pos(new) and pos(new)[0] != a % len(ref):
                    continue        # would put one object in twice
                oc[a] = new
                ref[a] = new
                fired('rep', new)
                ctx.nontrivial(holes)
            elif op == 'rep_id':
                old = pool[a]
                if not pos(old):
                    ctx.raises(KeyError, lambda: oc.replace(key(old), new), "replace of an absent id")
                elif not pos(new) or new is old:
                    oc.replace(key(old), new)
                    ref[pos(old)[0]] = new
                    fired('rep', new)
        elif op == 'clear':
            oc.clear()
            ref = []
        elif op == 'remake':
            oc.remake()
        elif op == 'slice':
            s = slice(*v)
            got = oc[s]
            ctx.check([o.n for o in got] == [o.n for o in ref[s]], "slice %s: %s, list gives %s", s, [o.n for o in got], [o.n for o in ref[s]])
            ctx.nontrivial(holes)
        elif op == 'bad':
            bad = [7, 'text', [object()]][v]
            ctx.raises(TypeError, lambda: oc.add(bad), "add(%r)" % (bad,))
        # observations
        ctx.equal([o.n for o in oc], [o.n for o in ref], "order after %s %s" % (op, v))
        ctx.equal([o.n for o in oc.values()], [o.n for o in ref], "values after %s" % op)
        ctx.equal(len(oc), len(ref), "length after %s" % op)
        ctx.equal(events, want, "events after %s" % op)
        for i, o in enumerate(ref):
            ctx.check(oc[i] is o and oc[i - len(ref)] is o, "index %d after %s", i, op)
            ctx.check(oc[key(o)] is o and oc.get(key(o)) is o, "by id after %s", op)
            ctx.check(oc.index(o) == i, "index() of item %d is %d after %s", i, oc.index(o), op)
            ctx.equal(oc.index(key(o)), i, "index() by id")
            ctx.check(o in oc, "membership after %s", op)
        for o in pool.values():
            if not pos(o):
                ctx.check(o not in oc, "removed object still a member after %s", op)
                ctx.raises(KeyError, lambda: oc[key(o)], "lookup of an absent id")
                ctx.raises(ValueError, lambda: oc.index(o), "index of an absent object")
        d = oc.to_dict()
        ctx.equal([x['id'] for x in d], [key(o) for o in ref], "to_dict ids")
    # equal to a collection that holds equal objects in the same order, however it was made, and to nothing else
    same = OrderedCollection(list(ref), dtype=cls)
    ctx.check(oc == same and not oc != same, "a collection of the same objects is not equal")
    others = [ref[::-1], ref[:-1], ref + [pool[0]] if pool[0] not in ref else ref[1:], ref[1:] + ref[:1], [pool[30]] + ref[1:]]
    for x in others:
        if len({id(o) for o in x}) < len(x):
            continue
        e = [a == b for a, b in zip(x, ref)] + [len(x) == len(ref)]
        o = OrderedCollection(list(x), dtype=cls)
        ctx.check((oc == o) == all(e) and (oc != o) == (not all(e)), "collections of %s and %s compare as %s", [a.n for a in ref], [a.n for a in x], oc == o)
    ctx.check(oc != list(ref), "a collection equals a list")
    # what it can be made of
    ctx.raises(TypeError, lambda: OrderedCollection(), "a collection of nothing and no type")
    ctx.raises(TypeError, lambda: OrderedCollection([pool[0], 'text'], dtype=cls), "a collection made with an object of another type")
    ctx.raises(TypeError, lambda: OrderedCollection(list(ref) + [7, pool[1]], dtype=cls), "a collection made with an object of another type")
    ctx.raises(TypeError, lambda: OrderedCollection((pool[0], pool[1]), dtype=cls), "a collection made from a tuple")
    ctx.label(c['ids'])


@st.composite
def upd_case(draw):
    n = draw(st.integers(1, 5))
    perm = draw(st.permutations(range(n)))
    keep = perm[:draw(st.integers(0, n))]
    return {'n': n, 'items': [(i, draw(st.sampled_from(['obj', 'dict']))) for i in keep],
            'fresh': draw(st.integers(0, 2)), 'bad': draw(st.sampled_from([None, None, 'noid', 'unknown', 'type']))}


@facet('C14', upd_case(), quick=400, rule="update() with permutations of existing objects, updates of them and new objects; non-trivial: order or membership changed")
def update_lists(c, ctx):
    from gnome.movers import RandomMover
    from gnome.utilities.orderedcollection import OrderedCollection
    objs = [RandomMover(diffusion_coef=1000.0 + i) for i in range(c['n'])]
    oc = OrderedCollection(list(objs), dtype=RandomMover)
    upd, ref = [], []
    for i, how in c['items']:
        if how == 'obj':
            upd.append(objs[i])
        else:
            upd.append({'id': objs[i].id, 'diffusion_coef': 5000.0 + i})
        ref.append(objs[i])
    for j in range(c['fresh']):
        o = RandomMover(diffusion_coef=9000.0 + j)
        upd.append(o)
        ref.append(o)
    if c['bad']:
        upd.append({'noid': {'diffusion_coef': 1.0}, 'unknown': {'id': 'nope', 'diffusion_coef': 1.0}, 'type': 3}[c['bad']])
        ctx.raises(ValueError, lambda: oc.update(upd), "update with a bad item")
        ctx.check([id(x) for x in oc] == [id(x) for x in objs], "a refused update changed the collection")
        ctx.nontrivial()
        return
    oc.update(upd)
    ctx.check([id(x) for x in oc] == [id(x) for x in ref], "objects after update: %s", [x.diffusion_coef for x in oc])
    for i, how in c['items']:
        ctx.close(objs[i].diffusion_coef, (5000.0 if how == 'dict' else 1000.0) + i, "value after update")
    ctx.nontrivial([i for i, _ in c['items']] != list(range(c['n'])) or c['fresh'] > 0)
