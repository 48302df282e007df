"""C20: ancestor queries follow references upward and always terminate."""
import copy

from hypothesis import strategies as st

from vf import ling, spec
from vf.core import Sub, ordinary_stack, step_budget
from xigt import Item, query

ID = 'C20'
TECHNIQUE = ('reference model over generated reference graphs, with a bound '
             'on the steps executed')
RULE = ('Cases are igts with arbitrary references between tiers (chains, '
        'shared referents, cycles) and items, and lists of attributes; every '
        'tier and item is a start; non-trivial = a result of two or more '
        'steps.')
ASSUMPTIONS = ['tier references name existing tiers; ids are unique']

RAS = ['alignment', 'content', 'segmentation']
CFG = ling.LCfg(max_tiers=5, refs='any', dangling=False, refattrs=RAS,
                p_ref=2, max_items=4)
SHAPES = [None, ['alignment', 'segmentation'], ['segmentation', 'alignment'],
          ['content'], ['alignment'], ['content', 'alignment', 'segmentation'],
          [], ['segmentation']]


@st.composite
def igts(draw):
    """A chain of references with a cycle or tail, or anything."""
    if draw(st.booleans()):
        s = draw(ling.igts(CFG))
    else:
        n = draw(st.one_of(st.integers(2, 6), st.integers(2, 6),
                           st.integers(7, 12)))
        tiers = []
        cyc = draw(st.integers(0, n))      # where the last one refers to
        ras = draw(st.lists(st.sampled_from(RAS[:1] * 3 + RAS), min_size=n,
                            max_size=n))
        sizes = [draw(st.integers(1, 3)) for _ in range(n)]
        orders = [draw(st.permutations(range(z))) for z in sizes]
        for k in range(n):
            j = k + 1 if k + 1 < n else cyc
            t = {'id': 't%d' % k, 'items': []}
            if j < n:
                t['attrs'] = {ras[k]: 't%d' % j}
            # positions and ids have different orders
            for m in orders[k]:
                x = {'id': 't%d.%d' % (k, m), 'text': 'x'}
                if j < n:
                    ids = draw(st.lists(st.integers(0, sizes[j] - 1),
                                        max_size=2))
                    if ids:
                        x['attrs'] = {ras[k]: draw(st.sampled_from(
                            ['+', ',', ' '])).join('t%d.%d' % (j, i)
                                                   for i in ids)}
                t['items'].append(x)
            tiers.append(t)
        s = {'id': 'i1', 'tiers': [tiers[k] for k in
                                   draw(st.permutations(range(n)))]}
    # items without ids are there but never referred to
    if draw(st.integers(0, 4)) == 0:
        for t in s['tiers']:
            for x in t['items']:
                if draw(st.integers(0, 3)) == 0:
                    x['id'] = None
    return s


@st.composite
def edit(draw, maximum=4):
    """Changes to references and items; numbers are taken modulo."""
    num = st.integers(0, 11)
    one = st.one_of(
        st.tuples(st.just('tier'), num, st.sampled_from(RAS),
                  st.one_of(st.none(), num)),
        st.tuples(st.just('item'), num, num, st.sampled_from(RAS),
                  st.lists(num, max_size=2)),
        st.tuples(st.just('add'), num, num, st.sampled_from(RAS),
                  st.lists(num, max_size=2)),
        st.tuples(st.just('drop'), num, num),
        st.tuples(st.just('move'), num, num))
    return [list(e) for e in draw(st.lists(one, max_size=maximum))]


def apply(edits, s, igt):
    """Do the changes to the igt; -> what it is like then."""
    s = copy.deepcopy(s)
    new = 0
    for e in edits:
        ti = e[1] % len(s['tiers'])
        t, tier = s['tiers'][ti], list.__getitem__(igt, ti)
        every = [x['id'] for u in s['tiers'] for x in u['items']
                 if x.get('id') is not None]
        def ids(ns):
            return ' '.join(every[n % len(every)] for n in ns) \
                if every else ''
        def put(spec_, obj, ra, val):
            spec_['attrs'] = dict(spec_.get('attrs') or {})
            if val:
                spec_['attrs'][ra] = obj.attributes[ra] = val
            else:
                spec_['attrs'].pop(ra, None)
                obj.attributes.pop(ra, None)
        if e[0] == 'tier':
            put(t, tier, e[2], e[3] is not None and
                s['tiers'][e[3] % len(s['tiers'])]['id'])
        elif e[0] == 'add':
            new += 1
            x = {'id': 'new%d' % new, 'text': 'x'}
            obj = Item(id=x['id'], text='x')
            put(x, obj, e[3], ids(e[4]))
            k = e[2] % (len(t['items']) + 1)
            t['items'].insert(k, x)
            tier.insert(k, obj)
        elif e[0] == 'move':
            k = e[2] % len(s['tiers'])
            s['tiers'].insert(k, s['tiers'].pop(ti))
            igt.remove(tier)
            igt.insert(k, tier)
        elif t['items']:
            k = e[2] % len(t['items'])
            if e[0] == 'item':
                put(t['items'][k], list.__getitem__(tier, k), e[3],
                    ids(e[4]))
            else:
                del t['items'][k]
                del tier[k]
    return s


def cases():
    return st.fixed_dictionaries({
        'igt': igts(), 'refattrs': st.sampled_from(SHAPES),
        'edits': st.one_of(st.just([]), edit())})


def attr(x, ra):
    return (x.get('attrs') or {}).get(ra)


def model(s, ti, items, refattrs):
    """[(tier index, attribute, tier index, item indices)]"""
    pos = {t['id']: k for k, t in enumerate(s['tiers'])}
    out, seen = [], {ti}
    while True:
        t = s['tiers'][ti]
        ra = next((r for r in refattrs if attr(t, r) is not None), None)
        if ra is None:
            break
        rj = pos[attr(t, ra)]
        named = {i for k in items
                 for i in ling.word_ids(attr(t['items'][k], ra) or '')}
        ref = [k for k, x in enumerate(s['tiers'][rj]['items'])
               if x.get('id') in named]
        out.append((ti, ra, rj, ref))
        if rj in seen:
            break
        seen.add(rj)
        ti, items = rj, ref
    return out


def compare(ctx, igt, got, want, start, refattrs):
    tiers = list(list.__iter__(igt))
    exp = [(tiers[a], r, tiers[b], [list.__getitem__(tiers[b], k)
                                    for k in ks]) for a, r, b, ks in want]
    ok = len(got) == len(exp) and all(
        len(g) == 4 and g[0] is e[0] and g[1] == e[1] and g[2] is e[2]
        and len(g[3]) == len(e[3])
        and all(x is y for x, y in zip(g[3], e[3]))
        for g, e in zip(got, exp))
    if not ok:
        ctx.fail('wrong result', start=start, refattrs=refattrs,
                 got=show(got), want=show(exp))


def show(xs):
    return [(x[0].id, x[1], x[2].id, [i.id for i in x[3]]) for x in xs]


def starts(s):
    for ti, t in enumerate(s['tiers']):
        yield ti, None
        for k in range(len(t['items'])):
            yield ti, k


def check(case, ctx):
    s = case['igt']
    igt = spec.build('igt', s)
    longest = look(s, igt, case, ctx)
    if case.get('edits'):
        # and of what the igt has become
        s = apply(case['edits'], s, igt)
        longest = max(longest, look(s, igt, case, ctx))
        ctx.label('edited')
    ctx.label('longest=%d' % min(longest, 4))
    ctx.nontrivial(longest > 1)


def look(s, igt, case, ctx):
    before = spec.snap(igt)
    ras = case['refattrs']
    kw = {} if ras is None else {'refattrs': ras}
    if ras is None:
        ras = ['alignment', 'segmentation']
    longest = 0
    for ti, k in starts(s):
        tier = list.__getitem__(igt, ti)
        items = range(len(s['tiers'][ti]['items'])) if k is None else [k]
        want = model(s, ti, items, ras)
        obj = tier if k is None else list.__getitem__(tier, k)
        got = step_budget(lambda: list(query.ancestors(obj, **kw)), 60000)
        compare(ctx, igt, got, want, (s['tiers'][ti]['id'], k), ras)
        longest = max(longest, len(want))
    ctx.equal(spec.snap(igt), before, 'the query changed the igt')
    return longest


def check_long(case, ctx):
    """A chain of references that is longer than calls can be nested."""
    n, ra = case['n'], case['ra']
    s = {'id': 'i', 'tiers': [
        {'id': 't%d' % k, 'attrs': {ra: 't%d' % (k - 1)} if k else {},
         'items': [{'id': 'x%d' % k, 'text': 'x',
                    'attrs': {ra: 'x%d' % (k - 1)} if k else {}}]}
        for k in range(n)]}
    igt = spec.build('igt', s)
    start = igt[-1] if case['tier'] else igt[-1][0]
    with ordinary_stack():
        got = list(query.ancestors(start, refattrs=[ra]))
    compare(ctx, igt, got, [(k, ra, k - 1, [0])
                            for k in range(n - 1, 0, -1)], 'the end', [ra])
    ctx.nontrivial()


def longs():
    return st.fixed_dictionaries({
        'n': st.sampled_from([1009, 1201]), 'ra': st.sampled_from(RAS),
        'tier': st.booleans()})


SUBS = [Sub('long', longs, check_long, quick=2),
        Sub('ancestors', cases, check, quick=500)]
