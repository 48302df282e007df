"""C21: descendant queries follow references downward exactly."""
from hypothesis import strategies as st

from vf import ling, spec
from vf.core import Sub, ordinary_stack, step_budget
from vf.props.c20 import RAS, apply, attr, compare, edit, igts, starts
from xigt import query

ID = 'C21'
TECHNIQUE = ('reference model (breadth-first traversal) over generated '
             'reference graphs, with a bound on the steps executed')
RULE = ('Cases are igts with arbitrary references (trees, diamonds, cycles), '
        'attribute lists and the follow policy; every tier and item is a '
        'start; non-trivial = a result of two or more entries.')
ASSUMPTIONS = ['tiers have unique ids']

SHAPES = [None, ['segmentation', 'alignment'], ['alignment', 'segmentation'],
          ['content'], ['alignment'], ['content', 'alignment', 'segmentation'],
          ['segmentation'], ['segmentation', 'content']]


def cases():
    return st.fixed_dictionaries({
        'igt': igts(), 'refattrs': st.sampled_from(SHAPES),
        'follow': st.sampled_from([None, 'first', 'all', 'all']),
        'edits': st.one_of(st.just([]), edit())})


def model(s, ti, items, refattrs, follow):
    out, seen = [], set()
    queue = [(ti, [s['tiers'][ti]['items'][k].get('id') for k in items])]
    while queue:
        ti, ids = queue.pop(0)
        ids = {i for i in ids if i is not None}
        tid = s['tiers'][ti]['id']
        ras = [r for r in refattrs
               if any(tid in ling.word_ids(attr(t, r) or '')
                      for t in s['tiers'])]
        if follow == 'first':
            ras = ras[:1]
        for ra in ras:
            if (ti, ra) in seen:
                continue
            seen.add((ti, ra))
            for rj, t in enumerate(s['tiers']):
                if tid not in ling.word_ids(attr(t, ra) or ''):
                    continue
                ref = [k for k, x in enumerate(t['items'])
                       if ids & set(ling.word_ids(attr(x, ra) or ''))]
                out.append((ti, ra, rj, ref))
                queue.append((rj, [t['items'][k].get('id') for k in ref]))
    return out


def check(case, ctx):
    s = case['igt']
    igt = spec.build('igt', s)
    most = look(s, igt, case, ctx)
    if case.get('edits'):
        # and of what the igt has become
        s = apply(case['edits'], s, igt)
        most = max(most, look(s, igt, case, ctx))
        ctx.label('edited')
    ctx.label('entries=%d' % min(most, 6), 'follow=%s' % case['follow'])
    ctx.nontrivial(most > 1)


def look(s, igt, case, ctx):
    before = spec.snap(igt)
    ras, follow = case['refattrs'], case['follow']
    kw = {}
    if ras is not None:
        kw['refattrs'] = ras
    if follow is not None:
        kw['follow'] = follow
    ras = ras or ['segmentation', 'alignment']
    most = 0
    for ti, k in starts(s):
        tier = list.__getitem__(igt, ti)
        items = range(len(s['tiers'][ti]['items'])) if k is None else [k]
        want = model(s, ti, items, ras, follow or 'first')
        obj = tier if k is None else list.__getitem__(tier, k)
        got = step_budget(lambda: list(query.descendants(obj, **kw)), 300000)
        compare(ctx, igt, got, want, (s['tiers'][ti]['id'], k), ras)
        most = max(most, len(want))
    ctx.equal(spec.snap(igt), before, 'the query changed the igt')
    return most


def check_long(case, ctx):
    """A chain of references that is longer than calls can be nested."""
    n, ra = case['n'], case['ra']
    s = {'id': 'i', 'tiers': [
        {'id': 't%d' % k, 'attrs': {ra: 't%d' % (k - 1)} if k else {},
         'items': [{'id': 'x%d' % k, 'text': 'x',
                    'attrs': {ra: 'x%d' % (k - 1)} if k else {}}]}
        for k in range(n)]}
    igt = spec.build('igt', s)
    start = igt[0] if case['tier'] else igt[0][0]
    with ordinary_stack():
        got = list(query.descendants(start, refattrs=[ra]))
    compare(ctx, igt, got, [(k - 1, ra, k, [0]) for k in range(1, n)],
            'the beginning', [ra])
    ctx.nontrivial()


def longs():
    return st.fixed_dictionaries({
        'n': st.just(1005), 'ra': st.sampled_from(RAS),
        'tier': st.booleans()})


SUBS = [Sub('long', longs, check_long, quick=1),
        Sub('descendants', cases, check, quick=300)]
