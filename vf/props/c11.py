"""C11: referents and referrers are exact inverses."""
import contextlib
import copy

from hypothesis import strategies as st

from vf import algn, ling, spec
from vf.core import Sub
from xigt import Item, Tier, ref

ID = 'C11'
TECHNIQUE = ('stateful model-based testing: generated igts and edit histories '
             'against a reference relation between ids')
RULE = ('Cases are igts with arbitrary (also cyclic, repeated and dangling) '
        'references, a history of edits and index refreshes, and attribute '
        'selections; after every step all queries on all objects are compared '
        'with the relation computed from the plain data; non-trivial = some '
        'object has two referents or two referrers.')
ASSUMPTIONS = ['ids are unique within an igt; queried objects exist and have '
               'ids; references of items name items, those of tiers tiers',
               'added and removed items are followed by an index refresh']

STD = ['alignment', 'content', 'segmentation']
ALL = STD + ['dep']
CFG = ling.LCfg(max_tiers=4, refs='any', dangling=True, none_ids=True,
                refattrs=STD + ['dep'], p_ref=2, max_items=4)
SEL = [STD, ['alignment'], ['segmentation', 'dep'], ['dep'], [],
       ['content', 'alignment'], ['none-such', 'content']]


ras = st.lists(st.sampled_from(STD + ['dep']), max_size=3, unique=True)
TTYPES = ['words', 'glosses', 'phrases']
ITYPES = ['x', 'words']


@st.composite
def tables(draw):
    """What attributes are references, as extensions may declare: by type of
    the tier, and for items by their own type as well."""
    if draw(st.integers(0, 3)) < 3:
        return None
    return {'tier': [[None, draw(ras)]] + [
                [t, draw(ras)] for t in TTYPES if draw(st.booleans())],
            'item': [[t, [[None, draw(ras)]] + [
                [i, draw(ras)] for i in ITYPES if draw(st.booleans())]]
                for t in [None] + TTYPES
                if t is None or draw(st.booleans())]}


def allowed(tables, kind, x, t):
    """The attributes that are references of x (in tier t)."""
    if tables is None:
        return STD
    if kind == 'tier':
        d = dict(map(tuple, tables['tier']))
        return d.get(x.get('type'), d[None])
    d = {k: dict(map(tuple, v)) for k, v in tables['item']}
    d = d.get(t.get('type'), d[None])
    return d.get(x.get('type'), d[None])


@contextlib.contextmanager
def installed(tables):
    """The classes with these tables."""
    if tables is None:
        yield
        return
    old = Tier._allowed_refattrs, Item._allowed_refattrs
    Tier._allowed_refattrs = {k: tuple(v) for k, v in tables['tier']}
    Item._allowed_refattrs = {k: {i: tuple(w) for i, w in v}
                              for k, v in tables['item']}
    try:
        yield
    finally:
        Tier._allowed_refattrs, Item._allowed_refattrs = old


@st.composite
def cases(draw):
    s = draw(ling.igts(CFG))
    tabs = draw(tables())
    if tabs:
        for t in s['tiers']:
            for x in t['items']:
                if draw(st.booleans()):
                    x['type'] = draw(st.sampled_from(ITYPES + TTYPES))
    iids = [x['id'] for t in s['tiers'] for x in t['items'] if x['id']] \
        or ['q1']
    tids = [t['id'] for t in s['tiers'] if t['id']] or ['q']
    ops = []
    for _ in range(draw(st.integers(0, 6))):
        op = draw(st.sampled_from(['iref', 'iref', 'tref', 'noref', 'add',
                                   'remove', 'move', 'refresh', 'partial']))
        o = {'op': op, 't': draw(st.integers(0, 13)),
             'i': draw(st.integers(0, 13)),
             'ra': draw(st.sampled_from(STD + ['dep']))}
        if op == 'iref':
            o['expr'] = draw(st.one_of(
                algn.asts(st.sampled_from(iids), max_sel=3, max_spans=2)
                .map(algn.render),
                st.lists(st.sampled_from(iids), min_size=1, max_size=3)
                .map(' '.join),
                st.lists(st.sampled_from(iids), min_size=1, max_size=3)
                .map('  '.join), st.just('')))
        if op == 'tref':
            o['expr'] = draw(st.sampled_from(tids + ['nope']))
        if op == 'partial':
            o['flags'] = [draw(st.booleans()), draw(st.booleans())]
        ops.append(o)
    return {'igt': s, 'ops': ops, 'tables': tabs, 'refattrs': draw(st.sampled_from(SEL))}


@st.composite
def crowds(draw):
    """Many objects that refer to the same few, more than once each."""
    n, m = draw(st.integers(17, 40)), draw(st.integers(1, 3))
    a = {'id': 'a', 'items': [{'id': 'a%d' % k, 'text': 'x'}
                              for k in range(m)]}
    ids = st.sampled_from(['a%d' % k for k in range(m)])
    b = {'id': 'b', 'attrs': {'alignment': 'a'}, 'items': [
        {'id': 'b%d' % k, 'text': 'y', 'attrs': {'alignment': algn.render(
            draw(algn.asts(ids, max_sel=3, max_spans=1)))}}
        for k in range(n)]}
    more = [{'id': 'c%d' % k, 'attrs': {'alignment': 'a'}, 'items': []}
            for k in range(draw(st.sampled_from([0, 0, 20])))]
    return {'igt': {'id': 'i1', 'tiers': [a, b] + more}, 'ops': [],
            'tables': None, 'refattrs': draw(st.sampled_from(SEL))}


def objects(s):
    for t in s['tiers']:
        yield 'tier', t, t
    for t in s['tiers']:
        for x in t['items']:
            yield 'item', x, t


def refs_of(x, ra):
    return ling.word_ids((x.get('attrs') or {}).get(ra, ''))


def snapshot(s, tabs):
    """The data the caches must stand for."""
    out, inv = {}, {}
    for kind, x, t in objects(s):
        if x.get('id') is None:
            continue
        ras = allowed(tabs, kind, x, t)
        out[x['id']] = {ra: refs_of(x, ra) for ra in ras}
        for ra in ras:
            for r in dict.fromkeys(out[x['id']][ra]):
                inv.setdefault(r, {}).setdefault(ra, []).append(x['id'])
    return out, inv


def full(d, ras):
    return {ra: list(d.get(ra, [])) for ra in ras}


def compare(ctx, s, igt, cache, refattrs, step, tabs):
    pairs = [(k, x, t, o) for (k, x, t), o in zip(
        objects(s), igt.tiers + [i for t in igt.tiers for i in t.items])]
    byid = {x['id']: o for k, x, t, o in reversed(pairs) if x.get('id')}
    many = False
    for kind, x, t, o in pairs:
        if x.get('id') is None:
            continue
        i = x['id']
        d = dict(step=step, id=i)
        for ras in (refattrs, STD):
            want = {ra: refs_of(x, ra) for ra in ras}
            inv = {ra: [y['id'] for k, y, _ in objects(s)
                        if k == kind and y.get('id') is not None
                        and i in refs_of(y, ra)] for ra in ras}
            many |= any(len(v) > 1 for v in want.values()) \
                or any(len(v) > 1 for v in inv.values())
            ctx.equal(igt.referents(i, ras), want, 'referents', **d)
            ctx.equal(o.referents(ras), want, 'object.referents', **d)
            ctx.equal(ref.referents(igt, i, ras), want, 'ref.referents', **d)
            ctx.equal(igt.referrers(i, refattrs=ras), inv, 'referrers', **d)
            ctx.equal(o.referrers(refattrs=ras), inv, 'object.referrers', **d)
            ctx.equal(ref.referrers(igt, i, ras), inv, 'ref.referrers', **d)
        mine = allowed(tabs, kind, x, t)
        ctx.equal(sorted(o.allowed_reference_attributes()), sorted(mine),
                  'allowed attributes', **d)
        ctx.equal(ref.referents(igt, i), {ra: refs_of(x, ra) for ra in mine},
                  'ref.referents, all', **d)
        inv = {ra: [y['id'] for k, y, u in objects(s)
                    if k == kind and y.get('id') is not None
                    and ra in allowed(tabs, k, y, u)
                    and i in refs_of(y, ra)] for ra in ALL}
        ctx.equal(full(ref.referrers(igt, i), ALL), inv,
                  'ref.referrers, all', **d)
        # cached: as of the last refresh
        out, cinv = cache
        for q, src, what in ((igt.referents(i), out, 'cached referents'),
                             (o.referents(), out, 'object cached referents'),
                             (igt.referrers(i), cinv, 'cached referrers'),
                             (o.referrers(), cinv,
                              'object cached referrers')):
            ctx.equal(full(q, ALL), full(src.get(i, {}), ALL), what, **d)
            ctx.check(all(k in ALL or not v for k, v in q.items()),
                      what + ' under an unknown attribute', got=dict(q), **d)
        for ra in ALL:
            ids = refs_of(x, ra)
            if ids:
                got = ref.dereference(o, ra)
                ctx.check(got is byid.get(ids[0]), 'dereference', ra=ra,
                          got=got, **d)
                ctx.check(got is igt.get_any(ids[0]),
                          'dereference and lookup disagree', **d)
                got = ref.dereference_all(o, ra)
                ctx.check(len(got) == len(ids) and all(
                    a is byid.get(b) for a, b in zip(got, ids)),
                    'dereference_all', ra=ra, got=got, ids=ids, **d)
    return many


def check(case, ctx):
    if not hasattr(Tier, '_allowed_refattrs'):
        case = dict(case, tables=None)      # no way to set them
    with installed(case.get('tables')):
        check_history(case, ctx)


def check_history(case, ctx):
    tabs = case.get('tables')
    ctx.label('tables' if tabs else 'standard')
    s = copy.deepcopy(case['igt'])
    igt = spec.build('igt', s)
    cache = list(snapshot(s, tabs))
    many = compare(ctx, s, igt, cache, case['refattrs'], 'initially',
                   tabs)
    for n, o in enumerate(case['ops']):
        if not s['tiers']:
            break
        op = o['op']
        k = o['t'] % len(s['tiers'])
        ts, t = s['tiers'][k], igt.tiers[k]
        j = o['i'] % len(ts['items']) if ts['items'] else None
        if op == 'tref':
            ts.setdefault('attrs', {})[o['ra']] = o['expr']
            t.attributes[o['ra']] = o['expr']
        elif op == 'refresh':
            igt.refresh_indices()
            cache = list(snapshot(s, tabs))
        elif op == 'partial':
            a, b = o['flags']
            igt.refresh_indices(referents=a, referrers=b)
            new = snapshot(s, tabs)
            cache = [new[0] if a else cache[0], new[1] if b else cache[1]]
        elif op == 'add':
            x = {'id': 'n%d' % n, 'attrs': {o['ra']: 'n%d' % n}}
            ts['items'].append(x)
            t.append(spec.build('item', x))
            igt.refresh_indices()
            cache = list(snapshot(s, tabs))
        elif op == 'move':
            s['tiers'].append(s['tiers'].pop(k))
            igt.remove(t)
            igt.append(t)
            igt.refresh_indices()
            cache = list(snapshot(s, tabs))
        elif j is not None:
            xs, x = ts['items'][j], t.items[j]
            if op == 'iref':
                xs.setdefault('attrs', {})[o['ra']] = o['expr']
                x.attributes[o['ra']] = o['expr']
            elif op == 'noref':
                xs.setdefault('attrs', {}).pop(o['ra'], None)
                x.attributes.pop(o['ra'], None)
            elif op == 'remove':
                ts['items'].pop(j)
                t.remove(x)
                igt.refresh_indices()
                cache = list(snapshot(s, tabs))
        ctx.label('op=' + op)
        many |= compare(ctx, s, igt, cache, case['refattrs'],
                        'after step %d (%s)' % (n + 1, op), tabs)
    ctx.nontrivial(many)


SUBS = [Sub('history', cases, check, quick=500),
        Sub('crowds', crowds, check, quick=20)]
