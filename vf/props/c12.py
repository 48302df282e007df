"""C12: id lookup finds exactly what an igt contains."""
import warnings

from hypothesis import strategies as st

from vf import spec
from vf.core import Sub
from xigt import Igt, Tier, Item

ID = 'C12'
TECHNIQUE = ('stateful model-based testing: edit histories followed by an '
             'index refresh, against the plain list of tiers and items')
RULE = ('Cases are a way of building an igt and a list of edits to its tiers '
        'and items; after refreshes every id ever used is looked up; '
        'non-trivial = an id is removed, moved or renamed before a refresh.')
ASSUMPTIONS = ['ids of tiers are unique within an igt and ids of items within '
               'a tier (the containers reject anything else); where tiers '
               'share an item id, any of these items may be found']

TIDS = ['a', 'b', 'w', 'm', 'a1', None]
IIDS = ['a1', 'a2', 'b1', 'b2', 'w1', 'x', 'w', None]


def items():
    return st.lists(st.sampled_from(IIDS), max_size=4).map(dedupe)


def dedupe(ids):
    out = []
    for i in ids:
        if i is None or i not in out:
            out.append(i)
    return out


@st.composite
def cases(draw):
    tids = dedupe(draw(st.lists(st.sampled_from(TIDS), max_size=4)))
    tiers = [{'id': t, 'items': draw(items())} for t in tids]
    ops = draw(st.lists(st.one_of(
        st.fixed_dictionaries({
            'op': st.sampled_from(['addItem', 'insItem', 'renItem', 'setItem',
                                   'renTier']),
            't': st.integers(0, 4), 'i': st.integers(0, 4),
            'id': st.sampled_from(IIDS + TIDS)}),
        st.fixed_dictionaries({
            'op': st.sampled_from(['delItem', 'popItem', 'moveItem',
                                   'clearTier', 'delTier', 'moveTier',
                                   'sort', 'refresh', 'clear',
                                   'lendItem', 'lendTier']),
            't': st.integers(0, 4), 'i': st.integers(0, 4)}),
        st.fixed_dictionaries({
            'op': st.sampled_from(['setItems', 'addTier', 'setTier']),
            't': st.integers(0, 4), 'id': st.sampled_from(TIDS),
            'items': items()}),
    ), max_size=12))
    return {'how': draw(st.sampled_from(['ctor', 'append', 'fill', 'setter'])),
            'tiers': tiers, 'ops': ops}


def mk_item(i):
    return Item(id=i, text='t')


def mk_tier(ts, fill=True):
    return Tier(id=ts['id'], items=[mk_item(i) for i in ts['items']]
                if fill else [])


DEF = object()


def verify(ctx, igt, step, used):
    """igt's own lists are the truth here (C13 checks these)."""
    tiers = {t.id: t for t in list.__iter__(igt) if t.id is not None}
    its = {}
    for t in list.__iter__(igt):
        for x in list.__iter__(t):
            if x.id is not None:
                its.setdefault(x.id, []).append(x)
    for i in sorted(used):
        d = dict(step=step, id=i)
        got = igt.get_item(i, DEF)
        if i in its:
            ctx.check(any(got is x for x in its[i]), 'get_item', got=got, **d)
        else:
            ctx.check(got is DEF, 'get_item finds a removed id',
                      got=got, **d)
            ctx.check(igt.get_item(i) is None, 'get_item default', **d)
        got = igt.get_any(i, DEF)
        if i in tiers:
            ctx.check(got is tiers[i], 'get_any (tier)', got=got, **d)
            ctx.check(igt.get(i, DEF) is tiers[i], 'get (tier)', **d)
            ctx.check(igt[i] is tiers[i], '[] (tier)', **d)
        else:
            ctx.check(igt.get(i, DEF) is DEF, 'get finds a removed tier', **d)
            if i in its:
                ctx.check(any(got is x for x in its[i]), 'get_any (item)',
                          got=got, **d)
            else:
                ctx.check(got is DEF, 'get_any finds a removed id',
                          got=got, **d)
                ctx.check(igt.get_any(i) is None, 'get_any default', **d)


def check(case, ctx):
    tiers = case['tiers']
    how = case['how']
    if how == 'ctor':
        igt = Igt(id='i', tiers=[mk_tier(t) for t in tiers])
    else:
        igt = Igt(id='i')
        if how == 'append':
            for t in tiers:
                igt.append(mk_tier(t))
        elif how == 'fill':
            for t in tiers:
                igt.append(mk_tier(t, fill=False))
                for i in t['items']:
                    igt[-1].append(mk_item(i))
        else:
            igt.tiers = [mk_tier(t) for t in tiers]
        igt.refresh_indices(tiers=True)
    ctx.label(how)
    used = {'zz'} | {t for t in TIDS + IIDS if t}
    verify(ctx, igt, 'built', used)
    lost = False
    for n, o in enumerate(case['ops']):
        op = o['op']
        step = 'edit %d (%s)' % (n + 1, op)
        t = igt.tiers[o['t'] % len(igt)] if len(igt) else None
        x = None
        if t is not None and 'i' in o and len(t):
            x = t.items[o['i'] % len(t)]
        try:
            if op == 'refresh':
                igt.refresh_indices(tiers=True)
                verify(ctx, igt, step, used)
            elif op == 'clear':
                igt.clear()
                lost = True
            elif op == 'addTier':
                igt.append(mk_tier(o))
            elif t is None:
                continue
            elif op == 'addItem':
                t.append(mk_item(o['id']))
            elif op == 'insItem':
                t.insert(o['i'], mk_item(o['id']))
            elif op == 'renTier':
                if any(u.id == o['id'] for u in igt.tiers) and o['id']:
                    continue
                t.id = o['id']
                igt.refresh_index()
                lost = True
            elif op == 'clearTier':
                t.clear()
                lost = True
            elif op == 'delTier':
                igt.remove(t)
                lost = True
            elif op == 'moveTier':
                igt.remove(t)
                igt.insert(0, t)
            elif op == 'lendTier':
                # it is in another igt as well
                Igt(id='z').append(t)
            elif op == 'sort':
                igt.sort_tiers()
            elif op == 'setItems':
                t.items = [mk_item(i) for i in o['items']]
                lost = True
            elif op == 'setTier':
                igt[o['t'] % len(igt)] = mk_tier(o)
                lost = True
            elif x is None:
                continue
            elif op == 'renItem':
                if any(y.id == o['id'] for y in t.items) and o['id']:
                    continue
                x.id = o['id']
                t.refresh_index()
                lost = True
            elif op == 'setItem':
                t[o['i'] % len(t)] = mk_item(o['id'])
                lost = True
            elif op == 'delItem':
                del t[o['i'] % len(t)]
                lost = True
            elif op == 'lendItem':
                Tier(id='z').append(x)
            elif op == 'popItem':
                t.pop(o['i'] % len(t))
                lost = True
            elif op == 'moveItem':
                t.remove(x)
                igt.tiers[-1].append(x)
                lost = True
        except spec.XigtError:
            ctx.label('rejected')     # a taken id
        ctx.label('op=' + op)
    igt.refresh_indices(tiers=True)
    verify(ctx, igt, 'at the end', used)
    # items alone
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        igt.refresh_indices()
    ids = [x.id for t in igt.tiers for x in t.items if x.id is not None]
    if len(ids) == len(set(ids)):
        ctx.check(not caught, 'a warning about unique ids',
                  warned=[str(w.message) for w in caught])
    verify(ctx, igt, 'at the end', used)
    ctx.nontrivial(lost)


# -- objects that are renamed, without a refresh until the end --------------

RIDS = ['a', 'b', 'c', 'd', 'e']


@st.composite
def rename_cases(draw):
    ids = draw(st.lists(st.sampled_from(RIDS + [None]), min_size=1,
                        max_size=5).map(dedupe))
    ops = draw(st.lists(st.one_of(
        st.fixed_dictionaries({
            'op': st.just('rename'), 'i': st.integers(0, 5),
            'id': st.sampled_from(RIDS + ['n1', 'n2', None])}),
        st.fixed_dictionaries({
            'op': st.sampled_from(['remove', 'del', 'pop', 'delid']),
            'i': st.integers(0, 5)}),
        st.fixed_dictionaries({
            'op': st.sampled_from(['append', 'insert', 'set']),
            'i': st.integers(0, 5),
            'id': st.sampled_from(RIDS + ['n1', 'n3', None])}),
    ), min_size=1, max_size=8))
    return {'kind': draw(st.sampled_from(['igt', 'tier', 'corpus'])),
            'ids': ids, 'ops': ops}


def check_rename(case, ctx):
    from xigt import XigtCorpus
    kind = case['kind']
    mk = {'igt': lambda i: Tier(id=i), 'tier': lambda i: Item(id=i),
          'corpus': lambda i: Igt(id=i)}[kind]
    c = {'igt': Igt, 'tier': Tier, 'corpus': XigtCorpus}[kind](id='z')
    model = [mk(i) for i in case['ids']]
    c.extend(model)
    model = list(model)
    touched = set()          # ids that a renamed object has or had
    renamed = []             # these objects
    for n, o in enumerate(case['ops']):
        op = o['op']
        d = dict(step='edit %d (%s)' % (n + 1, op))
        x = model[o['i'] % len(model)] if model else None
        ids = [y.id for y in model if y.id is not None]
        if op in ('append', 'insert', 'set'):
            y = mk(o['id'])
            if op == 'set' and x is None:
                continue
            pos = o['i'] % len(model) if model else 0
            try:
                if op == 'append':
                    c.append(y)
                    model.append(y)
                elif op == 'insert':
                    c.insert(pos, y)
                    model.insert(pos, y)
                else:
                    c[pos] = y
                    model[pos] = y
            except spec.XigtError:
                ctx.check(o['id'] in ids or o['id'] in touched,
                          'a free id is rejected', id=o['id'], **d)
                ctx.label('rejected')
        elif x is None:
            continue
        elif op == 'rename':
            if o['id'] == x.id:
                continue
            touched.update(i for i in (x.id, o['id']) if i is not None)
            x.id = o['id']
            renamed.append(x)
            ctx.label('renamed')
        else:
            k = next(k for k, y in enumerate(model) if y is x)
            if op == 'remove':
                c.remove(x)
            elif op == 'del':
                del c[k]
            elif op == 'pop':
                ctx.check(c.pop(k) is x, 'pop', **d)
            elif x.id is None or x.id in touched:
                continue
            else:
                del c[x.id]
            model.pop(k)
            ctx.label(op + (' renamed' if x.id in touched else ''))
        got = list(list.__iter__(c))
        ctx.check(len(got) == len(model)
                  and all(a is b for a, b in zip(got, model)),
                  'contents', got=[y.id for y in got],
                  want=[y.id for y in model], **d)
        # objects that are not concerned are found throughout (or any other
        # object that has the same id by now)
        for y in model:
            if y.id is not None and not any(y is z for z in renamed):
                got = [z for z in model if z.id == y.id]
                for f in (c.get, c.__getitem__):
                    try:
                        z = f(y.id)
                    except (KeyError, IndexError):
                        z = None
                    ctx.check(any(z is g for g in got), 'another object is '
                              'not found any more', id=y.id, found=z, **d)
    ids = [y.id for y in model if y.id is not None]
    if len(ids) == len(set(ids)):
        c.refresh_index()
        for i in RIDS + ['n1', 'n2', 'n3']:
            want = next((y for y in model if y.id == i), None)
            ctx.check(c.get(i) is want, 'after a refresh', id=i)
        ctx.label('refreshed')
    else:
        # two objects of one id
        try:
            c.refresh_index()
        except spec.XigtError:
            ctx.label('duplicates reported')
        else:
            ctx.fail('duplicate ids go unnoticed', ids=ids)
        got = list(list.__iter__(c))
        ctx.check(len(got) == len(model)
                  and all(a is b for a, b in zip(got, model)),
                  'contents after the failed refresh')
    ctx.nontrivial(bool(touched))


SUBS = [Sub('history', cases, check, quick=1000),
        Sub('renaming', rename_cases, check_rename, quick=600)]
