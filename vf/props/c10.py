"""C10: an item value always reflects its text or its references."""
import copy

from hypothesis import strategies as st

from vf import algn, gen, ling, spec
from vf.core import Sub
from xigt import Item, Tier, Igt
from xigt.errors import XigtStructureError

ID = 'C10'
TECHNIQUE = 'stateful model-based testing against a reference evaluator'
RULE = ('Cases are an igt of several tiers with acyclic references and a list '
        'of edits (text, reference, replacement, removal, re-attachment, new '
        'items and tiers), all values being compared with a reference '
        'evaluator after every edit; non-trivial = some item takes its value '
        'through a reference.')
ASSUMPTIONS = ['references are acyclic and well-formed expressions',
               'an index-affecting id change is followed by a refresh of the '
               'index, as documented']

CFG = ling.LCfg(refs='acyclic', dangling=True, lists=False, max_tiers=4,
                p_ref=3, min_tiers=2)
ORDERS = [None, ['content', 'segmentation'], ['segmentation', 'content'],
          ['segmentation'], ['alignment', 'content'], []]
OPS = ['text', 'notext', 'ref', 'noref', 'emptyref', 'replace', 'remove', 'readd', 'add',
       'rename', 'dropTier', 'readdTier', 'clearTier']


@st.composite
def cases(draw):
    s = draw(ling.igts(CFG))
    allids = [x['id'] for t in s['tiers'] for x in t['items']] or ['q']
    ops = []
    for _ in range(draw(st.one_of(st.integers(0, 8), st.integers(0, 20)))):
        op = draw(st.sampled_from(OPS))
        o = {'op': op, 't': draw(st.integers(0, 13)),
             'i': draw(st.integers(0, 13))}
        if op in ('text', 'replace', 'add'):
            o['text'] = draw(st.one_of(st.sampled_from(ling.WORDS),
                                       gen.xml_text(5)))
        if op == 'ref':
            o['ra'] = draw(st.sampled_from(['content', 'segmentation',
                                            'alignment']))
            o['ast'] = draw(algn.asts(st.sampled_from(allids), max_sel=2,
                                      max_spans=2))
        if op in ('noref', 'emptyref'):
            o['ra'] = draw(st.sampled_from(['content', 'segmentation']))
        ops.append(o)
    return {'igt': s, 'ops': ops, 'order': draw(st.sampled_from(ORDERS)),
            'span': [draw(st.integers(-4, 6)), draw(st.integers(-4, 9))]}


def compare(ctx, s, igt, order, span, step):
    viaref = False
    for ts, t in zip(s['tiers'], igt.tiers):
        for xs, x in zip(ts['items'], t.items):
            for o in (None, order):
                kw = {} if o is None else {'refattrs': o}
                ras = ('content', 'segmentation') if o is None else o
                try:
                    want = ling.value(s, ts, xs, ras)
                except ling.Broken:
                    ctx.label('broken')
                    ctx.raises(XigtStructureError, lambda: x.value(**kw),
                               'broken reference not reported', step=step,
                               item=xs, tier=ts['id'])
                    continue
                except ling.Undeclared:
                    ctx.label('undeclared')
                    ctx.raises((KeyError, XigtStructureError),
                               lambda: x.value(**kw),
                               'reference without a tier reference accepted',
                               step=step, item=xs, tier=ts['id'])
                    continue
                ctx.equal(x.value(**kw), want, 'wrong value', step=step,
                          item=xs, tier=ts['id'], refattrs=ras)
                if o is None:
                    if want is not None and xs.get('text') is None:
                        viaref = True
                    a, b = span
                    ctx.equal(x.span(a, b),
                              None if want is None else want[a:b],
                              'wrong span', step=step, item=xs, span=span)
    return viaref


def check(case, ctx):
    s = copy.deepcopy(case['igt'])
    igt = spec.build('igt', s)
    via = compare(ctx, s, igt, case['order'], case['span'], 'initially')
    fresh = 0
    for n, o in enumerate(case['ops']):
        op = o['op']
        step = 'after edit %d (%s)' % (n + 1, op)
        if op == 'readdTier':
            if not s['tiers']:
                continue
            k = o['t'] % len(s['tiers'])
            ts, t = s['tiers'].pop(k), igt.tiers[k]
            igt.remove(t)
            s['tiers'].append(ts)
            igt.append(t)
        elif not s['tiers']:
            continue
        else:
            k = o['t'] % len(s['tiers'])
            ts, t = s['tiers'][k], igt.tiers[k]
            if op == 'dropTier':
                s['tiers'].pop(k)
                igt.remove(t)
            elif op == 'clearTier':
                ts['items'] = []
                t.clear()
            elif op == 'add':
                fresh += 1
                x = {'id': 'n%d' % fresh, 'text': o['text']}
                ts['items'].append(x)
                t.append(spec.build('item', x))
            elif ts['items']:
                j = o['i'] % len(ts['items'])
                xs, x = ts['items'][j], t.items[j]
                if op == 'text':
                    xs['text'] = x.text = o['text']
                elif op == 'notext':
                    xs['text'] = x.text = None
                elif op == 'ref':
                    e = algn.render(o['ast'])
                    xs.setdefault('attrs', {})[o['ra']] = e
                    setattr(x, o['ra'], e)
                elif op == 'emptyref':
                    # a reference that selects nothing
                    xs.setdefault('attrs', {})[o['ra']] = ''
                    x.attributes[o['ra']] = ''
                elif op == 'noref':
                    xs.setdefault('attrs', {}).pop(o['ra'], None)
                    x.attributes.pop(o['ra'], None)
                elif op == 'replace':
                    ts['items'][j] = {'id': xs['id'], 'text': o['text']}
                    t[j] = Item(id=xs['id'], text=o['text'])
                elif op == 'remove':
                    ts['items'].pop(j)
                    del t[j]
                elif op == 'readd':
                    ts['items'].append(ts['items'].pop(j))
                    t.remove(x)
                    t.append(x)
                elif op == 'rename':
                    fresh += 1
                    xs['id'] = x.id = 'n%d' % fresh
                    t.refresh_index()
        ctx.label('op=' + op)
        via |= compare(ctx, s, igt, case['order'], case['span'], step)
    ctx.nontrivial(via)
    ctx.label('edits' if case['ops'] else 'no-edits')


def detached_cases():
    return st.fixed_dictionaries({
        'ra': st.sampled_from(['content', 'segmentation']),
        'where': st.sampled_from(['item', 'tier']),
        'text': st.one_of(st.none(), st.sampled_from(ling.WORDS)),
    })


def check_detached(case, ctx):
    """Outside of a tier or igt there is nothing to refer to."""
    ra = case['ra']
    x = Item(id='b1', text=case['text'], **{ra: 'a1'})
    if case['where'] == 'tier':
        Tier(id='b', items=[x], **{ra: 'a'})
    ctx.nontrivial(case['text'] is None)
    if case['text'] is not None:
        ctx.equal(x.value(), case['text'], 'text of a detached item')
    else:
        ctx.raises(XigtStructureError, x.value, 'detached item')
    # attaching it later makes the value available
    if case['where'] == 'item':
        Tier(id='b', items=[x], **{ra: 'a'})
    Igt(id='i', tiers=[Tier(id='a', items=[Item(id='a1', text='dog')]),
                       x.tier])
    ctx.equal(x.value(), case['text'] if case['text'] is not None else 'dog',
              'value after attaching')


SUBS = [Sub('history', cases, check, quick=1000),
        Sub('detached', detached_cases, check_detached, quick=10)]
