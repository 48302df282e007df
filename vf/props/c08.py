"""C08: alignment expressions resolve to exactly the selected text."""
from hypothesis import strategies as st

from vf.core import Sub
from vf import algn, gen
from xigt import Igt, Tier, Item, ref
from xigt.errors import XigtStructureError

ID = 'C08'
TECHNIQUE = 'differential against an independent reference evaluator of alignment expressions'
RULE = ('Cases are a container of items (texts incl. empty, missing, '
        'non-ASCII) and an expression tree over its ids (and sometimes an '
        'unknown id) rendered to text; non-trivial = more than one selection '
        'or a span, all ids known.')
ASSUMPTIONS = ['expressions follow the documented grammar; surrounding '
               'white space is allowed']


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 5), st.integers(1, 5),
                       st.integers(1, 12)))
    ids, texts = [], []
    for k in range(n):
        i = draw(st.one_of(st.sampled_from(['a1', 'a2', 'w-1', 'm.1', 'x_1',
                                            'a', 'A1', 'a1.1', 'a11']),
                           gen.ids()))
        if i in ids:
            continue
        ids.append(i)
        texts.append(draw(st.one_of(
            st.sampled_from(['one', 'two', '', None, 'inu-ga', 'a b', '日本語',
                             '\U0001F600x', 'abcdefghij',
                             'abcdefghijklmnopqrstuvwxyz' * 9]),
            gen.xml_text())))
    pool = ids
    if draw(st.integers(0, 9)) == 9:
        pool = ids + ['zz9']
    ast = draw(algn.asts(st.sampled_from(pool)))
    return {'ids': ids, 'texts': texts, 'ast': ast,
            'where': draw(st.sampled_from(['tier', 'igt', 'content',
                                           'segmentation'])),
            'pad': draw(st.sampled_from(['', '', ' ', '\n']))}


def check(case, ctx):
    ids, texts, ast = case['ids'], case['texts'], case['ast']
    expr = case['pad'] + algn.render(ast) + case['pad'][::-1]
    where = case['where']
    values = dict(zip(ids, texts))
    known = all(i in values for i in algn.ids(ast))
    spans = [x[1] for x in ast[::2] if x[1] is not None]
    ctx.label('where=' + where, 'known' if known else 'unknown-id',
              'spans' if spans else 'whole')
    if any(y[0] < 0 or y[1] < 0 for s in spans for y in s[::2]):
        ctx.label('negative-offset')
    if any(len(s) > 1 for s in spans):
        ctx.label('multi-span')
    if any(values.get(i) is None for i in algn.ids(ast)):
        ctx.label('no-value')
    ctx.nontrivial(known and (len(ast) > 1 or spans))
    items = [Item(id=i, text=t) for i, t in zip(ids, texts)]
    tier = Tier(id='base', items=items)
    src = Item(id='src', attributes={where: expr}
               if where in ('content', 'segmentation') else {})
    t2 = Tier(id='other', items=[src],
              attributes={where: 'base'}
              if where in ('content', 'segmentation') else {})
    igt = Igt(id='i', tiers=[tier, t2])

    def run():
        if where == 'tier':
            return ref.resolve(tier, expr)
        if where == 'igt':
            return ref.resolve(igt, expr)
        return src.value()

    if known:
        ctx.equal(run(), algn.evaluate(ast, values),
                  'wrong text for expression', expr=expr, values=values)
    else:
        ctx.raises(XigtStructureError, run, 'unknown id accepted', expr=expr)


SUBS = [Sub('resolve', cases, check, quick=1200)]
