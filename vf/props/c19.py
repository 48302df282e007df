"""C19: tier sorting is a dependency-respecting permutation."""
from hypothesis import strategies as st

from vf import spec
from vf.core import Sub, ordinary_stack, step_budget
from xigt import Igt, Tier, Item

ID = 'C19'
TECHNIQUE = ('reference model (depth-first order of the reference forest) '
             'and invariants over generated reference graphs')
RULE = ('Cases are tiers with up to three references to one another (forests, '
        'or with dangling references and cycles) and a priority list of '
        'reference attributes; non-trivial = sorting changes the order or the '
        'graph has a cycle or a dangling reference.')
ASSUMPTIONS = ['for graphs with cycles or dangling references only '
               'termination and that the result is a permutation are claimed']

RAS = ['segmentation', 'alignment', 'content', 'dep']
ORDERS = [None, ['segmentation', 'alignment', 'content'],
          ['alignment', 'segmentation'], ['content'], ['dep', 'alignment'],
          [], ['alignment'], ['segmentation', 'alignment', 'content', 'dep']]


@st.composite
def cases(draw, graph):
    n = draw(st.one_of(st.integers(1, 8), st.integers(1, 8),
                       st.integers(1, 16)))
    order = draw(st.permutations(range(n)))
    tiers = []
    for k in range(n):
        refs = {}
        for ra in draw(st.lists(st.sampled_from(RAS), max_size=2,
                                unique=True)):
            if graph == 'forest':
                # refer to a tier of lower rank
                if k:
                    refs[ra] = 't%d' % draw(st.integers(0, k - 1))
            else:
                j = draw(st.integers(0, n))
                refs[ra] = 't%d' % j       # t<n> dangles
        tiers.append({'id': 't%d' % k, 'refs': refs,
                      'items': draw(st.integers(0, 2))})
    tiers = [tiers[k] for k in order]
    if draw(st.integers(0, 3)) == 0:
        # anonymous tiers cannot be referred to
        used = {r for t in tiers for r in t['refs'].values()}
        for t in tiers:
            if t['id'] not in used and draw(st.booleans()):
                t['id'] = None
    return {'tiers': tiers, 'order': draw(st.sampled_from(ORDERS))}


def build(case):
    out = []
    for t in case['tiers']:
        out.append(Tier(id=t['id'], attributes=dict(t['refs']),
                        items=[Item(id='%s-%d' % (t['id'] or 'x', k),
                                    text='v') for k in range(t['items'])]))
    return Igt(id='i', tiers=out)


def model(tiers, order):
    """Expected order (indices) or None if there is a cycle or dangling
    reference by the attributes in order."""
    pos = {t['id']: k for k, t in enumerate(tiers) if t['id']}
    parent = {}
    for k, t in enumerate(tiers):
        for p, ra in enumerate(order):
            if ra in t['refs']:
                if t['refs'][ra] not in pos:
                    return None
                parent[k] = (pos[t['refs'][ra]], p)
                break
    for k in parent:
        seen = set()
        while k in parent:
            if k in seen:
                return None
            seen.add(k)
            k = parent[k][0]
    out = []

    def visit(k):
        out.append(k)
        kids = sorted((p, c) for c, (q, p) in parent.items() if q == k)
        for p, c in kids:
            visit(c)

    for k in range(len(tiers)):
        if k not in parent:
            visit(k)
    return out


def check(case, ctx):
    igt = build(case)
    tiers = list(list.__iter__(igt))
    before = {id(t): spec.snap(t) for t in tiers}
    order = case['order']
    args = [] if order is None else [order]

    def sort():
        step_budget(lambda: igt.sort_tiers(*args), 20000)
        now = list(list.__iter__(igt))
        ctx.check(sorted(map(id, now)) == sorted(map(id, tiers)),
                  'not a permutation', now=now, before=tiers)
        for t in now:
            ctx.equal(spec.snap(t), before[id(t)], 'a tier was altered')
            ctx.check(spec.has_parent(t, igt), 'a tier lost its parent')
            if t.id:
                ctx.check(igt[t.id] is t, 'a tier lost its id')
        return [next(k for k, u in enumerate(tiers) if u is t) for t in now]

    got = sort()
    want = model(case['tiers'], order or
                 (['segmentation', 'alignment', 'content']
                  if order is None else []))
    if want is None:
        ctx.label('cyclic or dangling')
        ctx.nontrivial()
        sort()
        return
    ctx.equal(got, want, 'order of the tiers', order=order)
    ctx.nontrivial(got != sorted(got))
    ctx.equal(sort(), want, 'sorting again changes the order')


def check_long(case, ctx):
    """A chain of references that is longer than calls can be nested."""
    n, ra = case['n'], case['ra']
    tiers = [Tier(id='t%d' % k, attributes={ra: 't%d' % (k - 1)} if k else {})
             for k in range(n)]
    igt = Igt(id='i', tiers=[tiers[k * case['step'] % n] for k in range(n)])
    with ordinary_stack():
        igt.sort_tiers()
    ctx.equal([t.id for t in list.__iter__(igt)],
              ['t%d' % k for k in range(n)], 'order of a long chain')
    ctx.nontrivial()


def longs():
    return st.fixed_dictionaries({
        'n': st.sampled_from([1009, 1201]), 'ra': st.sampled_from(RAS[:1]),
        'step': st.integers(1, 1008)})


SUBS = [Sub('long', longs, check_long, quick=2),
        Sub('forests', lambda: cases('forest'), check, quick=700),
        Sub('graphs', lambda: cases('any'), check, quick=300)]
