"""C33: deprecated calls still do what their replacements do."""
import warnings

from hypothesis import strategies as st

from vf import algn, edits, ling, spec
from vf.core import Sub
from xigt import Igt, Metadata, Meta, ref
from xigt.errors import XigtError, XigtAttributeError, XigtStructureError

ID = 'C33'
TECHNIQUE = ('differential: each deprecated call against its replacement on '
             'twin objects, and against references')
RULE = ('Cases are histories of additions to twin containers (of any kind, '
        'with children that are rejected), metadata contents, igts whose '
        'items have texts and references, and expressions; non-trivial = '
        'something is added and something rejected, or several metas, or '
        'references and an expression with several parts.')
ASSUMPTIONS = ['alignment expressions are well-formed, with integer offsets']


def outcome(call, kinds=edits.ERRORS):
    """What a call gives: its value or the kind of error."""
    with warnings.catch_warnings(record=True):
        warnings.simplefilter('always')
        try:
            return ('value', call())
        except kinds as e:
            return ('error', type(e).__name__)


# additions --------------------------------------------------------------

@st.composite
def additions(draw):
    return {
        'kind': draw(st.sampled_from(sorted(edits.KINDS))),
        'pool': draw(st.lists(edits.children(), min_size=3, max_size=8)),
        'steps': draw(st.lists(st.fixed_dictionaries({
            'many': st.booleans(),
            'xs': st.lists(st.integers(-2, 7), max_size=4),
            'gen': st.booleans()}), min_size=1, max_size=5))}


def check_additions(case, ctx):
    make, get, prop, mk = edits.KINDS[case['kind']]
    sides = []
    for _ in range(2):
        owner = make()
        sides.append((owner, get(owner), [mk(s) for s in case['pool']]))
    wrong = [object(), Igt() if case['kind'] != 'corpus' else Meta()]
    added = rejected = 0
    for step in case['steps']:
        res = []
        for old, (owner, cont, objs) in enumerate(sides):
            xs = [objs[k % len(objs)] if k >= 0 else wrong[k] for k in
                  step['xs']]
            if step['many']:
                arg = iter(xs) if step['gen'] else xs
                call = cont.add_list if old else cont.extend
            elif not xs:
                continue
            else:
                arg = xs[0]
                call = cont.add if old else cont.append
            res.append(outcome(lambda: call(arg)))
            n = len(cont)
        if not res:
            continue
        ctx.equal(res[1], res[0], 'result of the deprecated call', step=step)
        if res[0][0] == 'error':
            rejected += 1
        else:
            added += bool(step['xs'])
        states = []
        for owner, cont, objs in sides:
            number = {id(x): k for k, x in enumerate(objs)}
            states.append([
                [number.get(id(x)) for x in list.__iter__(cont)],
                [number.get(id(x)) for x in getattr(owner, prop)],
                [number.get(id(cont.get(s['id']))) for s in case['pool']
                 if s['id']],
                [spec.has_parent(x, owner) for x in objs]])
        ctx.equal(states[1], states[0], 'state after the deprecated call',
                  step=step)
    ctx.label(case['kind'])
    ctx.nontrivial(added and rejected)


# metadata ---------------------------------------------------------------

@st.composite
def metadata(draw):
    metas = [{'id': 'm%d' % k if draw(st.booleans()) else None,
              'type': draw(st.sampled_from(['t', None])),
              'text': draw(st.sampled_from(['x', '', None, 'a b']))}
             for k in range(draw(st.sampled_from([2, 1, 3, 0])))]
    return {'metas': metas, 'text': draw(st.sampled_from(
                [None, 'x', '', 'a b', 'é'])),
            'new': draw(st.sampled_from(
                [None, [], [{'id': 'm0', 'type': 'u', 'text': 'z'}],
                 [{'id': 'q', 'type': None, 'text': 'z'},
                  {'id': None, 'type': None, 'text': None}]])),
            'seq': draw(st.sampled_from(['list', 'tuple', 'gen'])),
            'head': draw(st.sampled_from(
                [{}, {'id': 'md1', 'type': 'xigt-meta'}]))}


def check_metadata(case, ctx):
    def metas(ms):
        xs = [Meta(**m) for m in ms or ()]
        return {'list': list, 'tuple': tuple, 'gen': iter}[case['seq']](xs)
    head = case['head']
    with warnings.catch_warnings(record=True):
        warnings.simplefilter('always')
        a = Metadata(text=metas(case['metas']), **head)
        b = Metadata(metas=metas(case['metas']), **head)
        ctx.equal(spec.snap(a), spec.snap(b), 'Metadata(text=metas)')
        ctx.check(all(spec.has_parent(m, a) for m in a), 'parents of metas')
        got = a.text
        ctx.check(len(got) == len(a.metas)
                  and all(x is y for x, y in zip(got, a.metas)),
                  'Metadata.text is Metadata.metas')
        if case['text'] is not None:
            c = Metadata(text=case['text'], **head)
            d = Metadata(metas=[Meta(text=case['text'])], **head)
            ctx.equal(spec.snap(c), spec.snap(d), 'Metadata(text=string)')
            ctx.raises(XigtError, lambda: Metadata(
                text=case['text'], metas=metas(case['metas'])),
                'both text and metas')
        old = list(a)
        a.text = None if case['new'] is None else metas(case['new'])
        b.metas = None if case['new'] is None else metas(case['new'])
        ctx.equal(spec.snap(a), spec.snap(b), 'assigning Metadata.text')
        ctx.check(all(spec.has_parent(m, a) for m in a), 'parents of assigned metas')
        for m in old:
            if m.id is not None and m.id not in [x.id for x in a]:
                ctx.check(a.get(m.id) is None, 'old metas are not found')
        for m in a:
            if m.id is not None:
                ctx.check(a.get(m.id) is m, 'assigned metas are found')
    ctx.nontrivial(len(case['metas']) > 1)


# items and alignments -----------------------------------------------------

ICFG = ling.LCfg(max_tiers=4, max_items=4)
DCFG = ling.LCfg(max_tiers=4, max_items=4, dangling=True)


@st.composite
def alignments(draw):
    g = draw(ling.igts(draw(st.sampled_from([ICFG, ICFG, DCFG]))))
    t = draw(st.integers(0, len(g['tiers']) - 1))
    ids = [x['id'] for x in g['tiers'][t]['items']] or ['zz']
    if draw(st.integers(0, 5)) == 0:
        ids = ids + ['nope']
    return {'igt': g, 'tier': t, 'attr': draw(st.sampled_from(
                ling.REFATTRS + ['dependency'])),
            'ast': draw(algn.asts(st.sampled_from(ids)))}


def check_alignments(case, ctx):
    g = spec.build('igt', case['igt'])
    ts = case['igt']['tiers'][case['tier']]
    tier = g.tiers[case['tier']]
    before = spec.snap(g)
    # the content of items
    refs = 0
    for s, t in zip(case['igt']['tiers'], g.tiers):
        for xs, x in zip(s['items'], t.items):
            errs = (XigtError, KeyError)
            want = outcome(x.value, errs)
            ctx.equal(outcome(x.get_content, errs), want,
                      'Item.get_content()', item=x.id)
            ctx.equal(outcome(lambda: x.get_content(False), errs), want,
                      'Item.get_content(False)', item=x.id)
            try:
                v = ling.value(case['igt'], s, xs)
            except (ling.Broken, ling.Undeclared):
                continue
            ctx.equal(want, ('value', v), 'value of an item', item=x.id)
            refs += 'text' not in xs and v is not None
    # the tier a tier is aligned to
    target = (ts.get('attrs') or {}).get(case['attr'])
    with warnings.catch_warnings(record=True):
        warnings.simplefilter('always')
        if target is None:
            ctx.raises(XigtAttributeError,
                       lambda: ref.get_aligned_tier(tier, case['attr']),
                       'aligned tier of a tier that is not aligned')
            ctx.label('not aligned')
        else:
            got = ref.get_aligned_tier(tier, case['attr'])
            want = next((g.tiers[k] for k, t in
                         enumerate(case['igt']['tiers'])
                         if t.get('id') == target), None)
            if got is not want:
                ctx.fail('aligned tier', got=got, want=want)
            ctx.label('aligned' if want is not None else 'dangling')
        # expressions
        expr = algn.render(case['ast'])
        ctx.equal(list(ref.get_alignment_expression_ids(expr)),
                  algn.ids(case['ast']), 'ids of an expression', expr=expr)
        ctx.equal(list(ref.get_alignment_expression_ids(expr)),
                  ref.ids(expr), 'ids of an expression', expr=expr)
        want = []
        for k, x in enumerate(case['ast']):
            if k % 2:
                want.append(x)
            elif x[1] is None:
                want.append(x[0])
            else:
                want += [y if j % 2 else (x[0], y[0], y[1])
                         for j, y in enumerate(x[1])]
        ctx.equal(list(ref.get_alignment_expression_spans(expr)), want,
                  'spans of an expression', expr=expr)
        for none in ('', None):
            ctx.equal(list(ref.get_alignment_expression_spans(none)), [],
                      'spans of no expression')
        # resolution
        vals, missing = {}, False
        try:
            for i in algn.ids(case['ast']):
                x = next((x for x in ts['items'] if x['id'] == i), None)
                if x is None:
                    missing = True
                else:
                    vals[i] = ling.value(case['igt'], ts, x)
        except (ling.Broken, ling.Undeclared):
            vals = None
        if vals is None:
            ctx.label('broken references')
        elif missing:
            ctx.label('missing item')
            ctx.raises(XigtStructureError, lambda: ref.resolve(tier, expr),
                       'resolving an expression with a missing item')
            got = outcome(lambda: ref.resolve_alignment_expression(expr, tier))
            if got[0] == 'value':
                allv = {i: vals.get(i) for i in algn.ids(case['ast'])}
                # a selection of a missing item is nothing
                ast = [x if k % 2 or x[0] in vals else [x[0], None]
                       for k, x in enumerate(case['ast'])]
                ctx.equal(got[1], algn.evaluate(ast, allv),
                          'resolution without the missing item', expr=expr)
        else:
            want = algn.evaluate(case['ast'], vals)
            ctx.equal(ref.resolve(tier, expr), want, 'resolve', expr=expr)
            ctx.equal(ref.resolve_alignment_expression(expr, tier), want,
                      'resolve_alignment_expression', expr=expr)
            for k, x in enumerate(case['ast']):
                if k % 2 == 0:
                    sel = algn.render_selection(x)[len(x[0]):]
                    ctx.equal(ref.resolve_alignment(tier, x[0], sel) or '',
                              algn.evaluate([x], vals),
                              'resolve_alignment', expr=expr)
            ctx.nontrivial(refs and len(case['ast']) > 1)
            if any(v is None for v in vals.values()):
                ctx.label('no value')
    ctx.equal(spec.snap(g), before, 'the igt changed')


SUBS = [Sub('additions', additions, check_additions, 500),
        Sub('metadata', metadata, check_metadata, 150),
        Sub('alignments', alignments, check_alignments, 700)]
