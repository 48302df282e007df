"""C09: splitting, expanding and compressing keep meaning."""
from hypothesis import strategies as st

from vf.core import Sub
from vf import algn, gen
from xigt import Tier, Item, ref

ID = 'C09'
TECHNIQUE = 'reference model and metamorphic relations over generated expressions'
RULE = ('Cases are expression trees rendered to text, or id lists separated '
        'by runs of white space; non-trivial = two or more selections and at '
        'least one span (expressions), two or more ids (lists).')
ASSUMPTIONS = ['expressions follow the documented grammar']

id_st = st.one_of(st.sampled_from(['a1', 'a2', 'a', 'a1.1', 'w-1', 'x_1',
                                   'A1', 'b2']), gen.ids())


def cases():
    # few distinct ids, so that neighbours often share one
    return st.lists(id_st, min_size=1, max_size=3, unique=True).flatmap(
        lambda ids: algn.asts(st.sampled_from(ids), max_sel=6))


def split_keep(ast):
    return [x if i % 2 else algn.render_selection(x)
            for i, x in enumerate(ast)]


def check(ast, ctx):
    expr = algn.render(ast)
    exp, com = algn.expand(ast), algn.compress(ast)
    ctx.nontrivial(len(ast) > 1 and any(x[1] is not None for x in ast[::2]))
    ctx.label('compressible' if com != ast else 'compressed',
              'expandable' if exp != ast else 'expanded')
    eq = lambda got, want, what: ctx.equal(got, want, what, expr=expr)
    eq(ref.expand(expr), algn.render(exp), 'expand')
    eq(ref.compress(expr), algn.render(com), 'compress')
    eq(ref.selections(expr), split_keep(ast), 'selections')
    eq(ref.selections(expr, keep_delimiters=False), split_keep(ast)[::2],
       'selections without delimiters')
    eq(ref.spans(expr), split_keep(exp), 'spans')
    eq(ref.spans(expr, keep_delimiters=False), split_keep(exp)[::2],
       'spans without delimiters')
    eq(ref.ids(expr), algn.ids(ast), 'ids')
    # laws, on the functions alone
    e, c = ref.expand(expr), ref.compress(expr)
    eq(ref.expand(e), e, 'expand is not idempotent')
    eq(ref.compress(c), c, 'compress is not idempotent')
    eq(ref.expand(c), e, 'expand does not undo compress')
    eq(ref.compress(e), ref.compress(ref.expand(c)),
       'compress does not undo expand')
    eq(''.join(ref.selections(expr)), expr, 'selections do not rejoin')
    eq(''.join(ref.spans(expr)), e, 'spans do not rejoin')
    # meaning
    tier = Tier(id='t', items=[
        Item(id=i, text='%s:0123456789' % i)
        for i in dict.fromkeys(algn.ids(ast))])
    v = ref.resolve(tier, expr)
    for what, x in (('expand', e), ('compress', c)):
        eq(ref.resolve(tier, x), v, what + ' changes the selected text')


def lists():
    return st.builds(
        lambda ids, seps, pre, post: [pre] + [
            x for p in zip(ids, seps) for x in p][:-1] + [post],
        st.lists(id_st, min_size=1, max_size=12),
        st.lists(st.sampled_from([' ', '  ', '\t', ' \t ', '\n', '\r\n', ' \n ',
                                  '\u00a0', '\u2028', '\n\n']), min_size=12,
                 max_size=12),
        st.sampled_from(['', '', ' ', '\n']),
        st.sampled_from(['', '', ' ', '  ', '\n', '\n\n', ' \n']))


def check_list(parts, ctx):
    expr = ''.join(parts)
    ids = parts[1:-1:2]
    ctx.nontrivial(len(ids) > 1)
    eq = lambda got, want, what: ctx.equal(got, want, what, expr=expr)
    eq(ref.expand(expr), expr, 'expand changes an id list')
    eq(ref.compress(expr), expr, 'compress changes an id list')
    eq(ref.ids(expr), ids, 'ids of a list')
    eq(ref.selections(expr), [p for p in parts if p], 'selections of a list')
    eq(ref.spans(expr), [p for p in parts if p], 'spans of a list')
    eq(ref.selections(expr, keep_delimiters=False), ids,
       'selections of a list, without delimiters')
    eq(ref.spans(expr, keep_delimiters=False), ids,
       'spans of a list, without delimiters')


SUBS = [Sub('expression', cases, check, quick=900),
        Sub('idlist', lists, check_list, quick=300)]
