"""C18: invalid structure is rejected when it is created."""
import copy

from hypothesis import strategies as st

from vf import gen, spec
from vf.core import Sub
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild

ID = 'C18'
TECHNIQUE = ('property-based testing of the constructors and the id setter: '
             'generated arguments with injected faults against a rule model')
RULE = ('Cases are a kind of object, constructor arguments and zero or more '
        'injected faults; construction must fail exactly if there is a fault '
        'and otherwise store everything; non-trivial = at least one fault, or '
        'children, attributes and an id at once.')
ASSUMPTIONS = ['ids and names that start well but contain odd characters '
               'later (outside of [-._] letters and digits) are only '
               'required to be rejected for names with white space, '
               'punctuation or colons']

KINDS = ['corpus', 'igt', 'tier', 'item', 'metadata', 'meta', 'mc']
ERRORS = (spec.XigtError, ValueError, TypeError)
GOOD_ID = st.one_of(st.sampled_from(['a', 'Z9', 'i1', 'a-b.c_d', 'x' * 40]),
                    gen.ids())
BAD_HEAD = st.one_of(
    st.sampled_from(['1', '_', '-', '.', ' ', 'é', 'я', '日', '²', '', ':',
                     '\n', '{', '@', '[', '`', '/']),
    st.characters(exclude_categories=('Cs',)).filter(
        lambda c: not (c.isascii() and c.isalpha())))
BAD_ID = st.builds(lambda h, t: h + t, BAD_HEAD,
                   st.text(st.sampled_from('a1-._ b'), max_size=4)).filter(
    lambda s: not (s[:1].isascii() and s[:1].isalpha()))
GOOD_NAME = st.one_of(
    st.sampled_from(gen.MC_NAMES + gen.MC_RESERVED),
    st.builds(lambda h, t: h + t, st.sampled_from('abZ_éя日'),
              st.text(st.sampled_from('aB1-._é'), max_size=4)))
BAD_NAME = st.one_of(
    st.sampled_from(['', '1', '1a', '-a', '.a', ' a', 'a b', 'a:b', 'a\n',
                     'a\nb', '\n', 'a<', '<a', 'a/b', '{u}a', 'a{', 'a=',
                     'a"', "a'", 'a&', 'a\t', 'a!', '٣']),
    st.builds(lambda a, c, b: a + c + b, st.sampled_from(['', 'a', 'x1']),
              st.sampled_from(list(' \n\t:<>&"\'/\\(){}[]=!?*+,;#%$@^|~`')),
              st.sampled_from(['', 'b', '\n'])))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS))
    case = {'kind': kind, 'faults': []}
    opts = ['id', 'none']
    if kind == 'mc':
        opts = ['name', 'none']
    if kind in ('tier', 'item'):
        opts += ['refs', 'refs']
    if kind != 'item':
        opts += ['childkind', 'dup', 'child-id']
    if kind in spec.HAS_MD:
        opts += ['mdkind', 'bare', 'mddup']
    faults = sorted(set(draw(st.lists(st.sampled_from(opts), min_size=1,
                                      max_size=2))) - {'none'})
    if draw(st.integers(0, 2)) == 0:
        faults = []
    case['faults'] = faults
    case['id'] = draw(BAD_ID if 'id' in faults else
                      st.one_of(st.none(), GOOD_ID))
    case['name'] = draw(BAD_NAME if 'name' in faults else GOOD_NAME)
    case['type'] = draw(st.one_of(st.none(), gen.any_text(3)))
    case['attrs'] = draw(st.dictionaries(st.sampled_from(gen.ATTR_KEYS[:8]),
                                         gen.any_text(3), max_size=2))
    case['text'] = draw(st.one_of(st.none(), gen.any_text(4)))
    case['ns'] = draw(st.sampled_from([None, 'urn:x', '']))
    case['nsmap'] = draw(st.sampled_from([None, {}, {'p': 'urn:x'}]))
    refs = {}
    if kind in ('tier', 'item'):
        combos = ([['segmentation', 'content'], ['segmentation', 'alignment'],
                   ['segmentation', 'alignment', 'content']]
                  if 'refs' in faults else
                  [[], ['segmentation'], ['alignment'], ['content'],
                   ['alignment', 'content']])
        for r in draw(st.sampled_from(combos)):
            refs[r] = draw(st.sampled_from(['a', 'a1', 'a1[0:1]+a2', 'w x']))
    case['refs'] = refs
    ids = draw(st.lists(GOOD_ID, max_size=draw(st.sampled_from([3, 3, 3, 12])),
                        unique=True))
    case['children'] = [draw(st.sampled_from([i, None])) for i in ids]
    case['at'] = draw(st.integers(0, 12))
    case['bad'] = draw(st.sampled_from(['str', 'none', 'other', 'int',
                                        'list']))
    case['badid'] = draw(BAD_ID)
    case['md'] = draw(st.integers(0, 2))
    case['gen'] = draw(st.booleans())
    return case


def child(kind, i):
    if kind == 'mc':
        x = MetaChild('n')
        x.id = i
        return x
    return spec.CLASS[kind](id=i)


def wrong(kind, what):
    return {'str': lambda: 'a', 'none': lambda: None, 'int': lambda: 3,
            'list': list,
            'other': lambda: (Igt if kind != 'igt' else Tier)(id='o')}[what]()


def check(case, ctx):
    kind, faults = case['kind'], case['faults']
    at = case['at']
    kw = dict(attributes=dict(case['attrs']), namespace=case['ns'],
              nsmap=None if case['nsmap'] is None else dict(case['nsmap']))
    if kind != 'mc':
        kw.update(id=case['id'], type=case['type'])
    else:
        kw['name'] = case['name']
    if kind in spec.HAS_TEXT:
        kw['text'] = case['text']
    kw.update(case['refs'])
    children = []
    if kind != 'item':
        ck = spec.CHILD_KIND[kind]
        ids = list(case['children'])
        if 'dup' in faults:
            ids = ids[:at] + ['dup'] + ids[at:] + ['dup']
        children = [child(ck, i) for i in ids]
        if 'childkind' in faults:
            children.insert(at, wrong(ck, case['bad']))
        if 'child-id' in faults:
            # must already fail when the child is made
            ctx.raises(ERRORS, lambda: child(ck, case['badid']),
                       'a malformed id is accepted', kind=ck,
                       id=case['badid'])
        kw[spec.KIND_CHILDREN[kind]] = (
            iter(children) if case['gen'] else children)
    md = []
    if kind in spec.HAS_MD:
        md = [Metadata(id='m%d' % k) for k in range(case['md'])]
        if 'mddup' in faults:
            md += [Metadata(id='d'), Metadata(id='d')]
        if 'mdkind' in faults:
            md.insert(at, wrong('metadata', case['bad']))
        if md or case['gen']:
            kw['metadata'] = md
        if 'bare' in faults:
            kw['metadata'] = Metadata(type='xigt-meta', metas=[Meta()])
    ctx.label(kind, *faults or ['ok'])
    wf = [f for f in faults if f != 'child-id']
    if wf:
        e = ctx.raises(ERRORS, lambda: spec.CLASS[kind](**kw),
                       'invalid arguments accepted', faults=wf, kwargs=kw)
        ctx.nontrivial()
        return
    o = spec.CLASS[kind](**kw)
    attrs = dict(case['attrs'], **case['refs'])
    ctx.nontrivial(bool(faults) or (bool(children) and bool(attrs)))
    d = dict(kind=kind, kwargs=kw)
    ctx.equal(o.id, case['id'] if kind != 'mc' else None, 'id', **d)
    ctx.equal(o.type, case['type'] if kind != 'mc' else None, 'type', **d)
    ctx.equal(dict(o.attributes), attrs, 'attributes', **d)
    ctx.equal(o.namespace, case['ns'], 'namespace', **d)
    ctx.equal(dict(o.nsmap), case['nsmap'] or {}, 'nsmap', **d)
    if kind == 'mc':
        ctx.equal(o.name, case['name'], 'name', **d)
    if kind in spec.HAS_TEXT:
        ctx.equal(o.text, case['text'], 'text', **d)
    if kind in ('tier', 'item'):
        for r in ('alignment', 'content', 'segmentation'):
            ctx.equal(getattr(o, r), case['refs'].get(r), r, **d)
    if kind != 'item':
        got = list(getattr(o, spec.KIND_CHILDREN[kind]))
        ctx.check(len(got) == len(children) and all(
            a is b and spec.has_parent(a, o) for a, b in zip(got, children)),
            'children', got=got, want=children, **d)
    if kind in spec.HAS_MD:
        got = list(o.metadata)
        ctx.check(len(got) == len(md) and all(
            a is b and spec.has_parent(a, o) for a, b in zip(got, md)),
            'metadata', got=got, want=md, **d)
    # nothing is shared with the arguments
    kw['attributes']['later'] = 'x'
    if kw['nsmap'] is not None:
        kw['nsmap']['later'] = 'x'
    ctx.equal(dict(o.attributes), attrs, 'attributes are shared', **d)
    ctx.equal(dict(o.nsmap), case['nsmap'] or {}, 'nsmap is shared', **d)


def setter_cases():
    return st.fixed_dictionaries({
        'kind': st.sampled_from(KINDS),
        'first': st.one_of(st.none(), GOOD_ID),
        'ids': st.lists(st.one_of(
            st.tuples(st.just(True), st.one_of(st.none(), GOOD_ID)),
            st.tuples(st.just(False), BAD_ID)).map(list), min_size=1,
            max_size=5)})


def check_setter(case, ctx):
    kind = case['kind']
    o = child(kind, case['first'])
    cur = case['first']
    ctx.equal(o.id, cur, 'id')
    for good, i in case['ids']:
        if good:
            o.id = cur = i
        else:
            ctx.raises(ERRORS, lambda: setattr(o, 'id', i),
                       'a malformed id is accepted', id=i)
            ctx.nontrivial()
        ctx.equal(o.id, cur, 'id after assignment')


def name_cases():
    return st.one_of(st.tuples(st.just(True), GOOD_NAME),
                     st.tuples(st.just(False), BAD_NAME)).map(list)


def check_name(case, ctx):
    good, name = case
    ctx.label('good' if good else 'bad')
    ctx.nontrivial(not good)
    if good:
        ctx.equal(MetaChild(name).name, name, 'name')
    else:
        ctx.raises(ERRORS, lambda: MetaChild(name),
                   'a malformed name is accepted', name=name)


SUBS = [Sub('constructors', cases, check, quick=800),
        Sub('id-setter', setter_cases, check_setter, quick=200),
        Sub('names', name_cases, check_name, quick=200)]
