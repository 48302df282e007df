"""C15: equality means equal content."""
import copy

from hypothesis import strategies as st

from vf import gen, spec
from vf.core import Sub
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from xigt.codecs import xigtjson, xigtxml

ID = 'C15'
TECHNIQUE = ('metamorphic relations: independently built copies are equal, '
             'copies with one mutation at a generated place are not')
RULE = ('Cases are a corpus spec, a node of it and one mutation; equality and '
        'inequality of all corresponding objects of both builds are compared '
        'with equality of the specs; non-trivial = the mutated node is below '
        'the corpus.')
ASSUMPTIONS = ['namespace declarations (prefixes) are not content']

CFG = gen.Cfg(xml=False, max_igts=2, max_tiers=2, max_items=3)
OTHER = ['zz', None, '', 'q', '{urn:x}y']
MUT = ['none', 'id', 'type', 'attr-add', 'attr-del', 'attr-val', 'attr-key',
       'ns', 'name', 'text', 'del-child', 'dup-child', 'swap', 'del-md',
       'add-md', 'swap-md', 'nest', 'nsmap']


def cases():
    return st.fixed_dictionaries({
        'corpus': gen.corpora(CFG),
        'node': st.integers(0, 60), 'deep': st.booleans(),
        'mut': st.sampled_from(MUT),
        'val': st.sampled_from(OTHER), 'k': st.integers(0, 5),
    })


def mutate(kind, s, case):
    """Change spec s in place (perhaps to something equal)."""
    mut, val, k = case['mut'], case['val'], case['k']
    attrs = s.setdefault('attrs', {})
    key = spec.KIND_CHILDREN.get(kind)
    ch = s.get(key) or [] if key else []
    if mut == 'id':
        s['id'] = 'zz' if val == '' or (val or '').startswith('{') else val
    elif mut == 'type':
        s['type'] = val
    elif mut == 'attr-add':
        attrs[val or 'q'] = ''
    elif mut == 'attr-del' and attrs:
        del attrs[sorted(attrs)[k % len(attrs)]]
    elif mut == 'attr-val' and attrs:
        a = sorted(attrs)[k % len(attrs)]
        attrs[a] = val or attrs[a] + ' '
    elif mut == 'attr-key' and attrs:
        a = sorted(attrs)[k % len(attrs)]
        attrs[val or a + '2'] = attrs.pop(a)
    elif mut == 'ns':
        s['ns'] = val
    elif mut == 'nsmap':
        s['nsmap'] = {'new': 'urn:new'}
    elif mut == 'name' and kind == 'mc':
        s['name'] += 'x'
    elif mut == 'text' and kind in spec.HAS_TEXT:
        s['text'] = val
    elif mut == 'del-child' and ch:
        del ch[k % len(ch)]
    elif mut == 'dup-child' and ch:
        x = copy.deepcopy(ch[k % len(ch)])
        x['id'] = None
        ch.append(x)
    elif mut == 'swap' and len(ch) > 1:
        j = k % (len(ch) - 1)
        ch[j], ch[j + 1] = ch[j + 1], ch[j]
    elif mut == 'nest' and kind in ('meta', 'mc', 'metadata'):
        s[key] = ch + [{'name': 'n'} if key == 'children' else {}]
    elif mut == 'del-md' and s.get('metadata'):
        del s['metadata'][k % len(s['metadata'])]
    elif mut == 'swap-md' and len(s.get('metadata') or []) > 1:
        s['metadata'].reverse()
    elif mut == 'swap-md' and len(ch) > 1:
        ch.reverse()
    elif mut == 'add-md' and kind in spec.HAS_MD:
        s['metadata'] = (s.get('metadata') or []) + [{'type': val}]


def content(kind, s):
    return spec.expect(kind, s, want_scope=False)


def check(case, ctx):
    a = copy.deepcopy(case['corpus'])
    b = copy.deepcopy(a)
    nodes = list(spec.walk('corpus', b))
    if case['deep'] and len(nodes) > 1:
        nodes = nodes[1:]
    kind, node = nodes[case['node'] % len(nodes)]
    ctx.label('at-' + kind, case['mut'])
    ctx.nontrivial(kind != 'corpus')
    mutate(kind, node, case)
    x, y = spec.build_corpus(a), spec.build_corpus(b)
    pair(ctx, 'corpus', a, x, b, y)
    # all combinations of the (kind by kind) objects of both sides, and
    # comparisons with oneself and the unmutated copy
    z = spec.build_corpus(a)
    for o, p in zip(spec.walk_objects(x), spec.walk_objects(z)):
        verdict(ctx, True, o, p)
        verdict(ctx, True, o, o)
    A = list(zip(spec.walk('corpus', a), spec.walk_objects(x)))
    B = list(zip(spec.walk('corpus', b), spec.walk_objects(y)))
    ca = [content(*s) for s, _ in A[:25]]
    cb = [content(*s) for s, _ in B[:25]]
    for (sa, o), c1 in zip(A, ca):
        for (sb, p), c2 in zip(B, cb):
            verdict(ctx, c1 == c2, o, p)
    ctx.label('equal' if content('corpus', a) == content('corpus', b)
              else 'unequal')
    # parents do not matter
    alone = spec.build(kind, node)
    twin = next(o for (k, s), o in B if s is node)
    verdict(ctx, True, alone, twin)


def pair(ctx, kind, a, x, b, y):
    """Compare along the tree."""
    verdict(ctx, content(kind, a) == content(kind, b), x, y)
    if kind in spec.HAS_MD:
        same = ([content('metadata', m) for m in a.get('metadata') or []] ==
                [content('metadata', m) for m in b.get('metadata') or []])
        verdict(ctx, same, x.metadata, y.metadata)
        for m, n, u, v in zip(a.get('metadata') or [],
                              b.get('metadata') or [],
                              x.metadata, y.metadata):
            pair(ctx, 'metadata', m, u, n, v)
    if kind != 'item':
        key = spec.KIND_CHILDREN[kind]
        for m, n, u, v in zip(a.get(key) or [], b.get(key) or [], x, y):
            pair(ctx, spec.CHILD_KIND[kind], m, u, n, v)


def verdict(ctx, want, x, y):
    for p, q, d in ((x, y, ''), (y, x, ' (swapped)')):
        if (p == q) is not want:
            ctx.fail('== gives %s%s' % (not want, d), left=describe(p),
                     right=describe(q))
        if (p != q) is want:
            ctx.fail('!= gives %s%s' % (want, d), left=describe(p),
                     right=describe(q))


def describe(o):
    try:
        return repr(spec.snap(o, scope=False))
    except KeyError:
        return repr(list(o))


SAME = {
    'corpus': lambda c: XigtCorpus(**c), 'igt': lambda c: Igt(**c),
    'tier': lambda c: Tier(**c), 'item': lambda c: Item(**c),
    'metadata': lambda c: Metadata(**c), 'meta': lambda c: Meta(**c),
}


def kinds_cases():
    return st.fixed_dictionaries({
        'id': st.sampled_from([None, 'a']), 'type': st.sampled_from([None, 't']),
        'attributes': st.sampled_from([{}, {'k': 'v'}]),
        'text': st.sampled_from([None, '', 'x']),
        'child': st.booleans(), 'name': st.sampled_from(['n', 'item']),
    })


def check_kinds(case, ctx):
    """Objects of different kinds and foreign objects are never equal."""
    ctx.nontrivial(case['id'] is not None)
    kw = {k: case[k] for k in ('id', 'type', 'attributes')}
    objs = {}
    for k, mk in SAME.items():
        objs[k] = mk(dict(kw))
    for k in ('item', 'meta'):
        objs[k].text = case['text']
    mc = objs['mc'] = MetaChild(case['name'], attributes=kw['attributes'],
                                text=case['text'])
    mc.id, mc.type = kw['id'], kw['type']
    if case['child']:
        objs['meta'].append(MetaChild('c'))
        objs['mc'].append(MetaChild('c'))
    names = sorted(objs)
    for i, p in enumerate(names):
        for q in names[i:]:
            verdict(ctx, p == q, objs[p], objs[q])
        for foreign in (None, 0, '', 'a', [], {}, object(), list(
                objs[p]) if p != 'item' else ()):
            if (objs[p] == foreign) is not False \
                    or (objs[p] != foreign) is not True \
                    or (foreign == objs[p]) is not False \
                    or (foreign != objs[p]) is not True:
                ctx.fail('%s compared with %r' % (p, foreign))


def channel_cases():
    return gen.corpora(gen.Cfg(xml=True, both=True))


def check_channel(case, ctx):
    """Equality does not depend on how an object came about."""
    x = spec.build_corpus(case)
    j = xigtjson.loads(xigtjson.dumps(x))
    verdict(ctx, True, x, j)
    m = xigtxml.loads(xigtxml.dumps(x))
    if spec.snap(m, scope=False) == spec.snap(x, scope=False):
        verdict(ctx, True, x, m)
        verdict(ctx, True, j, m)
        ctx.label('all-channels')
    ctx.nontrivial(len(x) > 0)


SUBS = [Sub('mutations', cases, check, quick=400),
        Sub('kinds', kinds_cases, check_kinds, quick=40),
        Sub('channels', channel_cases, check_channel, quick=60)]
