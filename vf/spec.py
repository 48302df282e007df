"""Plain-data descriptions ("specs") of Xigt objects.

A spec is JSON data; `build` makes the real object from it with the public
constructors, `snap` reads a real object back into plain data through its
public properties, and `expect` computes what snap must return from the spec
alone (so the two never share code with the implementation).
"""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from xigt.errors import XigtError

KIND_CHILDREN = {
    'corpus': 'igts', 'igt': 'tiers', 'tier': 'items', 'metadata': 'metas',
    'meta': 'children', 'mc': 'children',
}
CHILD_KIND = {
    'corpus': 'igt', 'igt': 'tier', 'tier': 'item', 'metadata': 'meta',
    'meta': 'mc', 'mc': 'mc',
}
HAS_MD = ('corpus', 'igt', 'tier')
HAS_TEXT = ('item', 'meta', 'mc')
CLASS = {
    'corpus': XigtCorpus, 'igt': Igt, 'tier': Tier, 'item': Item,
    'metadata': Metadata, 'meta': Meta, 'mc': MetaChild,
}
KIND_OF = {c: k for k, c in CLASS.items()}


def kind_of(obj):
    return KIND_OF[type(obj)]


def build(kind, s):
    kw = dict(
        attributes=dict(s.get('attrs') or {}),
        namespace=s.get('ns'),
        nsmap=None if s.get('nsmap') is None else dict(s['nsmap']),
    )
    if kind != 'mc':
        kw['id'] = s.get('id')
        kw['type'] = s.get('type')
    if kind in HAS_MD and s.get('metadata') is not None:
        kw['metadata'] = [build('metadata', m) for m in s['metadata']]
    if kind in HAS_TEXT:
        kw['text'] = s.get('text')
    if kind != 'item':
        key = KIND_CHILDREN[kind]
        kw[key] = [build(CHILD_KIND[kind], c) for c in s.get(key) or []]
    if kind == 'mc':
        obj = MetaChild(s['name'], **kw)
        if s.get('id') is not None:
            obj.id = s['id']
        if s.get('type') is not None:
            obj.type = s['type']
        return obj
    return CLASS[kind](**kw)


def build_corpus(s):
    return build('corpus', s)


def children_of(kind, obj):
    return list(getattr(obj, KIND_CHILDREN[kind]))


def snap(obj, scope=True):
    """Everything observable about obj, as plain data."""
    kind = kind_of(obj)
    d = dict(kind=kind, id=obj.id, type=obj.type,
             attrs=dict(obj.attributes), ns=obj.namespace)
    if scope:
        d['scope'] = dict(obj.nsmap)
    if kind == 'mc':
        d['name'] = obj.name
    if kind in HAS_TEXT:
        d['text'] = obj.text
    if kind in HAS_MD:
        d['metadata'] = [snap(m, scope) for m in obj.metadata]
    if kind != 'item':
        d['children'] = [snap(c, scope) for c in children_of(kind, obj)]
    return d


def expect(kind, s, scope=None, xml=False, want_scope=True):
    """What snap(build(kind, s)) must be; with xml=True, what it must be
    after a trip through XML."""
    scope = dict(scope or {})
    if s.get('nsmap') is not None:
        scope = dict(s['nsmap'])
    d = dict(kind=kind, id=s.get('id'), type=s.get('type'),
             attrs=dict(s.get('attrs') or {}), ns=s.get('ns'))
    if want_scope:
        d['scope'] = dict(scope)
    if kind == 'mc':
        d['name'] = s['name']
    if kind in HAS_TEXT:
        t = s.get('text')
        if xml and kind in ('meta', 'mc') and t is not None \
                and not t.strip():
            t = None
        if xml and t == '':
            t = None
        d['text'] = t
    if kind in HAS_MD:
        d['metadata'] = [expect('metadata', m, scope, xml, want_scope)
                         for m in s.get('metadata') or []]
    if kind != 'item':
        d['children'] = [expect(CHILD_KIND[kind], c, scope, xml, want_scope)
                         for c in s.get(KIND_CHILDREN[kind]) or []]
    return d


def has_parent(x, owner):
    """Whether x knows owner as its container. (There are no public names
    for the containers of metadata, metas and meta children.)"""
    if hasattr(x, '_parent'):
        return x._parent is owner
    name = {'item': 'tier', 'tier': 'igt', 'igt': 'corpus'}.get(kind_of(x))
    return name is None or getattr(x, name) is owner


def walk(kind, s):
    """All (kind, spec) pairs, parents first."""
    yield kind, s
    if kind in HAS_MD:
        for m in s.get('metadata') or []:
            yield from walk('metadata', m)
    if kind != 'item':
        for c in s.get(KIND_CHILDREN[kind]) or []:
            yield from walk(CHILD_KIND[kind], c)


def walk_objects(obj):
    yield obj
    kind = kind_of(obj)
    if kind in HAS_MD:
        for m in obj.metadata:
            yield from walk_objects(m)
    if kind != 'item':
        for c in children_of(kind, obj):
            yield from walk_objects(c)


def doc_labels(s):
    """Classification of a corpus spec for coverage statistics."""
    out = set()
    n = 0
    for kind, x in walk('corpus', s):
        n += 1
        if kind == 'mc':
            out.add('metachild')
            if x.get('children'):
                out.add('nested-metachild')
            if x.get('ns'):
                out.add('ns-metachild')
        elif x.get('ns'):
            out.add('ns-structural')
        if x.get('nsmap'):
            out.add('nsdecl-' + ('root' if kind == 'corpus' else 'inner'))
            if '' in x['nsmap']:
                out.add('default-ns')
        for k, v in (x.get('attrs') or {}).items():
            if k.startswith('{'):
                out.add('ns-attr')
            if v != v.strip() or '\n' in v or '<' in v or '&' in v:
                out.add('awkward-attr')
        t = x.get('text')
        if t is not None:
            out.add('text')
            if t == '':
                out.add('empty-text')
            elif not t.strip():
                out.add('blank-text')
            elif t != t.strip():
                out.add('outer-space-text')
            if any(c in t for c in '<>&'):
                out.add('markup-text')
            if any(ord(c) > 127 for c in t):
                out.add('non-ascii-text')
            if kind in ('meta', 'mc') and x.get('children'):
                out.add('text-and-children')
        if kind == 'igt':
            out.add('igt')
    out.add('nodes<=3' if n <= 3 else 'nodes<=12' if n <= 12 else 'nodes>12')
    return out


def snap_head(obj):
    """As snap, without the children."""
    d = dict(kind=kind_of(obj), id=obj.id, type=obj.type,
             attrs=dict(obj.attributes), ns=obj.namespace,
             scope=dict(obj.nsmap))
    if d['kind'] in HAS_MD:
        d['metadata'] = [snap(m) for m in obj.metadata]
    return d
