"""C16: attribute and namespace lookup follows declared scopes."""
import copy

from hypothesis import strategies as st

from vf import gen, spec
from vf.core import Sub

ID = 'C16'
TECHNIQUE = ('stateful model-based testing: generated trees, declarations and '
             'moves against a reference scope and inheritance model')
RULE = ('Cases are a corpus spec with namespaces and attributes at all levels, '
        'moves of objects between parents and redeclarations, and lookups '
        'spelled in every way; non-trivial = some lookup finds an inherited '
        'or a namespaced attribute.')
ASSUMPTIONS = ['prefixes used in a lookup are declared in scope; keys have at '
               'most one colon',
               'a full qualified name is not combined with a namespace '
               'argument']

URIS = ['urn:a', 'urn:b', 'http://x.org/c#']
PFX = ['a', 'b', 'c', '']
NAMES = ['k', 'lang', 'x-1', 'é']
SHAPE = {'corpus': 2, 'igt': 2, 'tier': 2, 'metadata': 2, 'meta': 2, 'mc': 1}


@st.composite
def node(draw, kind, depth=2):
    s = {}
    if draw(st.integers(0, 2)) == 0:
        s['nsmap'] = {draw(st.sampled_from(PFX)): draw(st.sampled_from(URIS))
                      for _ in range(draw(st.integers(0, 2)))}
    s['attrs'] = {}
    for _ in range(draw(st.integers(0, 2))):
        u = draw(st.sampled_from([None] + URIS))
        n = draw(st.sampled_from(NAMES))
        s['attrs'][n if u is None else '{%s}%s' % (u, n)] = \
            draw(st.sampled_from(['v%d', 'w%d', '', ' '])) \
            .replace('%d', str(draw(st.integers(0, 999))))
    if kind in spec.HAS_MD:
        s['metadata'] = [draw(node('metadata'))
                         for _ in range(draw(st.integers(0, 1)))]
    if kind == 'mc':
        s['name'] = 'n'
    if kind in SHAPE and not (kind == 'mc' and depth == 0):
        s[spec.KIND_CHILDREN[kind]] = [
            draw(node(spec.CHILD_KIND[kind], depth - (kind == 'mc')))
            for _ in range(draw(st.integers(0, SHAPE[kind])))]
    return s


def cases():
    n = st.integers(0, 40)
    return st.fixed_dictionaries({
        'corpus': node('corpus'),
        'ops': st.lists(st.one_of(
            st.fixed_dictionaries({'op': st.just('move'), 'n': n, 'to': n}),
            st.fixed_dictionaries({'op': st.just('move'), 'n': n, 'to': n}),
            st.fixed_dictionaries({
                'op': st.just('nsmap'), 'n': n,
                'v': st.one_of(st.none(), st.dictionaries(
                    st.sampled_from(PFX), st.sampled_from(URIS),
                    max_size=2))}),
            st.fixed_dictionaries({
                'op': st.just('attr'), 'n': n,
                'key': st.sampled_from(NAMES),
                'val': st.sampled_from(['new', '', 'v']),
                'uri': st.sampled_from([None] + URIS)})), max_size=7),
        'default': st.sampled_from([None, 'dflt', 0]),
    })


class N:
    """A node of the model."""
    def __init__(self, kind, s, obj, parent):
        self.kind, self.obj, self.parent = kind, obj, parent
        self.attrs = dict(s.get('attrs') or {})
        self.nsmap = s.get('nsmap')
        self.list = None            # children of the same parent kind

    def scope(self):
        x = self
        while x is not None:
            if x.nsmap is not None:
                return x.nsmap
            x = x.parent
        return {}

    def lookup(self, key, default, inherit):
        x = self
        while x is not None:
            if key in x.attrs:
                return x.attrs[key]
            x = x.parent if inherit else None
        return default


def flatten(kind, s, obj, parent, out):
    n = N(kind, s, obj, parent)
    out.append(n)
    if kind in spec.HAS_MD:
        for m, o in zip(s.get('metadata') or [], obj.metadata):
            flatten('metadata', m, o, n, out)
    if kind != 'item':
        for c, o in zip(s.get(spec.KIND_CHILDREN[kind]) or [], obj):
            flatten(spec.CHILD_KIND[kind], c, o, n, out)


def verify(ctx, nodes, default, step):
    hit = False
    for n in nodes:
        o = n.obj
        d = dict(step=step, kind=n.kind)
        if n.kind in ('item', 'tier', 'igt'):
            # the way up
            up = n.parent
            while up is not None:
                ctx.check(getattr(o, up.kind) is up.obj,
                          'the object it belongs to', which=up.kind, **d)
                up = up.parent
        sc = n.scope()
        ctx.equal(dict(o.nsmap), sc, 'scope', **d)
        ctx.check(o.get_attribute('none-such', default) is default,
                  'default', **d)
        for inherit in (False, True):
            for name in NAMES:
                qs = [((name,), {}, name)]
                qs.append(((name,), dict(namespace=None), name))
                for p, u in sc.items():
                    q = '{%s}%s' % (u, name)
                    qs.append(((name,), dict(namespace=p), q))
                    if p:
                        qs.append((('%s:%s' % (p, name),), {}, q))
                for u in URIS:
                    q = '{%s}%s' % (u, name)
                    qs.append(((name,), dict(namespace=u), q))
                    qs.append(((q,), {}, q))
                for args, kw, key in qs:
                    want = n.lookup(key, default, inherit)
                    got = o.get_attribute(*args, default=default,
                                          inherit=inherit, **kw)
                    if got != want:
                        ctx.fail('get_attribute', got=got, want=want,
                                 args=args, kw=kw, inherit=inherit,
                                 scope=sc, own=n.attrs, **d)
                    if want is not default and (
                            key.startswith('{') or key not in n.attrs):
                        hit = True
    return hit


def check(case, ctx):
    s = copy.deepcopy(case['corpus'])
    xc = spec.build_corpus(s)
    nodes = []
    flatten('corpus', s, xc, None, nodes)
    hit = verify(ctx, nodes, case['default'], 'initially')
    for k, o in enumerate(case['ops']):
        n = nodes[o['n'] % len(nodes)]
        ctx.label(o['op'])
        if o['op'] == 'nsmap':
            n.nsmap = o['v']
            n.obj.nsmap = o['v']
        elif o['op'] == 'attr':
            key = o['key'] if o['uri'] is None \
                else '{%s}%s' % (o['uri'], o['key'])
            n.attrs[key] = n.obj.attributes[key] = o.get('val', 'new%d' % k)
        else:
            if n.parent is None:
                continue
            to = [m for m in nodes if m is not n.parent and not below(m, n)
                  and (m.kind in spec.HAS_MD if n.kind == 'metadata'
                       else spec.CHILD_KIND.get(m.kind) == n.kind)]
            if not to:
                continue
            m = to[o['to'] % len(to)]
            src = n.parent.obj.metadata if n.kind == 'metadata' \
                else n.parent.obj
            dst = m.obj.metadata if n.kind == 'metadata' else m.obj
            src.remove(n.obj)
            dst.append(n.obj)
            n.parent = m
            ctx.label('moved-' + n.kind)
        hit |= verify(ctx, nodes, case['default'],
                      'after step %d (%s)' % (k + 1, o))
    # an igt taken over by another corpus
    from xigt import XigtCorpus
    for n in [n for n in nodes if n.kind == 'igt'][:1]:
        other = N('corpus', {}, XigtCorpus(
            attributes={'k': 'elsewhere'}, nsmap={'a': 'urn:other'}), None)
        other.attrs['k'] = 'elsewhere'
        other.nsmap = {'a': 'urn:other'}
        n.parent.obj.remove(n.obj)
        other.obj.append(n.obj)
        n.parent = other
        hit |= verify(ctx, [m for m in nodes if below(m, n)] + [other],
                      case['default'], 'in another corpus')
    ctx.nontrivial(hit)


def below(m, n):
    while m is not None:
        if m is n:
            return True
        m = m.parent
    return False


SUBS = [Sub('lookup', cases, check, quick=250)]
