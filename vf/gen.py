"""Generators of document-shaped corpus specs (see spec.py)."""
import copy

from hypothesis import strategies as st

URIS = ['http://example.org/a', 'http://example.org/b#',
        'http://purl.org/dc/elements/1.1/',
        'http://www.language-archives.org/OLAC/1.1/',
        'http://www.w3.org/2001/XMLSchema-instance', 'urn:x:y']
PREFIXES = ['a', 'b', 'dc', 'olac', 'xsi', 'p-1', 'ns0', 'x.y']
XML_NS = 'http://www.w3.org/XML/1998/namespace'

ID_TAIL = 'abz09AZ-._'
ATTR_KEYS = ['doc-id', 'line-range', 'state', 'tag', 'judgment', 'n', 'x.y',
             '_z', 'é', 'lang', 'name', 'text', 'namespace', 'alignment',
             'content', 'segmentation']
MC_NAMES = ['subject', 'language', 'x', 'a.b', '_u-1', 'é', '日本', 'name']
# names the format also uses for its own elements
MC_RESERVED = ['igt', 'tier', 'item', 'meta', 'metadata', 'xigt-corpus']
TYPES = ['words', 'morphemes', 'xigt-meta', 'odin', 'a b', '', 'ñ', '<&">',
         'x-y_z']

INTERESTING = [
    '', ' ', '\n', ' \n ', 'a', 'dog', ' a', 'a ', '\na\n', 'a\n\n  b',
    'a\tb', '<b>', '&amp;', ']]>', '<!-- x -->', '"q"', "'", 'é', '日本語',
    'e\u0301', '\u00a0', '\u2028', '\u0085', '\U0001F600', '\u200f\u05d0',
    '{x}', '$ref', '\\n', 'a:b', '0', 'null', 'x' * 70, '\ufeff', '\x7f',
    '\r', 'a\rb', '\r\n', 'a\r\n b',
]
# (mapped, as text() would otherwise take the union of the characters of the
# alternatives and choose evenly from it)
XML_CHARS = st.one_of(
    st.sampled_from('ab \n\r\t<>&"\'é日'),
    st.characters(min_codepoint=0x20, max_codepoint=0x10FFFF,
                  exclude_categories=('Cs',),
                  exclude_characters='\ufffe\uffff'),
).map(str)
ANY_CHARS = st.one_of(
    st.sampled_from('ab \r\n\t<>&"\'\\/\x00\x1f\ufffeé日'),
    st.characters(exclude_categories=('Cs',)),
).map(str)


def xml_text(max_size=8):
    return st.one_of(st.sampled_from(INTERESTING),
                     st.text(XML_CHARS, max_size=max_size))


def any_text(max_size=8):
    return st.one_of(st.sampled_from(INTERESTING + ['\r', 'a\r\nb', '\x00']),
                     st.text(ANY_CHARS, max_size=max_size))


# code points that are no characters (low ones, so that no two make a pair)
RAW_TEXT = st.one_of(
    any_text(), any_text(), any_text(),
    st.text(st.one_of(ANY_CHARS,
                      st.sampled_from('\udc80\udfff\udc00').map(str)),
            max_size=5))


def ids(unicode_tail=True):
    tail = ID_TAIL + ('éя²' if unicode_tail else '')
    return st.builds(
        lambda h, t: h + t, st.sampled_from('abixyzAZ'),
        st.text(st.sampled_from(tail), max_size=4))


class Cfg:
    def __init__(self, xml, max_igts=3, max_tiers=3, max_items=4, max_md=2,
                 max_metas=2, max_mc=2, mc_depth=3, both=False,
                 reserved_mc=True, default_ns=True, types=None, prefixes=None,
                 loose=False, raw=False):
        self.raw = raw              # texts may hold lone surrogates
        self.loose = loose          # declarations may hide the outer ones
        self.xml = xml              # restrict to what XML can express
        self.both = both            # ... and what JSON can express
        self.max_igts, self.max_tiers = max_igts, max_tiers
        self.max_items, self.max_md = max_items, max_md
        self.max_metas, self.max_mc = max_metas, max_mc
        self.mc_depth = mc_depth
        self.default_ns = default_ns
        self.prefixes = prefixes or PREFIXES
        self.uris = URIS
        self.p_ns = 4
        self.mc_names = MC_NAMES + (MC_RESERVED if reserved_mc else [])
        self.text = xml_text() if xml else RAW_TEXT if raw else any_text()
        self.meta_text = self.text
        self.attr_text = self.text
        self.types = st.sampled_from(types or TYPES)


def _maybe(draw, p, strategy, default=None):
    """draw strategy with probability about 1/p"""
    if draw(st.integers(0, p - 1)) == p - 1:
        return draw(strategy)
    return default


def _count(draw, m):
    return draw(st.sampled_from(list(range(1, m + 1)) + [0]))


def _unique_ids(draw, n):
    """n ids or Nones, without duplicates"""
    out, seen = [], set()
    for i in range(n):
        k = draw(st.integers(0, 5))
        if k == 0:
            out.append(None)
            continue
        v = draw(ids()) if k == 1 else '%s%d' % ('itwm'[k - 2], i + 1)
        if v in seen:
            v = v + str(i)
        if v in seen:
            v = None
        out.append(v)
        seen.add(v)
    return out


def _common(draw, cfg, scope, kind, can_ns):
    s = {}
    t = _maybe(draw, 3, cfg.types)
    if t is not None:
        s['type'] = t
    # namespace declarations
    if draw(st.integers(0, cfg.p_ns if kind != 'corpus' else 1)) == 0:
        new = {}
        for _ in range(draw(st.integers(1, 2))):
            new[draw(st.sampled_from(cfg.prefixes))] = draw(
                st.sampled_from(cfg.uris))
        if can_ns and cfg.default_ns and draw(st.integers(0, 2)) == 0:
            new[''] = draw(st.sampled_from(cfg.uris))
        if not (cfg.loose and draw(st.booleans())):
            new = dict(scope, **new)
        scope = new
        s['nsmap'] = dict(scope)
    # attributes
    n = draw(st.integers(0, 3))
    attrs = {}
    for _ in range(n):
        uris = [XML_NS] + sorted({u for p, u in scope.items() if p})
        if draw(st.integers(0, 2)) == 0:
            u = draw(st.sampled_from(uris if cfg.xml else uris + URIS))
            key = '{%s}%s' % (u, draw(st.sampled_from(
                ['lang', 'code', 'x-1', 'id', 'type'] +
                (['b:c', ':', 'a:'] if cfg.raw else []))))
        else:
            key = draw(st.sampled_from(ATTR_KEYS))
        attrs[key] = draw(cfg.attr_text)
    if attrs:
        s['attrs'] = attrs
    if can_ns:
        uris = sorted(set(scope.values()))
        if scope.get('') and (cfg.xml or draw(st.booleans())):
            # (in XML, the default namespace applies to all elements)
            s['ns'] = draw(st.sampled_from(uris))
        elif uris and draw(st.booleans()):
            s['ns'] = draw(st.sampled_from(uris))
    elif not cfg.xml and not cfg.both and draw(st.integers(0, 5)) == 0:
        s['ns'] = draw(st.sampled_from(sorted(set(scope.values())) or URIS))
    return s, scope


def _mc(draw, cfg, scope, depth):
    s, scope = _common(draw, cfg, scope, 'mc', True)
    if cfg.xml and 'type' in s:
        # meta children take no type (or id) of their own: XML attributes
        # with these names are ordinary attributes of theirs
        s.setdefault('attrs', {})['type'] = s.pop('type')
    s['name'] = draw(st.sampled_from(cfg.mc_names))
    t = _maybe(draw, 2, cfg.meta_text)
    if t is not None:
        s['text'] = t
    if depth > 0:
        n = draw(st.integers(0, cfg.max_mc))
        if n:
            s['children'] = _mcs(draw, cfg, scope, depth - 1, n)
    return s


def _mcs(draw, cfg, scope, depth, n):
    xs = []
    for i in _unique_ids(draw, n):
        x = _mc(draw, cfg, scope, depth)
        if i is not None and cfg.xml:
            x.setdefault('attrs', {})['id'] = i
        elif i is not None:
            x['id'] = i
        xs.append(x)
    return xs


def _metadata(draw, cfg, scope):
    s, scope = _common(draw, cfg, scope, 'metadata', False)
    metas = []
    for i in _unique_ids(draw, _count(draw, cfg.max_metas)):
        m, mscope = _common(draw, cfg, scope, 'meta', False)
        if i is not None:
            m['id'] = i
        t = _maybe(draw, 2, cfg.meta_text)
        if t is not None:
            m['text'] = t
        n = draw(st.integers(0, cfg.max_mc))
        if n:
            m['children'] = _mcs(draw, cfg, mscope, cfg.mc_depth - 1, n)
        metas.append(m)
    s['metas'] = metas
    return s


def _metadatas(draw, cfg, scope):
    n = draw(st.integers(0, cfg.max_md + 2)) - 2
    out = []
    for i in _unique_ids(draw, max(n, 0)):
        m = _metadata(draw, cfg, scope)
        if i is not None:
            m['id'] = i
        out.append(m)
    return out


KIDS = ('igts', 'tiers', 'items', 'metadata', 'metas', 'children')


def _nodes(s):
    yield s
    for key in KIDS:
        for c in s.get(key) or []:
            yield from _nodes(c)


def _repeat(xs, n):
    """xs again and again up to n of them, with ids of their own."""
    out = []
    used = {x.get('id') for x in xs}
    for k in range(n):
        x = copy.deepcopy(xs[k % len(xs)])
        if k >= len(xs) and x.get('id') is not None:
            i = x['id'] + '.%d' % k
            while i in used:
                i += 'x'
            used.add(i)
            x['id'] = i
        out.append(x)
    return out


def enlarge(draw, s):
    """Make some part of the spec large."""
    nodes = list(_nodes(s))
    how = draw(st.sampled_from(['many', 'many', 'many', 'deep', 'text',
                                'attr', 'attrs', 'id']))
    pick = draw(st.integers(0, 1000))
    if how == 'many':
        n = draw(st.sampled_from([11, 12, 17, 33, 101]))
        # deeper lists are as likely as those at the top
        key = draw(st.sampled_from(KIDS))
        lists = [(x, k) for x in nodes for k in KIDS if x.get(k)]
        lists = [l for l in lists if l[1] == key] or lists
        if lists:
            x, k = lists[pick % len(lists)]
            if len(list(_nodes(x))) * n > 4000:
                n = 11
            x[k] = _repeat(x[k], n)
    elif how == 'deep':
        kids = [x for x in nodes if 'name' in x]
        if kids:
            x = kids[pick % len(kids)]
            for _ in range(draw(st.sampled_from([6, 12, 40]))):
                y = {k: x[k] for k in ('name', 'text', 'ns') if k in x}
                x.setdefault('children', []).append(y)
                x = y
    elif how == 'text':
        ts = [x for x in nodes if (x.get('text') or '').strip()]
        if ts:
            x = ts[pick % len(ts)]
            n = draw(st.sampled_from([300, 5000, 70000]))
            x['text'] = (x['text'] * n)[:n] + x['text']
    elif how == 'attr':
        ts = [x for x in nodes if x.get('attrs')]
        if ts:
            a = ts[pick % len(ts)]['attrs']
            k = sorted(a)[pick % len(a)]
            n = draw(st.sampled_from([300, 5000, 70000]))
            a[k] = (a[k] * n)[:n] + a[k]
    elif how == 'attrs':
        a = nodes[pick % len(nodes)].setdefault('attrs', {})
        for k in range(draw(st.sampled_from([10, 26, 60]))):
            a['at%d' % k] = str(k)
    elif how == 'id':
        ts = [x for x in nodes if x.get('id')]
        if ts:
            x = ts[pick % len(ts)]
            x['id'] = x['id'] + 'z' * draw(st.sampled_from([40, 300]))


@st.composite
def corpora(draw, cfg):
    s = draw(_corpora(cfg))
    if draw(st.integers(0, 11)) == 11:
        enlarge(draw, s)
    return s


@st.composite
def _corpora(draw, cfg):
    style = draw(st.integers(0, 2))
    if style:
        # few namespaces, declared again and again
        cfg = copy.copy(cfg)
        cfg.prefixes = draw(st.permutations(cfg.prefixes))[:style]
        cfg.uris = draw(st.permutations(URIS))[:draw(st.sampled_from([1, 2]))]
        cfg.p_ns = draw(st.sampled_from([1, 2, 4]))
    s, scope = _common(draw, cfg, {}, 'corpus', False)
    i = _maybe(draw, 2, ids())
    if i is not None:
        s['id'] = i
    s['metadata'] = _metadatas(draw, cfg, scope)
    s['igts'] = []
    for gid in _unique_ids(draw, _count(draw, cfg.max_igts)):
        g, gscope = _common(draw, cfg, scope, 'igt', False)
        if gid is not None:
            g['id'] = gid
        g['metadata'] = _metadatas(draw, cfg, gscope)
        g['tiers'] = []
        for tid in _unique_ids(draw, _count(draw, cfg.max_tiers)):
            t, tscope = _common(draw, cfg, gscope, 'tier', False)
            if tid is not None:
                t['id'] = tid
            t['metadata'] = _metadatas(draw, cfg, tscope)
            t['items'] = []
            for iid in _unique_ids(draw, _count(draw, cfg.max_items)):
                x, _ = _common(draw, cfg, tscope, 'item', False)
                if iid is not None:
                    x['id'] = iid
                v = _maybe(draw, 2, cfg.text) if draw(st.booleans()) \
                    else draw(cfg.text)
                if v is not None:
                    x['text'] = v
                t['items'].append(x)
            g['tiers'].append(t)
        s['igts'].append(g)
    return s
