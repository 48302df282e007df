"""XigtPaths as data: generator, renderer and reference evaluator.

path  = {'abs': None|'/'|'//', 'steps': [[sep, step], ...]}  (sep of the first
        step is ''); step = {'t': kind, ..., 'preds': [pred, ...]}
pred  = {'path': path, 'op': None|'='|'!=', 'lit': str}
"""
from hypothesis import strategies as st

from vf import gen, ling, spec

NSMAP = {'dc': 'http://purl.org/dc/elements/1.1/', 'olac': 'urn:olac',
         'x': 'urn:x', 'x2': 'urn:x2'}
MC_NAMES = ['subject', 'language', 'note-1', 'a.b', 'text', 'ü']
ATTRS = ['state', 'tag', 'line.no', 'x-1', 'value', 'alignment']
TYPES = ['words', 'glosses', 'xigt-meta', 'a b', 'x"y', 'a/b[1]']
TEXTS = ['dog', '', 'a b', 'x"y\\', 'DOG-NOM', '[@id="x"]', 'é', 'a\nbc']


# corpora ---------------------------------------------------------------

def _dress(draw, s, kind):
    """Namespaces and attributes."""
    if kind not in ('corpus', 'metadata') and draw(st.integers(0, 4)) == 0:
        s['ns'] = draw(st.sampled_from(sorted(NSMAP.values())))
    a = s.setdefault('attrs', {})
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        n = draw(st.sampled_from(ATTRS[:-1] + ['id', 'name', 'type']))
        u = draw(st.sampled_from([None, None] + sorted(NSMAP.values())))
        if u is None and n in ('id', 'type'):
            continue
        a[n if u is None else '{%s}%s' % (u, n)] = \
            draw(st.sampled_from(TYPES + TEXTS))
    if kind != 'mc' and draw(st.integers(0, 2)) == 0:
        s['type'] = draw(st.sampled_from(TYPES))


def _mc(draw, depth):
    s = {'name': draw(st.sampled_from(MC_NAMES))}
    _dress(draw, s, 'mc')
    if draw(st.booleans()):
        s['text'] = draw(st.sampled_from(TEXTS))
    if depth:
        s['children'] = [_mc(draw, depth - 1)
                         for _ in range(draw(st.integers(0, 2)))]
    return s


def _mds(draw):
    out = []
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        md = {'metas': []}
        _dress(draw, md, 'metadata')
        for _ in range(draw(st.integers(0, 2))):
            m = {'children': [_mc(draw, 1)
                              for _ in range(draw(st.integers(0, 2)))]}
            _dress(draw, m, 'meta')
            if draw(st.booleans()):
                m['text'] = draw(st.sampled_from(TEXTS))
            md['metas'].append(m)
        out.append(md)
    return out


@st.composite
def corpora(draw, dangling=False):
    cfg = ling.LCfg(max_tiers=3, max_items=3, min_tiers=1, none_ids=dangling,
                    dangling=dangling, refs='any' if dangling else 'acyclic',
                    text=st.sampled_from(TEXTS))
    s = {'id': 'c', 'nsmap': dict(NSMAP), 'metadata': _mds(draw), 'igts': []}
    _dress(draw, s, 'corpus')
    for k in range(draw(st.sampled_from([1, 2, 2, 1, 0]))):
        g = draw(ling.igts(cfg))
        g['id'] = 'i%d' % (k + 1)
        _dress(draw, g, 'igt')
        g['metadata'] = _mds(draw)
        for t in g['tiers']:
            _dress(draw, t, 'tier')
            t['metadata'] = _mds(draw) if draw(st.integers(0, 3)) == 0 else []
            for x in t['items']:
                _dress(draw, x, 'item')
        s['igts'].append(g)
    return s


# paths -----------------------------------------------------------------
# Generated along the nodes they find in the corpus at hand (by the reference
# evaluator), so that most of them find something.

LITS = st.one_of(
    st.sampled_from(TYPES + TEXTS + ['words', 'glosses', 'words', 'tier',
                                     'i1', 't0', 'w1', 'dog', 'p', 'subject']),
    st.sampled_from(['=', '!=', ' = "', ']', '[', '"', '\\', '\\"', '//',
                     '(a|b)', ',', '@', "'", '\n', '.', '..', ' dog',
                     'a,b', '/', 'text()']),
    gen.any_text(4))
URI_PREFIX = {u: p for p, u in NSMAP.items()}


DOT = {'abs': None, 'steps': [['', {'t': '.', 'preds': []}]]}


class Gen:
    def __init__(self, draw, preds, values):
        self.draw, self.preds, self.values = draw, preds, values

    def chance(self, num, den):
        return self.draw(st.integers(0, den - 1)) < num

    def pick(self, xs):
        return self.draw(st.sampled_from(list(xs)))

    def path(self, nodes, depth=2, max_steps=6, relative=False):
        """(path, nodes it finds from any of the nodes)"""
        path = {'abs': None, 'steps': []}
        if self.chance(1, 2) and not relative or self.chance(1, 5):
            path['abs'] = self.pick(['/', '//', '//'])
            nodes = [nodes[0].root()]
        n = self.pick([x for x in (2, 3, 1, 4) * 3 + (6,) if x <= max_steps])
        for k in range(n):
            sep = self.pick(['/', '/', '/', '//']) if k else ''
            desc = sep == '//' or (k == 0 and path['abs'] == '//')
            if not nodes and self.chance(4, 5):
                break
            step, nodes = self.step(nodes, desc, depth, k == n - 1)
            path['steps'].append([sep, step])
            if any(isinstance(x, str) for x in nodes) or \
                    step['t'] in ('attr', 'text', 'value'):
                break
        return path, nodes

    def nodetest(self, cands, desc):
        if cands and not self.chance(1, 10):
            c = self.pick(cands[:12] + cands[-3:])
            name = c.s['name'] if c.kind == 'mc' else c.kind
            prefix = None
            if c.s.get('ns') in URI_PREFIX and self.chance(1, 2):
                prefix = URI_PREFIX[c.s['ns']]
            elif self.chance(1, 20):
                prefix = self.pick(sorted(NSMAP))
            if not desc and self.chance(1, 5):
                name = '*'
            if name == 'corpus':
                name = 'igt'
            return name, prefix
        return (self.pick(['igt', 'tier', 'item', 'meta', 'metadata',
                           'nosuch'] + MC_NAMES[:2]),
                self.pick([None, None] + sorted(NSMAP)))

    def step(self, nodes, desc, depth, last):
        S = {n.kind for n in nodes}
        if desc:
            opts = ['desc']
        elif self.chance(1, 12):
            # anything goes, mostly to find nothing
            opts = ['child', '.', '..', 'attr']
            if S <= {'tier', 'item'}:
                opts += ['referent', 'referrer']
            if 'metadata' not in S:
                opts.append('text')
            if self.values:
                opts.append('value')
        else:
            opts = ['.']
            if any(n.md or n.kids for n in nodes):
                opts += ['child'] * (6 if last else 10)
            if any(n.parent for n in nodes):
                opts += ['..']
            if S and S <= {'tier', 'item'}:
                opts += ['referent', 'referrer'] * 2
            if depth > 0 and (nodes or self.chance(1, 2)):
                opts += ['group'] * 2
            if last:
                opts += ['attr'] * (4 if any(n.attrs() or n.s.get('type')
                                             for n in nodes) else 1)
                if 'metadata' not in S and any(
                        n.s.get('text') is not None for n in nodes):
                    opts += ['text'] * 4
                if self.values and 'item' in S:
                    opts += ['value'] * 4
        step = {'t': self.pick(opts), 'preds': []}
        t = step['t']
        if t == 'child':
            step['name'], step['prefix'] = self.nodetest(
                [c for n in nodes for c in n.md + n.kids], False)
        elif t == 'desc':
            step['name'], step['prefix'] = self.nodetest(
                [c for n in nodes for c in n.walk()], True)
        elif t == 'attr':
            have = [(k, n) for n in nodes for k in n.attrs()
                    if k[0] != '{' or k[1:].split('}')[0] in URI_PREFIX]
            if have and self.chance(2, 3):
                k, n = self.pick(have[:12])
                step['prefix'], step['name'] = None, k
                if k.startswith('{'):
                    u, k = k[1:].split('}')
                    step['prefix'], step['name'] = URI_PREFIX[u], k
                if self.chance(1, 8):
                    step['name'] = '*'
            else:
                step['name'] = self.pick(['id', 'type', 'type', 'name', '*']
                                         + ATTRS)
                step['prefix'] = self.pick([None] * 5 + sorted(NSMAP))
        elif t in ('referent', 'referrer'):
            step['args'] = self.pick(
                [None, None, None, ['alignment'], ['segmentation'],
                 ['content', 'segmentation'], ['segmentation', 'alignment'],
                 ['alignment', 'content', 'segmentation'], ['nosuch']])
        elif t == 'group':
            step['alts'] = [
                self.path(nodes, depth - 1, 2)[0] if nodes else
                self.pick([DOT, {'abs': None, 'steps': [['', {
                    't': 'group', 'alts': [DOT, DOT], 'preds': []}]]}])
                for _ in range(self.draw(st.integers(1, 3)))]
        found = [m for n in nodes for m in one(n, step)]
        if self.preds and depth > 0:
            for _ in range(self.pick([0, 1, 1, 2])):
                if not found and not self.chance(1, 8):
                    break
                for _try in range(3):
                    pr = self.predicate(found, depth - 1)
                    kept = [n for n in found if holds(n, pr)]
                    if kept or self.chance(1, 5):
                        break
                step['preds'].append(pr)
                found = kept
        return step, found

    def predicate(self, nodes, depth):
        if not nodes or any(isinstance(n, str) for n in nodes):
            p = {'abs': None, 'steps': [['', {'t': '.', 'preds': []}]]}
            vals = [n for n in nodes if isinstance(n, str)]
            op = self.pick(['=', '!=', None])
        else:
            p, found = self.path(nodes, depth, 2, relative=True)
            vals = [v for v in found if isinstance(v, str)]
            op = self.pick(['=', '=', '!=', None])
            if not vals and self.chance(9, 10):
                op = None       # nodes are never equal to a literal
        lit = None
        if op:
            lit = self.pick(vals[:8]) if vals and self.chance(4, 5) \
                else self.draw(LITS)
        return {'path': p, 'op': op, 'lit': lit}


# rendering ---------------------------------------------------------------

def quote(s):
    # any character may follow a backslash, which then stands for itself
    more = len(s) % 3 == 1
    return '"%s"' % ''.join(
        '\\' + c if c in '\\"' or more and not c.isalnum() else c for c in s)


def tokens(path):
    out = []
    if path['abs']:
        out.append(path['abs'])
    for sep, step in path['steps']:
        if sep:
            out.append(sep)
        t = step['t']
        if t in ('child', 'desc'):
            out.append(qname(step))
        elif t == 'attr':
            out += ['@', qname(step)]
        elif t in ('text', 'value'):
            out += [t, '(', ')']
        elif t in ('referent', 'referrer'):
            out += [t, '(']
            for k, a in enumerate(step['args'] or []):
                if k:
                    out.append(',')
                out.append(quote(a))
            out.append(')')
        elif t == 'group':
            out.append('(')
            for k, p in enumerate(step['alts']):
                if k:
                    out.append('|')
                out += tokens(p)
            out.append(')')
        else:
            out.append(t)
        for pr in step['preds']:
            out.append('[')
            out += tokens(pr['path'])
            if pr['op']:
                out += [pr['op'], quote(pr['lit'])]
            out.append(']')
    return out


def qname(step):
    return (step['prefix'] + ':' if step.get('prefix') else '') + step['name']


def render(path, spaces=()):
    toks = tokens(path)
    sp = list(spaces)
    out = []
    for k, t in enumerate(toks):
        if sp:
            out.append(sp[k % len(sp)])
        out.append(t)
    return ''.join(out)


# reference evaluation -----------------------------------------------------

class Node:
    def __init__(self, kind, s, obj, parent):
        self.kind, self.s, self.obj, self.parent = kind, s, obj, parent
        self.md = []
        self.kids = []
        if kind in spec.HAS_MD:
            ms = s.get('metadata') or []
            self.md = [Node('metadata', m, o, self) for m, o in
                       zip(ms, list.__iter__(obj.metadata) if obj is not None
                           else [None] * len(ms))]
        if kind != 'item':
            ms = s.get(spec.KIND_CHILDREN[kind]) or []
            self.kids = [Node(spec.CHILD_KIND[kind], m, o, self) for m, o in
                         zip(ms, list.__iter__(obj) if obj is not None
                             else [None] * len(ms))]

    def walk(self):
        yield self
        for c in self.md + self.kids:
            yield from c.walk()

    def igt(self):
        n = self
        while n.kind != 'igt':
            n = n.parent
        return n

    def root(self):
        n = self
        while n.parent:
            n = n.parent
        return n

    def attrs(self):
        return self.s.get('attrs') or {}


def evaluate(nodes, path):
    if path['abs']:
        nodes = [nodes[0].root()] if nodes else []
    for k, (sep, step) in enumerate(path['steps']):
        out = []
        for n in nodes:
            out.extend(one(n, step))
        for pr in step['preds']:
            out = [n for n in out if holds(n, pr)]
        nodes = out
    return nodes


def ns_ok(n, step):
    return (not step.get('prefix')
            or n.s.get('ns') == NSMAP[step['prefix']])


def name_ok(n, name):
    return n.s['name'] == name if n.kind == 'mc' else n.kind == name


def one(n, step):
    t = step['t']
    if t == '.':
        return [n]
    if t == '..':
        return [n.parent] if n.parent else []
    if t == 'child':
        return [c for c in n.md + n.kids if ns_ok(c, step)
                and (step['name'] == '*' or name_ok(c, step['name']))]
    if t == 'desc':
        return [c for c in n.walk() if ns_ok(c, step)
                and name_ok(c, step['name'])]
    if t == 'attr':
        a, name = n.attrs(), step['name']
        if step['prefix']:
            u = '{%s}' % NSMAP[step['prefix']]
            if name == '*':
                return [v for k, v in a.items() if k.startswith(u)]
            return [a[u + name]] if u + name in a else []
        if name == '*':
            return list(a.values())
        v = None
        if name in ('id', 'type') or (name == 'name' and n.kind == 'mc'):
            v = n.s.get(name)
        if v is None:
            v = a.get(name)
        return [v] if v is not None else []
    if t == 'text':
        if n.kind == 'metadata':
            raise TypeError('not specified')
        v = n.s.get('text')
        return [v] if v is not None else []
    if t == 'value':
        if n.kind != 'item':
            return []
        v = ling.value(n.igt().s, n.parent.s, n.s)
        return [v] if v is not None else []
    if t in ('referent', 'referrer'):
        if n.kind not in ('tier', 'item'):
            raise TypeError('not specified')
        peers = [p for p in n.igt().walk() if p.kind == n.kind]
        ras = step['args'] or ['alignment', 'content', 'segmentation']
        out = []
        for ra in sorted(ras):
            if t == 'referent':
                for i in ling.word_ids(n.attrs().get(ra, '')):
                    out += [p for p in peers if p.s.get('id') == i][:1]
            elif n.s.get('id') is not None:
                out += [p for p in peers if p.s.get('id') is not None
                        and n.s['id'] in
                        ling.word_ids(p.attrs().get(ra, ''))]
        return out
    if t == 'group':
        out = []
        for p in step['alts']:
            out += evaluate([n], p)
        return out
    raise AssertionError(t)


def holds(n, pr):
    if isinstance(n, str):
        if [x['t'] for _, x in pr['path']['steps']] != ['.']:
            raise TypeError('not specified')
        found = [n]
    else:
        found = evaluate([n], pr['path'])
    if pr['op'] is None:
        return bool(found)
    vals = [v for v in found if isinstance(v, str)]
    if pr['op'] == '=':
        return pr['lit'] in vals
    return pr['lit'] not in vals


def used(path, out=None):
    """Labels of the constructs in a path."""
    out = set() if out is None else out
    if path['abs']:
        out.add('abs' + path['abs'])
    for sep, step in path['steps']:
        out.add(step['t'])
        if step.get('prefix'):
            out.add('prefix')
        if step.get('name') == '*':
            out.add('*')
        for p in step.get('alts') or []:
            used(p, out)
        for pr in step['preds']:
            out.add('pred' + (pr['op'] or ''))
            sub = used(pr['path'])
            out |= {'in-pred-' + u for u in sub if not u.startswith('in-')}
    return out


@st.composite
def cases(draw, preds):
    dangling = draw(st.integers(0, 3)) == 0
    s = draw(corpora(dangling))
    nodes = list(Node('corpus', s, None, None).walk())
    start = draw(st.one_of(st.just(0), st.integers(0, len(nodes) - 1),
                           st.integers(0, len(nodes) - 1)))
    g = Gen(draw, preds, not dangling)
    ps = [g.path([nodes[start]])[0]
          for _ in range(draw(st.integers(1, 4)))]
    return {'corpus': s, 'start': start, 'paths': ps,
            'spaces': draw(st.lists(st.sampled_from(['', '', ' ', '  ',
                                                     '\t', '\n']),
                                    max_size=7))}


def check(case, ctx, preds):
    from xigt import xigtpath
    xc = spec.build_corpus(case['corpus'])
    root = Node('corpus', case['corpus'], xc, None)
    nodes = list(root.walk())
    # same order as spec.walk
    start = nodes[case['start'] % len(nodes)]
    before = spec.snap(xc)
    ident = [id(o) for o in spec.walk_objects(xc)]
    nontrivial = False
    for path in case['paths']:
        want = [n if isinstance(n, str) else n.obj
                for n in evaluate([start], path)]
        for text in [render(path)] + (
                [render(path, case['spaces'])] if any(case['spaces'])
                else []):
            d = dict(path=text, start=start.kind)
            for name, got in (
                    ('findall', xigtpath.findall(start.obj, text)),
                    ('iterfind', list(xigtpath.iterfind(start.obj, text)))):
                if not same(got, want):
                    ctx.fail(name + ' returns the wrong nodes',
                             got=show(got), want=show(want), **d)
            got = xigtpath.find(start.obj, text)
            if not same([got] if got is not None else [], want[:1]):
                ctx.fail('find is not the first of findall', got=show([got]),
                         want=show(want[:1]), **d)
        labels = used(path)
        ctx.label(*labels)
        ctx.label('hit' if want else 'miss')
        if want and (any(l.startswith('pred') for l in labels) if preds
                     else len(path['steps']) > 1 or 'desc' in labels):
            nontrivial = True
    ctx.equal(spec.snap(xc), before, 'a query changed the corpus')
    ctx.equal([id(o) for o in spec.walk_objects(xc)], ident,
              'a query replaced objects')
    ctx.nontrivial(nontrivial)


def same(a, b):
    return len(a) == len(b) and all(
        (x == y and type(y) is str) if isinstance(x, str) else x is y
        for x, y in zip(a, b))


def show(xs):
    out = []
    for x in xs:
        if x is None or isinstance(x, str):
            out.append(x)
        else:
            out.append('<%s %s>' % (type(x).__name__,
                                    getattr(x, 'name', None) or x.id))
    return out
