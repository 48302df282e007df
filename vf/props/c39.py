"""C39: reading and showing objects works in any state and changes nothing."""
import copy
import io

from hypothesis import strategies as st

from vf import algn, files, gen, jobs, ling, spec, xpath
from vf.core import Sub
from vf.props import c34
from xigt import ref, xigtpath
from xigt.codecs import xigtjson, xigtxml

ID = 'C39'
TECHNIQUE = ('invariants (nothing changes, the same again) over generated '
             'objects in any state and sequences of reading operations')
RULE = ('Cases are corpora or parts of them, attached or not, with '
        'references that are well-formed, dangling, undeclared, circular or '
        'malformed, and a list of reading operations on their objects; or '
        'documents being loaded lazily; non-trivial = some reference cannot '
        'be resolved, or (reading) three or more operations gave a value.')
ASSUMPTIONS = ['an operation that refuses the state of an object may raise '
               'an error, but not change anything']

CFG = ling.LCfg(max_tiers=4, max_items=3, refs='any', dangling=True,
                none_ids=True)


def corpora():
    return st.one_of(
        st.lists(ling.igts(CFG), min_size=1, max_size=2).map(
            lambda gs: {'id': 'c', 'igts': [
                dict(g, id='i%d' % k) for k, g in enumerate(gs)]}),
        files.corpora(max_igts=3, min_igts=1),
        gen.corpora(gen.Cfg(False, max_igts=2)))


@st.composite
def wild(draw):
    """A corpus whose references are in any state."""
    s = copy.deepcopy(draw(corpora()))
    nodes = [(k, x) for k, x in spec.walk('corpus', s)
             if k in ('tier', 'item')]
    for _ in range(draw(st.integers(0, 4)) if nodes else 0):
        k, x = nodes[draw(st.integers(0, len(nodes) - 1))]
        a = x.setdefault('attrs', {})
        ids = [y['id'] for _, y in nodes if y.get('id')] + ['nope']
        ra = draw(st.sampled_from(['content', 'alignment', 'segmentation']))
        how = draw(st.sampled_from(['any', 'none', 'own', 'bad']))
        if how == 'none':
            a.pop(ra, None)
        elif how == 'own':
            a[ra] = x.get('id') or 'nope'
        elif how == 'bad':
            # (what XML can hold)
            v = draw(st.one_of(c34.damaged(), st.sampled_from(
                ['', ' ', '[[', 'a[', '1', ',', 'a1[0:9', 'é', '+'])))
            a[ra] = ''.join(c for c in v if c >= ' ')
        else:
            a[ra] = draw(algn.asts(st.sampled_from(ids), max_sel=2,
                                   max_spans=2).map(algn.render))
        if k == 'item' and draw(st.booleans()):
            x.pop('text', None)
        if sum(r in a for r in ('content', 'alignment')) and \
                'segmentation' in a:
            # not allowed together
            del a['segmentation']
    return s


n = st.integers(0, 60)
OPS = ['show', 'sizes', 'lists', 'get', 'attr', 'scope', 'meta', 'equal',
       'value', 'span', 'resolve', 'referents', 'referrers', 'any', 'allowed',
       'deref', 'path', 'kin', 'job', 'up']


def read_cases():
    return st.fixed_dictionaries({
        'corpus': wild(),
        'part': st.one_of(st.just(0), st.just(0), n),
        'ops': st.lists(st.tuples(st.sampled_from(OPS), n, n).map(list),
                        min_size=1, max_size=8),
        'after': st.lists(st.tuples(st.sampled_from(
            ['nsmap', 'nsmap', 'attr', 'ref', 'text', 'drop', 'rename',
             'refresh']), n, n).map(list), max_size=3),
    })


def place(case):
    """The object to start with: the corpus, or a part without it."""
    specs = [(k, x) for k, x in spec.walk('corpus', case['corpus'])]
    return spec.build(*specs[case['part'] % len(specs)])


def ids_of(o, objs):
    return [x.id for x in objs if x.id is not None] + ['nope', 'a.b']


RAS = [None, ['content', 'segmentation'], ['alignment'], [], ['dep']]
TYPES = ['words', 'glosses', None]


def perform(op, a, o, objs):
    """Something plain that the operation gives for the object o."""
    kind = spec.kind_of(o)
    ids = ids_of(o, objs)
    i = ids[a % len(ids)]
    ra = ['content', 'segmentation', 'alignment', 'dep'][a % 4]
    has = lambda m: hasattr(type(o), m)
    if op == 'show':
        return [repr(o), str(o), '%s' % [o], '{!r}'.format(o)]
    if op == 'sizes' and kind != 'item':
        return [len(o), o == o, o in objs]
    if op == 'lists' and kind != 'item':
        return [[jobs.name(x) for x in o],
                [jobs.name(x) for x in getattr(o, spec.KIND_CHILDREN[kind])],
                [jobs.name(x) for x in o[:]], [jobs.name(x)
                                               for x in reversed(o)],
                [jobs.name(x) for x in o.select(type=TYPES[a % 3])]]
    if op == 'get' and kind != 'item':
        return [jobs.name(o.get(i)), jobs.name(o.get(a - 5)),
                jobs.outcome(lambda: jobs.name(o[i])),
                jobs.outcome(lambda: jobs.name(o[a - 5])),
                jobs.outcome(lambda: jobs.name(o[str(a - 5)]))]
    if op == 'attr':
        keys = sorted(o.attributes) + ['n', 'type', 'a:b', 'olac:code']
        return [o.get_attribute(keys[a % len(keys)], inherit=bool(a % 2)),
                o.get_attribute(i, 'dflt'), dict(o.attributes)]
    if op == 'scope':
        return [dict(o.nsmap), o.namespace, o.id, o.type]
    if op == 'meta' and has('get_meta'):
        return [jobs.brief(o.get_meta(k, inherit=bool(a % 2)))
                for k in ('language', 'author', 'nosuch')]
    if op == 'equal':
        x = objs[a % len(objs)]
        return [o == x, o != x, x == o, o == None, o == 1]
    if op == 'value' and kind == 'item':
        k = RAS[a % len(RAS)]
        return [o.value(), o.get_content(),
                o.value(refattrs=k) if k else None]
    if op == 'span' and kind == 'item':
        return [o.span(0, a), o.span(a, -1), o.span(-1, None)]
    if op == 'resolve':
        if kind == 'item':
            return o.resolve_ref(ra)
        if kind == 'tier':
            return ref.resolve(o, i)
    if op == 'referents':
        if kind == 'igt':
            return [o.referents(i), ref.referents(o, i)]
        if kind in ('tier', 'item'):
            return [o.referents(RAS[a % len(RAS)])]
    if op == 'referrers':
        if kind == 'igt':
            return [o.referrers(i), ref.referrers(o, i)]
        if kind in ('tier', 'item'):
            return [o.referrers(RAS[a % len(RAS)])]
    if op == 'any' and kind == 'igt':
        return [jobs.name(o.get_any(i)), jobs.name(o.get_item(i))]
    if op == 'allowed' and has('allowed_reference_attributes'):
        return sorted(o.allowed_reference_attributes())
    if op == 'deref' and kind in ('tier', 'item'):
        return [jobs.name(ref.dereference(o, ra)),
                [jobs.name(x) for x in ref.dereference_all(o, ra)]]
    if op == 'path':
        p = jobs.PATHS + ['.', '..', '*', '@*', 'referent()', 'value()',
                          'text()', '../..//item', 'referrer("alignment")']
        return jobs.brief(xigtpath.findall(o, p[a % len(p)]))
    if op == 'kin' and kind == 'igt' or op == 'job' and kind == 'corpus':
        fs = sorted(jobs.READING)
        f = 'kin' if kind == 'igt' else fs[a % len(fs)]
        return jobs.finish(jobs.READING[f]([o] if f == 'kin' and
                                           kind == 'igt' else o, a))
    if op == 'up':
        return [jobs.name(getattr(o, k, None))
                for k in ('corpus', 'igt', 'tier')]
    return None


def later(root, objs, after):
    """What comes of some edits and of reading again."""
    out = []
    for how, at, x in after:
        o = objs[at % len(objs)]
        kind = spec.kind_of(o)
        if how == 'nsmap':
            o.nsmap = [None, {}, {'zz': 'urn:zz'}, {'olac': 'urn:b'}][x % 4]
        elif how == 'attr':
            o.attributes['n'] = str(x)
        elif how == 'ref' and kind in ('tier', 'item'):
            o.attributes['content'] = ids_of(o, objs)[x % (len(objs) // 2 + 1)
                                                      - 1]
        elif how == 'text' and kind in spec.HAS_TEXT:
            o.text = [None, 'new'][x % 2]
        elif how == 'drop' and kind != 'item' and len(o):
            o.pop(x % len(o))
        elif how == 'rename':
            o.type = 't%d' % x
        elif how == 'refresh' and kind == 'igt':
            o.refresh_indices(tiers=bool(x % 2))
    out.append(spec.snap(root))
    for o in objs:
        kind = spec.kind_of(o)
        # apart from what is around them, too
        out.append([dict(o.nsmap), o.get_attribute('n', inherit=True)])
        if kind in ('igt', 'tier', 'item'):
            for op in ('up', 'value', 'referents', 'referrers', 'any',
                       'meta'):
                for a in (0, 2):
                    out.append([op, jobs.outcome(
                        lambda: perform(op, a, o, objs))])
    if spec.kind_of(root) == 'corpus':
        out.append(jobs.outcome(lambda: xigtxml.dumps(root)))
        out.append(jobs.outcome(lambda: xigtjson.dumps(root)))
        root.clear()
        out.append([[jobs.name(o), dict(o.nsmap)] for o in objs[1:]])
    return out


def check_read(case, ctx):
    root = place(case)
    objs = list(spec.walk_objects(root))
    before = spec.snap(root)
    gave = 0
    for k, (op, at, a) in enumerate(case['ops']):
        o = objs[at % len(objs)]
        one = jobs.outcome(lambda: perform(op, a, o, objs))
        d = dict(op=[op, at, a], step=k, of=spec.kind_of(o))
        ctx.equal(spec.snap(root), before, 'reading changed something', **d)
        now = list(spec.walk_objects(root))
        ctx.check(len(now) == len(objs) and all(
            x is y for x, y in zip(now, objs)), 'other objects', **d)
        two = jobs.outcome(lambda: perform(op, a, o, objs))
        ctx.equal(two, one, 'not the same again', **d)
        gave += one[0] == 'value' and one[1] is not None
        ctx.label(op + (' error' if one[0] == 'error' else ''))
    # all of it as for an object that was never read
    fresh = place(case)
    ctx.equal(spec.snap(root), spec.snap(fresh), 'changed in the end')
    ctx.check(root == fresh, 'no longer equal to what was not read')
    # and it goes on as such an object
    # (that has not even been looked at)
    fresh = place(case)
    fresh_objs = list(spec.walk_objects(fresh))
    ctx.equal(later(root, objs, case['after']),
              later(fresh, fresh_objs, case['after']),
              'later use shows what was read before', after=case['after'])
    ctx.nontrivial(gave > 2)


def broken(o):
    return jobs.outcome(o.value)[0] == 'error'


def check_show(case, ctx):
    root = place(case)
    objs = list(spec.walk_objects(root))
    before = spec.snap(root)
    bad = False
    for o in objs:
        d = dict(of=spec.kind_of(o), id=o.id)
        for how, s in (('repr', repr(o)), ('str', str(o)),
                       ('format', '{}'.format(o))):
            ctx.check(isinstance(s, str), 'not a string', how=how, **d)
            ctx.check(type(o).__name__ in s, 'kind not shown', how=how,
                      got=s, **d)
            what = o.name if d['of'] == 'mc' else o.id
            ctx.check(what is None or what in s, 'id not shown', how=how,
                      got=s, **d)
            if d['of'] == 'item':
                if broken(o):
                    bad = True
                elif o.value():
                    ctx.check(o.value() in s, 'value not shown', got=s, **d)
        ctx.check(repr([o]) == '[%r]' % o, 'repr of a list', **d)
    ctx.equal(spec.snap(root), before, 'showing changed something')
    ctx.label('broken' if bad else 'sound')
    ctx.nontrivial(bad)


def show_cases():
    return st.fixed_dictionaries({
        'corpus': wild(), 'part': st.one_of(st.just(0), st.just(0), n)})


def lazy_cases():
    return st.fixed_dictionaries({
        'corpus': files.corpora(min_igts=1),
        'format': st.sampled_from(['xml', 'xml', 'json']),
        'mode': st.sampled_from(['incremental', 'transient', 'full']),
        'shown': st.lists(st.booleans(), min_size=1, max_size=6)})


def check_lazy(case, ctx):
    """Showing a corpus and what it gave does not load or lose anything."""
    s = case['corpus']
    c = spec.build_corpus(s)
    if case['format'] == 'xml':
        stream = io.BytesIO(xigtxml.dumps(c).encode('utf-8'))
        x = xigtxml.load(stream, mode=case['mode'])
    else:
        stream = io.StringIO(xigtjson.dumps(c))
        x = xigtjson.load(stream, mode=case['mode'])
    want = [spec.snap(g) for g in (
        xigtxml.loads(xigtxml.dumps(c)) if case['format'] == 'xml'
        else xigtjson.loads(xigtjson.dumps(c)))]
    shown = case['shown']

    def look(k, objs):
        if not shown[k % len(shown)]:
            return
        at = None if stream.closed else stream.tell()
        size = len(x)
        for o in [x] + objs:
            ctx.check(type(o).__name__ in repr(o), 'kind not shown')
            str(o)
        ctx.equal(None if stream.closed else stream.tell(), at,
                  'showing reads the document')
        ctx.equal(len(x), size, 'showing loads igts')
    look(0, [])
    got = []
    for g in x:
        look(1, list(spec.walk_objects(g)))
        got.append(spec.snap(g))
        look(2, [g])
    look(3, [])
    ctx.equal(got, want, 'igts of the document', mode=case['mode'])
    ctx.nontrivial(any(shown) and len(got) > 1)


SUBS = [Sub('show', show_cases, check_show, quick=300),
        Sub('read', read_cases, check_read, quick=500),
        Sub('lazy', lazy_cases, check_lazy, quick=150)]
