"""C38: separate uses do not influence each other."""
import base64
import os

from hypothesis import strategies as st

from vf import commands, files, gen, jobs, ling, spec
from vf.core import Sub
from vf.target import PKG
from xigt import ref, xigtpath
from xigt.codecs import xigtjson
from xigt.query import ancestors, descendants

ID = 'C38'
TECHNIQUE = ('differential testing of combined work (histories, alternating '
             'steps, threads under a generated schedule) against each piece '
             'of work done in a process of its own')
RULE = ('Cases are two to four pieces of work (saving, loading, paths, '
        'references, queries, validation, export, edits) on corpora of their '
        'own or, when they only read, on a common one, done one after '
        'another, step by step in turns, or in threads switched after '
        'generated numbers of lines; or two to four runs of the programs in '
        'one process; non-trivial = at least two pieces of work are not '
        'finished when another one goes on (turns, threads), or three are '
        'done (histories); all runs.')
ASSUMPTIONS = ['threads change corpora only if they do not share them',
               'threads are switched between lines (or bytecodes) of the '
               'code under test only']

CFG = gen.Cfg(xml=True, both=True, max_igts=3, max_tiers=2, max_items=2,
              max_md=3, max_metas=2, mc_depth=2)


def corpora():
    cfg = ling.LCfg(max_tiers=3, max_items=3, none_ids=False)
    return st.one_of(files.corpora(cfg=cfg, max_igts=3, min_igts=1),
                     gen.corpora(CFG), gen.corpora(CFG))


@st.composite
def work(draw, how):
    n = draw(st.sampled_from([2, 2, 3, 4]))
    if how == 'history':
        n += draw(st.integers(1, 4))
    shared = draw(st.integers(0, 3)) == 0
    pool = [draw(corpora()) for _ in range(draw(st.sampled_from([1, 2, 2])))]
    kinds = sorted(jobs.READING if shared else jobs.ALL)
    if not shared:
        kinds += ['lazily'] * 5
    if draw(st.booleans()):
        # the same work again, or few kinds of it
        kinds = draw(st.permutations(kinds))[:draw(
            st.sampled_from([1, 2]))]
    js = []
    for _ in range(n):
        js.append({
            'kind': draw(st.sampled_from(kinds)),
            'arg': draw(st.integers(0, 20)),
            'corpus': draw(st.integers(0, len(pool) - 1))})
    case = {'shared': shared, 'pool': pool, 'jobs': js}
    if how == 'turns':
        case['turns'] = draw(st.lists(st.integers(0, 3), min_size=1,
                                      max_size=12))
    elif how == 'threads':
        case['quanta'] = draw(st.lists(st.one_of(
            st.integers(1, 12), st.integers(1, 60), st.integers(1, 400)),
            min_size=1, max_size=8))
        case['fine'] = draw(st.integers(0, 5)) == 0
    return case


def place(case):
    """The corpus of each piece of work."""
    if case['shared']:
        cs = [spec.build_corpus(s) for s in case['pool']]
        return [cs[j['corpus']] for j in case['jobs']]
    return [spec.build_corpus(case['pool'][j['corpus']])
            for j in case['jobs']]


def history(case):
    cs = place(case)
    out = [jobs.alone(j, c) for j, c in zip(case['jobs'], cs)]
    return out, len(out) - 1


def turns(case):
    cs = place(case)
    return jobs.alternate(
        [jobs.work(j, c) for j, c in zip(case['jobs'], cs)], case['turns'])


def threads(case):
    cs = place(case)
    t = jobs.Threads(case['quanta'], case['fine'])
    out = t.run([lambda j=j, c=c: jobs.alone(j, c)
                 for j, c in zip(case['jobs'], cs)])
    return out, t.switches


def check(how):
    def run(case, ctx):
        state, got = jobs.pristine(lambda: how(case))
        ctx.check(state != 'died', 'the work does not finish')
        if state == 'error' and PKG not in got:
            raise RuntimeError(got)
        ctx.check(state == 'value', 'the work fails: %s' % (got,))
        results, steps = got
        ctx.nontrivial(steps >= 2)
        ctx.label('shared' if case['shared'] else 'own',
                  *['job=' + j['kind'] for j in case['jobs']])
        known = {}
        for k, j in enumerate(case['jobs']):
            key = tuple(sorted(j.items()))
            if key not in known:
                known[key] = jobs.pristine(lambda: jobs.alone(
                    j, spec.build_corpus(case['pool'][j['corpus']])))
            state, want = known[key]
            ctx.check(state == 'value', 'alone, the work fails: %s' % (want,),
                      job=j)
            r = results[k]
            if how is threads:
                ctx.check(r[0] == 'value', 'the work fails in a thread: %s'
                          % (r[1],), job=j)
                r = r[1]
            ctx.equal(r, want, 'the result is not what the same work alone '
                      'gives', job=j, number=k)
    return run


@st.composite
def runs(draw):
    only = draw(st.sampled_from([None, None, ['latex'], ['itsdb'], ['toolbox'],
                                 ['odin'], ['sort'], ['partition'], ['query'],
                                 ['validate'], ['latex', 'itsdb']]))
    return [draw(commands.runs(only, wrong=draw(st.integers(0, 3)) == 0))
            for _ in range(draw(st.integers(2, 4)))]


def perform(case, d):
    commands.write(case, d)
    r = commands.perform(case, d)
    r['files'] = {k: v if v is None else base64.b64encode(v).decode('ascii')
                  for k, v in commands.tree(d).items()}
    return r


def check_runs(case, ctx):
    top = ctx.tmpdir()

    def perform_all():
        return [perform(c, os.path.join(top, 'all%d' % k))
                for k, c in enumerate(case)]
    state, got = jobs.pristine(perform_all)
    ctx.check(state != 'died', 'the runs do not finish')
    if state == 'error':
        raise RuntimeError(got)
    for k, c in enumerate(case):
        ctx.label('run=' + c['what'])
        state, want = jobs.pristine(
            lambda: perform(c, os.path.join(top, 'one%d' % k)))
        ctx.check(state == 'value', 'alone, the run fails: %s' % (want,))
        ctx.equal(got[k], want, 'the run does something else after others',
                  number=k, args=c['args'])
    ctx.nontrivial()


# arguments and results ------------------------------------------------------

PLAIN = gen.Cfg(xml=False, max_igts=2, max_tiers=2, max_items=2, max_md=3,
                max_metas=2, mc_depth=2)


def build(kind, s, dicts, lists, made):
    """As spec.build, with the same dictionaries for the same part of s; what
    is given as arguments is recorded."""
    def one(what, d):
        return dicts.setdefault((id(s), what), dict(d))
    kw = dict(attributes=one('a', s.get('attrs') or {}),
              namespace=s.get('ns'),
              nsmap=None if s.get('nsmap') is None else one('n', s['nsmap']))
    if kind != 'mc':
        kw['id'], kw['type'] = s.get('id'), s.get('type')
    if kind in spec.HAS_MD:
        kw['metadata'] = [build('metadata', m, dicts, lists, made)
                          for m in s.get('metadata') or []]
        lists.append(kw['metadata'])
    if kind in spec.HAS_TEXT:
        kw['text'] = s.get('text')
    if kind != 'item':
        key = spec.KIND_CHILDREN[kind]
        kw[key] = [build(spec.CHILD_KIND[kind], c, dicts, lists, made)
                   for c in s.get(key) or []]
        lists.append(kw[key])
    if kind == 'mc':
        x = spec.MetaChild(s['name'], **kw)
        if s.get('id') is not None:
            x.id = s['id']
        if s.get('type') is not None:
            x.type = s['type']
    else:
        x = spec.CLASS[kind](**kw)
    made.append(x)
    return x


def spoil(x):
    """Change plain data in all its depth."""
    if isinstance(x, dict):
        for v in x.values():
            spoil(v)
        x['zzz'] = 'spoilt'
        for k in list(x)[::2]:
            del x[k]
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append('spoilt')
        x.reverse()


def meddle(c):
    for x in list(spec.walk_objects(c)):
        x.attributes['zzz'] = '1'
        x.namespace = 'urn:zzz'
        x.type = 'zzz'
        kind = spec.kind_of(x)
        if kind in spec.HAS_TEXT:
            x.text = 'zzz'
        if kind in spec.HAS_MD:
            x.metadata.append(spec.Metadata(type='zzz'))
        if kind == 'mc':
            x.name = 'zzz'
        elif kind == 'meta':
            x.children = list(x.children) + [spec.MetaChild('zzz')]
        elif kind != 'item':
            x.append(spec.CLASS[spec.CHILD_KIND[kind]]())


def check_containers(b, want, ctx):
    """Objects made from, or assigned, the containers of others."""
    for x in list(spec.walk_objects(b)):
        kind = spec.kind_of(x)
        if kind not in spec.HAS_MD:
            continue
        y = spec.CLASS[kind](metadata=x.metadata)
        z = spec.CLASS[kind]()
        z.metadata = x.metadata
        had = [id(m) for m in x.metadata]
        for o in (y, z):
            ctx.equal([id(m) for m in o.metadata], had,
                      'metadata taken from another object')
        for o in (y, z):
            o.metadata.append(spec.Metadata(type='zzz'))
            ctx.equal(len(o.metadata), len(had) + 1, 'metadata appended')
            ctx.equal([id(m) for m in x.metadata], had,
                      'the metadata of an object follow the changes of '
                      'another one that was given them')
            del o.metadata[0]
            o.metadata = []
            ctx.equal([id(m) for m in x.metadata], had,
                      'the metadata of an object follow the changes of '
                      'another one that was given them')
        # the parts are held by x again
        x.metadata = x.metadata
        ctx.equal([id(m) for m in x.metadata], had,
                  'metadata assigned to the object that has them')


def check_arguments(s, ctx):
    dicts, lists, made = {}, [], []
    a = build('corpus', s, dicts, lists, made)
    b = build('corpus', s, dicts, lists, [])
    want = spec.expect('corpus', s)
    ctx.equal(spec.snap(a), want, 'the first object')
    ctx.equal(spec.snap(b), want, 'an object made from the same arguments')
    for d in dicts.values():
        d['zzz'] = 'later'
    for xs in lists:
        xs.append(None)
        xs.reverse()
    ctx.equal(spec.snap(a), want, 'the object follows later changes of the '
              'arguments it was made from')
    for d in dicts.values():
        d.clear()
    for xs in lists:
        del xs[:]
    ctx.equal(spec.snap(a), want, 'the object follows later changes of the '
              'arguments it was made from')
    ctx.equal(spec.snap(b), want, 'the object follows later changes of the '
              'arguments it was made from')
    for x in made:
        kind = spec.kind_of(x)
        if kind not in ('item', 'meta', 'mc'):
            xs = getattr(x, spec.KIND_CHILDREN[kind])
            xs.append(None)
            xs.reverse()
    ctx.equal(spec.snap(a), want, 'the object follows changes of the lists '
              'it has returned')
    o = xigtjson.encode(a)
    spoil(o)
    ctx.equal(spec.snap(a), want, 'the object follows changes of what it was '
              'encoded as')
    meddle(a)
    ctx.equal(spec.snap(b), want, 'the object follows changes of another one '
              'made from the same arguments')
    if any(spec.kind_of(x) in spec.HAS_MD for x in made):
        check_containers(b, want, ctx)
    o = xigtjson.encode(b)
    was = jobs.settle(o)
    x, y = xigtjson.decode(o), xigtjson.decode(o)
    ctx.equal(o, was, 'decoding changes what is decoded')
    want = spec.snap(x)
    ctx.equal(spec.snap(y), want, 'decoding a second time')
    meddle(y)
    ctx.equal(o, was, 'changes of a decoded object reach what it was decoded '
              'from')
    ctx.equal(spec.snap(x), want, 'the object follows changes of another one '
              'decoded from the same data')
    spoil(o)
    ctx.equal(spec.snap(x), want, 'the object follows changes of what it was '
              'decoded from')
    ctx.nontrivial(len(made) > 2 and any(d for d in dicts))
    ctx.label(*spec.doc_labels(s))


# what has been returned -------------------------------------------------------

def asked(c):
    """Questions about a corpus and about expressions."""
    qs = []

    def add(label, call):
        qs.append((label, call))
    exprs = set(jobs.EXPRS)
    ras = ['alignment', 'segmentation', 'content']
    for g in c:
        for t in g:
            for x in [t] + t.items:
                for ra in ras:
                    e = x.attributes.get(ra)
                    if e is None:
                        continue
                    exprs.add(e)
                    add('dereference_all',
                        lambda x=x, ra=ra: ref.dereference_all(x, ra))
                add('ancestors', lambda x=x: list(ancestors(x)))
                add('descendants', lambda x=x: list(
                    descendants(x, follow='all')))
                add('explicit referents', lambda x=x: x.referents(ras))
                add('explicit referrers', lambda x=x: x.referrers(ras))
                if x.id is not None:
                    add('ref.referents', lambda g=g, i=x.id:
                        ref.referents(g, i))
                    add('ref.referrers', lambda g=g, i=x.id:
                        ref.referrers(g, i))
                for m in x.metadata if spec.kind_of(x) == 'tier' else []:
                    for y in m:
                        add('get_meta', lambda x=x, k=y.type: x.get_meta(k))
        add('select', lambda g=g: list(g.select(type=None)))
        add('tiers', lambda g=g: g.tiers)
        for m in g.metadata:
            for y in m:
                add('get_meta', lambda g=g, k=y.type: g.get_meta(k))
    for e in sorted(exprs):
        for f in (ref.ids, ref.selections, ref.spans, ref.expand,
                  ref.compress):
            add(f.__name__, lambda f=f, e=e: f(e))
    for path in jobs.PATHS:
        add('tokenize', lambda p=path: xigtpath.tokenize(p))
        add('findall', lambda p=path: xigtpath.findall(c, p))
    add('igts', lambda: c.igts)
    add('dumps', lambda: xigtjson.encode(c))
    return qs


def told(call):
    """The answer itself and a plain copy of it."""
    out = []

    def keep():
        out.append(call())
        return jobs.brief_all(out[0])
    return jobs.outcome(keep), (out or [None])[0]


def spoil_shallow(x):
    """Change the lists and dictionaries of an answer, not the objects of the
    corpus they have in them."""
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil_shallow(v)
        for k in list(x)[::2]:
            del x[k]
        x['zzz'] = ['spoilt']
    elif type(x) is tuple:
        for v in x:
            spoil_shallow(v)
    elif type(x) is list:
        for v in x:
            spoil_shallow(v)
        x.reverse()
        x.append('spoilt')
    elif hasattr(type(x), 'appendleft'):
        x.reverse()
        x.append('spoilt')


def check_results(s, ctx):
    c = spec.build_corpus(s)
    qs = asked(c)
    was = [told(call) for _, call in qs]
    full = 0
    for (want, x), (label, _) in zip(was, qs):
        if want[0] == 'value' and want[1]:
            full += 1
        if not (label == 'dumps'):
            spoil_shallow(x)
        else:
            spoil(x)
    for (want, _), (label, call) in zip(was, qs):
        ctx.equal(told(call)[0], want, 'the answer is another one once the '
                  'lists returned before have been changed', question=label)
    ctx.nontrivial(full > 40)


@st.composite
def asked_about(draw):
    cfg = ling.LCfg(max_tiers=4, max_items=3, none_ids=False)
    return draw(st.one_of(files.corpora(cfg=cfg, max_igts=2, min_igts=1),
                          gen.corpora(PLAIN)))


SUBS = [Sub('results', asked_about, check_results, quick=40),
        Sub('arguments', lambda: gen.corpora(PLAIN), check_arguments,
            quick=80),
        Sub('history', lambda: work('history'), check(history), quick=80),
        Sub('turns', lambda: work('turns'), check(turns), quick=60),
        Sub('threads', lambda: work('threads'), check(threads), quick=60),
        Sub('runs', runs, check_runs, quick=80)]
