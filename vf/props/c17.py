"""C17: metadata lookup returns the nearest matching metas."""
import copy

from hypothesis import strategies as st

from vf import spec
from vf.core import Sub
from xigt import Igt, Tier, XigtCorpus

ID = 'C17'
TECHNIQUE = 'reference model over generated metadata and queries'
RULE = ('Cases are corpora with metadata blocks of standard and other types at '
        'all levels and lookups with conditions, defaults and inheritance; '
        'results are compared by identity and order; non-trivial = a lookup '
        'finds two or more metas or inherits some.')
ASSUMPTIONS = ['conditions are predicates without side effects']

KEYS = ['author', 'language', 'date', '', None]
TEXTS = [None, '', 'x', 'y']


def metas():
    return st.lists(st.fixed_dictionaries({
        'type': st.sampled_from(KEYS), 'text': st.sampled_from(TEXTS),
        'attrs': st.sampled_from([{}, {'lang': 'x'}, {'lang': 'y'}]),
    }), max_size=4)


def mds():
    return st.lists(st.fixed_dictionaries({
        'type': st.sampled_from(['xigt-meta', 'xigt-meta', 'xigt-meta',
                                 'other', None, 'Xigt-meta', 'xigt-meta2']),
        'metas': metas()}), max_size=3)


@st.composite
def cases(draw):
    tiers = lambda: [{'id': 't%d' % k, 'metadata': draw(mds())}
                     for k in range(draw(st.integers(0, 2)))]
    return {
        'corpus': {'metadata': draw(mds()), 'igts': [
            {'id': 'i%d' % k, 'metadata': draw(mds()), 'tiers': tiers()}
            for k in range(draw(st.integers(0, 2)))]},
        'how': draw(st.sampled_from(['in', 'in', 'given', 'transient'])),
        'alone': draw(st.sampled_from([None, 'igt', 'tier'])),
        'conds': draw(st.lists(st.tuples(
            st.sampled_from(['text', 'lang', 'notext']),
            st.sampled_from(['x', 'y', ''])).map(list), max_size=2)),
        'default': draw(st.sampled_from([None, 'dflt'])),
    }


def cond(c):
    what, v = c
    if what == 'text':
        return lambda m: m.text == v
    if what == 'notext':
        return lambda m: m.text is None
    return lambda m: m.attributes.get('lang') == v


def scond(c):
    what, v = c
    if what == 'text':
        return lambda m: m['text'] == v
    if what == 'notext':
        return lambda m: m['text'] is None
    return lambda m: m['attrs'].get('lang') == v


def own(chain_entry, key, conds):
    s, o = chain_entry
    out = []
    for ms, m in zip(s.get('metadata') or [], list.__iter__(o.metadata)):
        if ms['type'] != 'xigt-meta':
            continue
        for x, y in zip(ms['metas'], list.__iter__(m)):
            if x['type'] == key and all(scond(c)(x) for c in conds):
                out.append(y)
    return out


def check(case, ctx):
    s = copy.deepcopy(case['corpus'])
    how = case.get('how', 'in')
    ctx.label(how)
    if how == 'in':
        xc = spec.build_corpus(s)
        igts = list(xc)
    elif how == 'transient':
        # the corpus does not hold its igts
        igts = []
        xc = XigtCorpus(mode='transient', metadata=spec.build_corpus(s)
                        .metadata, igts=iter(spec.build_corpus(s)))
        for g in xc:
            igts.append(g)
    else:
        # parents that are given, but hold nothing
        xc = XigtCorpus(metadata=spec.build_corpus(s).metadata)
        igts = []
        for g in spec.build_corpus(s):
            igts.append(Igt(id=g.id, metadata=g.metadata, corpus=xc))
    chains = [[(s, xc)]]
    for gs, g in zip(s['igts'], igts):
        chains.append([(gs, g), (s, xc)])
        tiers = g if how != 'given' else [
            Tier(id=t.id, metadata=t.metadata, igt=g)
            for t in spec.build('igt', gs)]
        for ts, t in zip(gs['tiers'], tiers):
            chains.append([(ts, t), (gs, g), (s, xc)])
    if case['alone'] == 'igt' and s['igts']:
        g = spec.build('igt', s['igts'][0])
        chains.append([(s['igts'][0], g)])
        for ts, t in zip(s['igts'][0]['tiers'], g):
            chains.append([(ts, t), (s['igts'][0], g)])
    if case['alone'] == 'tier' and s['igts'] and s['igts'][0]['tiers']:
        ts = s['igts'][0]['tiers'][0]
        chains.append([(ts, spec.build('tier', ts))])
    hit = False
    default = object() if case['default'] else None
    for chain in chains:
        o = chain[0][1]
        for key in KEYS + ['none-such']:
            for conds in ([], case['conds']):
                for inherit in (True, False):
                    want = default
                    for n, e in enumerate(chain[:None if inherit else 1]):
                        found = own(e, key, conds)
                        if found:
                            want = found
                            hit |= n > 0 or len(found) > 1
                            break
                    kw = dict(default=default, inherit=inherit)
                    if conds:
                        kw['conditions'] = [cond(c) for c in conds]
                    got = o.get_meta(key, **kw)
                    ok = (got is default if want is default else
                          isinstance(got, list) and len(got) == len(want)
                          and all(a is b for a, b in zip(got, want)))
                    if not ok:
                        ctx.fail('get_meta', key=key, conds=conds,
                                 inherit=inherit, level=len(chain),
                                 got=got, want=want)
        got = o.get_meta('author')
        want = next((f for f in (own(e, 'author', []) for e in chain) if f),
                    None)
        ctx.check((got is None) == (want is None) and (
            got is None or [id(x) for x in got] == [id(x) for x in want]),
            'get_meta, default arguments', got=got, want=want)
    ctx.nontrivial(hit)


SUBS = [Sub('lookup', cases, check, quick=500)]
