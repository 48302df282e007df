"""C32: test-suite export writes one correct row per igt."""
import copy
import json
import os
import sys

from hypothesis import strategies as st

from vf import cli, files, gen, ling, spec
from vf.core import Sub

sys.path.append(os.path.join(os.path.dirname(os.path.dirname(__file__)),
                             'stubs'))

ID = 'C32'
TECHNIQUE = ('generated corpora and cell configurations, the rows handed to a '
             'recording profile writer compared with a reference')
RULE = ('Cases are corpora with phrases and words (own or referenced texts), '
        'cell configurations, numbering and ways to name the relations file, '
        'exported directly or by the command, once or twice; non-trivial = '
        'at least two igts and two cells, or the default cell on an igt with '
        'phrases or words.')
ASSUMPTIONS = ['the writer of test suites is replaced by a recorder, as it is '
               'not installed', 'cell expressions have no side effects']

TEXT = st.one_of(st.sampled_from(['', ' ', 'dog', 'a  b', '日本', '@', '0']),
                 gen.xml_text(4))


def first(g, type):
    for t in g['tiers']:
        if t.get('type') == type:
            return t
    return None


def value(g, t, x):
    return ling.value(g, t, x)


def texts(g, type):
    t = first(g, type)
    return [] if t is None else [value(g, t, x) for x in t['items']]


def default(g):
    p = texts(g, 'phrases')[:1]
    if p and p[0]:
        return p[0]
    return ' '.join(v or '' for v in texts(g, 'words'))


def nmetas(c, g, key):
    for x in (g, c):
        n = sum(m.get('type') == key for md in x.get('metadata') or []
                if md.get('type') == 'xigt-meta' for m in md['metas'])
        if n:
            return n
    return 0


# expression -> what it means
EXPRS = [
    ('igt.id', lambda c, g, k: g.get('id')),
    ('len(igt)', lambda c, g, k: len(g['tiers'])),
    (' "x" ', lambda c, g, k: 'x'),
    ("'y' + str(len(igt.tiers))", lambda c, g, k: 'y%d' % len(g['tiers'])),
    ('igt.attributes.get("n")', lambda c, g, k: (g.get('attrs') or {}).get('n')),
    ('[t.id for t in igt]', lambda c, g, k: [t['id'] for t in g['tiers']]),
    ('1 if igt.get_meta("judgment") else 0',
     lambda c, g, k: int(nmetas(c, g, 'judgment') > 0)),
    ('0 if igt.get_meta("judgment") else 1',
     lambda c, g, k: int(nmetas(c, g, 'judgment') == 0)),
    ('len(next(igt.select(type="words"), []))',
     lambda c, g, k: len(texts(g, 'words'))),
    ('"+".join(i.value() or "" for i in next(igt.select(type="phrases"), []))',
     lambda c, g, k: '+'.join(v or '' for v in texts(g, 'phrases'))),
    ('[i.value() for i in next(igt.select(type="words"), [])]',
     lambda c, g, k: texts(g, 'words')),
    ('(lambda x: x.type)(igt)', lambda c, g, k: g.get('type')),
    ('igt.corpus.id', lambda c, g, k: c.get('id')),
    ('None', lambda c, g, k: None),
]


@st.composite
def igt(draw, k):
    g = {'id': draw(st.sampled_from(['i%d' % k, None, 'x%d' % k]))}
    if draw(st.booleans()):
        g['type'] = draw(st.sampled_from(['a', 'b']))
    if draw(st.booleans()):
        g['attrs'] = {'n': draw(TEXT)}
    if draw(st.integers(0, 2)) == 0:
        g['metadata'] = [judgment(draw)]
    tiers = []
    for j in range(draw(st.sampled_from([2, 3, 1, 0, 4]))):
        t = {'id': 't%d' % j, 'type': draw(st.sampled_from(
            ['phrases', 'words', 'words', 'phrases', 'raw', 'glosses']))}
        target = None
        if j and draw(st.booleans()):
            target = tiers[draw(st.integers(0, j - 1))]
            t['attrs'] = {'segmentation': target['id']}
        t['items'] = []
        for m in range(draw(st.sampled_from([2, 1, 3, 0]))):
            x = {'id': 't%dx%d' % (j, m)}
            if target and target['items'] and draw(st.booleans()):
                y = draw(st.sampled_from(target['items']))['id']
                x['attrs'] = {'segmentation': y + draw(st.sampled_from(
                    ['', '[0:2]', '[1:3,0:1]']))}
            elif draw(st.integers(0, 4)):
                x['text'] = draw(TEXT)
            t['items'].append(x)
        tiers.append(t)
    g['tiers'] = tiers
    return g


def judgment(draw):
    return {'type': draw(st.sampled_from(['xigt-meta', 'xigt-meta', 'odin'])),
            'metas': [{'type': draw(st.sampled_from(['judgment', 'source'])),
                       'text': '*'}]}


@st.composite
def cases(draw):
    c = {'igts': [draw(igt(k)) for k in
                  range(draw(st.sampled_from([2, 3, 1, 4, 0])))]}
    if draw(st.booleans()):
        c['id'] = 'c'
    if draw(st.integers(0, 3)) == 0:
        c['metadata'] = [judgment(draw)]
    via = draw(st.sampled_from(['api', 'file', 'cli']))
    if via != 'api':
        for g in c['igts']:
            for t in g['tiers']:
                for x in t['items']:
                    if x.get('text') == '':
                        del x['text']
    config = draw(st.sampled_from([{}, {}, {}, None]))
    if config is not None:
        config = {}
        if draw(st.integers(0, 2)):
            config['i-id_start'] = draw(st.sampled_from([0, 1, 10, 5, -3, 99]))
        if draw(st.integers(0, 2)):
            config['i-id_skip'] = draw(st.sampled_from([10, 1, 2, -1, 0, 7]))
        if draw(st.integers(0, 2)):
            config['cells'] = [
                [name, draw(st.integers(0, len(EXPRS) - 1))]
                for name in draw(st.permutations(
                    ['i-input', 'i-wf', 'i-origin', 'i-comment', 'a'])
                )[:draw(st.sampled_from([2, 3, 1, 0, 4]))]]
    bad = draw(st.integers(0, 19)) == 0
    return {'corpus': c, 'via': via, 'config': config,
            'mode': draw(st.sampled_from(['transient', 'full', 'incremental'])),
            'relations': draw(st.sampled_from(
                ['given', 'given', 'given', 'given', 'given', 'missing',
                 'empty', 'directory', 'none', 'env', 'env-missing',
                 'given-env', 'missing-env'])),
            'twice': draw(st.booleans()), 'bad': bad}


def check_export(case, ctx):
    import xigt.exporters.itsdb as exporter
    from delphin import itsdb
    from xigt.codecs import xigtxml
    c, via = case['corpus'], case['via']
    d = ctx.tmpdir()
    rel = case['relations']
    path = os.path.join(d, 'Relations')
    with open(path, 'w') as f:
        f.write('item:\n  i-id :integer :key\n')
    root = os.path.join(d, 'root')
    env = os.path.join(root, 'lingo/lkb/src/tsdb/skeletons/english')
    os.makedirs(env)
    env = os.path.join(env, 'Relations')
    if rel in ('env', 'given-env', 'missing-env'):
        with open(env, 'w') as f:
            f.write('x')
    config = copy.deepcopy(case['config'])
    cells = None
    bad = bool(case['bad'] and config and config.get('cells')
               and rel in ('given', 'given-env', 'env') and c['igts'])
    if config is not None:
        if 'cells' in config:
            cells = config['cells']
            config['cells'] = [[k, EXPRS[e][0]] for k, e in cells]
            if via == 'api':
                config['cells'] = [tuple(x) for x in config['cells']]
        if bad:
            config['cells'][-1] = ('i-bad', 'igt igt')
    value_ = {'given': path, 'given-env': path, 'empty': '', 'directory': d,
              'missing': os.path.join(d, 'no'),
              'missing-env': os.path.join(d, 'no')}
    used = None
    if rel in value_:
        if config is None:
            config = {}
        config['relations'] = value_[rel]
    if rel in ('given', 'given-env'):
        used = path
    elif rel == 'env':
        used = env
    out = os.path.join(d, 'out')
    xml = os.path.join(d, 'in.xml')
    cfg = os.path.join(d, 'config.json')
    if via != 'api':
        files.write(xml, c)
    if via == 'cli':
        from xigt.scripts import xigt_export
        with open(cfg, 'w') as f:
            json.dump(config, f)
        xc = None
    elif via == 'api':
        xc = spec.build_corpus(c)
    else:
        xc = xigtxml.load(xml, mode=case['mode'])
    before = copy.deepcopy(config)
    snap = spec.snap(xc) if via == 'api' else None
    again = case['twice'] and not (
        via == 'file' and case['mode'] == 'transient')
    saved = os.environ.get('LOGONROOT')
    os.environ.pop('LOGONROOT', None)
    if rel in ('env', 'env-missing', 'given-env', 'missing-env'):
        os.environ['LOGONROOT'] = root
    itsdb.calls[:] = []
    try:
        for _ in range(2 if again else 1):
            if via == 'cli':
                args = ['-i', xml, '-o', out, '-f', 'itsdb']
                if config is not None:
                    args += ['-c', cfg]
                call = lambda: cli.run(xigt_export.main, args)
            else:
                call = lambda: exporter.xigt_export(xc, out, config)
            if bad:
                ctx.raises(SyntaxError, call, 'malformed expression')
            else:
                call()
    finally:
        os.environ.pop('LOGONROOT', None)
        if saved is not None:
            os.environ['LOGONROOT'] = saved
    calls = itsdb.calls[:]
    if config != before:
        ctx.fail('the configuration is changed', got=config, want=before)
    if via == 'api':
        ctx.equal(spec.snap(xc), snap, 'the corpus changed')
    if os.path.exists(out):
        ctx.fail('something is written besides the test suite')
    ctx.label('relations:' + rel, 'via:' + via)
    if bad:
        ctx.label('malformed')
        return
    if used is None:
        ctx.equal(calls, [], 'nothing is written without relations')
        return
    want = []
    start = (case['config'] or {}).get('i-id_start', 0)
    skip = (case['config'] or {}).get('i-id_skip', 10)
    for k, g in enumerate(c['igts']):
        row = {'i-id': start + k * skip}
        if cells is None:
            row['i-input'] = default(g)
        else:
            for key, e in cells:
                row[key] = EXPRS[e][1](c, g, k)
        want.append(row)
    n = 2 if again else 1
    ctx.equal(len(calls), n, 'number of test suites written')
    for p, r, rows in calls:
        ctx.equal(p, out, 'path of the test suite')
        ctx.equal(os.path.realpath(r), os.path.realpath(used),
                  'relations file')
        got = [dict(row) for row in rows]
        ctx.equal(got, want, 'rows')
    if cells is None:
        ctx.label('default cells')
        ctx.nontrivial(any(first(g, 'phrases') or first(g, 'words')
                           for g in c['igts']))
    else:
        ctx.nontrivial(len(want) > 1 and len(cells) > 1)


SUBS = [Sub('rows', cases, check_export, 350)]
