"""C26: partitioning distributes every igt to exactly one file."""
import os

from hypothesis import strategies as st

from vf import cli, files, spec, xpath
from vf.core import Sub
from vf.props.c25 import A, C, P, S, lang

ID = 'C26'
TECHNIQUE = ('reference model (grouping by independently computed keys) over '
             'generated sets of files; the command runs on real files')
RULE = ('Cases are one to three corpus files, a key path, a default key and '
        'sometimes an output directory that exists already; every output '
        'file is read back; non-trivial = igts of two or more keys, or of '
        'two or more files under one key.')
ASSUMPTIONS = ['ids of igts are unique over all files (one output may hold '
               'all of them)', 'keys are short enough for file names']

PATHS = [P(A('doc-id')), lang(), P(A('id')), P(A('type')), P(A('n')),
         P(C('tier'), A('type')), P(C('tier'), C('item'), S('text')),
         P(S('..'), A('id')), P(A('nosuch')),
         {'abs': None, 'steps': [['', C('metadata')],
                                 ['//', S('desc', name='subject',
                                          prefix='dc')],
                                 ['/', A('code', 'olac')]]}]
KEYS = ['a:b', 'a/b', 'a-b', 'jpn', 'jpn-2', '---', '', 'a', 'A', '-', ':',
        'a-b-2', 'a-b-3', 'a-b-4', 'é', 'x y', '..', '.', 'a.xml', '*', 'a:b:2']

CLASH = ['a:b', 'a/b', 'a-b', 'a-b-2', 'a-b-3', 'a-b-4', 'a:b:2', 'a:b-2']


NSMAPS = st.sampled_from([xpath.NSMAP, dict(xpath.NSMAP, y='urn:y'),
                          dict(xpath.NSMAP, x='urn:other')])


@st.composite
def cases(draw):
    fs = []
    nsmaps = draw(st.integers(0, 3)) == 0
    clash = draw(st.integers(0, 4)) == 0
    for k in range(draw(st.sampled_from([1, 2, 3]))):
        s = draw(files.corpora(['f%di%d' % (k, j) for j in range(6)],
                               max_igts=6, nsmap=draw(NSMAPS) if nsmaps
                               else None))
        for g in s['igts']:
            a = g['attrs']
            v = draw(st.sampled_from([None, None] + KEYS + KEYS[:6]))
            a.pop('doc-id', None)
            if clash:
                v = draw(st.sampled_from(CLASH))
            if v is not None:
                a['doc-id'] = v
        fs.append(s)
    return {
        'files': fs,
        'path': draw(st.sampled_from(PATHS + PATHS[:1] * 5)),
        'default': draw(st.sampled_from([None, None, None, 'a:b', '---',
                                         'none', 'jpn', ''])),
        'exists': draw(st.sampled_from(['no'] * 14 + [
            'empty', 'full', 'file'])),
        # files of one name in different directories, in any order
        'dirs': draw(st.sampled_from(['', '', '', 'cba', 'bac', 'abc'])),
        'v': draw(st.sampled_from([[], [], ['-v'], ['-vv']])),
    }


def tree(d):
    out = {}
    for root, dirs, fns in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d)] = None
        for x in fns:
            with open(os.path.join(root, x), 'rb') as f:
                out[os.path.relpath(os.path.join(root, x), d)] = f.read()
    return out


def strip_scope(x):
    return {k: ([strip_scope(y) for y in v]
                if k in ('metadata', 'children') else v)
            for k, v in x.items() if k != 'scope'}


def scopes(x):
    out = [x['scope']]
    for c in x.get('metadata', []) + x.get('children', []):
        out += scopes(c)
    return out


def check(case, ctx):
    from xigt.codecs import xigtxml
    from xigt.scripts import xigt_partition
    d = ctx.tmpdir()
    outdir = os.path.join(d, 'out')
    names = []
    groups = {}
    default = '---' if case['default'] is None else case['default']
    for k, s in enumerate(case['files']):
        sub = case.get('dirs', '')[k:k + 1]
        names.append(os.path.join(d, sub and 'd' + sub,
                                  'f%d.xml' % (0 if sub else k)))
        os.makedirs(os.path.dirname(names[-1]), exist_ok=True)
        files.write(names[-1], s)
        snap = files.expect(s)
        for node, igt in zip(xpath.Node('corpus', s, None, None).kids,
                             snap['children']):
            found = xpath.evaluate([node], case['path'])
            key = found[0] if found else default
            groups.setdefault(key, []).append((k, igt))
    if case['exists'] in ('empty', 'full'):
        os.mkdir(outdir)
    if case['exists'] == 'full':
        with open(os.path.join(outdir, '---.xml'), 'w') as f:
            f.write('precious')
    if case['exists'] == 'file':
        with open(outdir, 'w') as f:
            f.write('precious')
    before = tree(d)
    args = list(case['v']) + ['--key-path', xpath.render(case['path'])]
    if case['default'] is not None:
        args += ['--default-key=' + case['default']]
    status, out = cli.run(xigt_partition.main, args + [outdir] + names)
    after = tree(d)
    if case['exists'] != 'no':
        ctx.label('refused')
        ctx.check(status not in (0, None), 'no refusal', status=status)
        ctx.equal(after, before, 'something changed in spite of the refusal')
        return
    ctx.equal(status, 0, 'exit status', out=out)
    ctx.check(all(after.get(k) == v for k, v in before.items()),
              'an input changed')
    made = {k[4:]: v for k, v in after.items() if k not in before
            and k != 'out'}
    ctx.check(all(k.endswith('.xml') and v is not None and '/' not in k
                  for k, v in made.items()),
              'unexpected files', made=sorted(made))
    ctx.equal(len(made), len(groups), 'number of partitions',
              made=sorted(made), keys=sorted(groups))
    got = {fn: spec.snap(xigtxml.load(os.path.join(outdir, fn)))
           for fn in made}
    plain = [k.replace(':', '-').replace('/', '-') for k in groups]
    taken = set()
    for key, members in groups.items():
        want = [strip_scope(m) for _, m in members]
        name = key.replace(':', '-').replace('/', '-')
        if plain.count(name) == 1 and not any(
                plain.count(p) > 1 and name.startswith(p) for p in plain):
            cands = [name + '.xml']
            ctx.check(cands[0] in got, 'no file for the key', key=key,
                      made=sorted(made))
        else:
            ctx.label('clashing names')
            cands = sorted(got)
        hits = [fn for fn in cands if fn not in taken and
                [strip_scope(c) for c in got[fn]['children']] == want]
        if not hits:
            ctx.fail('no file holds exactly the igts of a key', key=key,
                     want=want, got={fn: got[fn]['children']
                                     for fn in cands})
        taken.add(hits[0])
        for (k, m), c in zip(members, got[hits[0]]['children']):
            for a, b in zip(scopes(m), scopes(c)):
                ctx.check(all(b.get(p) == u for p, u in a.items()),
                          'a prefix lost its meaning', key=key, had=a, has=b)
    multi = any(len({k for k, _ in m}) > 1 for m in groups.values())
    ctx.label('%d keys' % min(len(groups), 5))
    if multi:
        ctx.label('one key in several files')
    if len({str(s['nsmap']) for s in case['files']}) > 1:
        ctx.label('different nsmaps')
    ctx.nontrivial(len(groups) > 1 or multi)


SUBS = [Sub('partition', cases, check, quick=600)]
