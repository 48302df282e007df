"""C25: the sort command only reorders, by the given keys."""
import copy
import os

from hypothesis import strategies as st

from vf import cli, files, spec, xpath
from vf.core import Sub
from vf.props import c19

ID = 'C25'
TECHNIQUE = ('reference model (stable sort by independently computed keys) '
             'over generated files; the command runs on real files')
RULE = ('Cases are a corpus file and options: up to three keys for igts, '
        'tiers and items, or tier dependencies; the printed and the in-place '
        'results are compared with the expected corpus; non-trivial = the '
        'order changes.')
ASSUMPTIONS = ['keys are paths to attributes, texts and values; a key found '
               'nowhere and an empty one tie',
               'tier references have neither cycles nor dangling ends when '
               'sorting by dependencies']


def S(t, **kw):
    return dict({'t': t, 'preds': []}, **kw)


def C(name, prefix=None):
    return S('child', name=name, prefix=prefix)


def A(name, prefix=None):
    return S('attr', name=name, prefix=prefix)


def P(*steps):
    return {'abs': None, 'steps': [['/' if k else '', s]
                                   for k, s in enumerate(steps)]}


def lang():
    return P(C('metadata'), C('meta'), C('subject', 'dc'), A('code', 'olac'))


KEYS = {
    'igt': [P(A('id')), P(A('doc-id')), P(A('n')), P(A('type')), lang(),
            P(A('state')), P(C('tier'), A('type')),
            P(C('tier'), C('item'), S('text')),
            P(C('tier'), C('item'), S('value')), P(A('nosuch')),
            P(C('tier'), A('n'))],
    'tier': [P(A('id')), P(A('type')), P(A('n')), P(A('alignment')),
             P(C('item'), S('text')), P(C('item'), S('value')),
             P(S('..'), A('id')), P(A('nosuch')), P(C('item'), A('n'))],
    'item': [P(A('id')), P(A('n')), P(S('text')), P(S('value')),
             P(A('segmentation')), P(A('nosuch')), P(S('..'), A('n')),
             P(S('referent', args=['alignment']), A('n'))],
}
DEPS = ['segmentation,alignment,content', 'alignment', 'alignment, content',
        'content,segmentation', 'nosuch']


def keys(level):
    return st.lists(st.sampled_from(KEYS[level]), max_size=3)


@st.composite
def cases(draw):
    return {
        'corpus': draw(files.corpora()),
        'igt': draw(keys('igt')), 'tier': draw(keys('tier')),
        'item': draw(keys('item')),
        'deps': draw(st.one_of(st.none(), st.none(), st.sampled_from(DEPS))),
        'v': draw(st.sampled_from([[], [], ['-v'], ['-vv']])),
        'choices': draw(st.lists(st.integers(0, 40), max_size=4)),
    }


def parts(s):
    """The natural sort key of a string, as comparable tuples."""
    out, k = [], 0
    while k <= len(s):
        j = k
        while j < len(s) and not s[j].isdecimal():
            j += 1
        out.append((0, s[k:j]))
        k = j
        while j < len(s) and s[j].isdecimal():
            j += 1
        if k == j:
            break
        out.append((1, int(s[k:j])))
        k = j
    return out


def keyval(node, paths):
    vals = []
    for p in paths:
        found = xpath.evaluate([node], p)
        vals.append(parts(found[0] if found and found[0] is not None else ''))
    return vals


def arrange(s, case):
    """The corpus spec as the command should output it."""
    s = copy.deepcopy(s)

    def order(parent_kind, parent_spec, key, paths, root):
        node = next(n for n in root.walk() if n.s is parent_spec)
        kids = sorted(node.kids, key=lambda n: keyval(n, paths))
        parent_spec[key] = [n.s for n in kids]

    def fresh():
        return xpath.Node('corpus', s, None, None)
    if case['igt']:
        order('corpus', s, 'igts', case['igt'], fresh())
    if case['deps'] is None and case['tier']:
        # the keys of all igts are computed on the go
        for g in s['igts']:
            order('igt', g, 'tiers', case['tier'], fresh())
    elif case['deps'] is not None:
        ras = [x.strip() for x in case['deps'].split(',')]
        for g in s['igts']:
            ts = [{'id': t['id'], 'refs': t.get('attrs') or {}}
                  for t in g['tiers']]
            g['tiers'] = [g['tiers'][k] for k in c19.model(ts, ras)]
    if case['item']:
        for g in s['igts']:
            for t in g['tiers']:
                order('tier', t, 'items', case['item'], fresh())
    return s


def check(case, ctx):
    from xigt.codecs import xigtxml
    from xigt.scripts import xigt_sort
    d = ctx.tmpdir()
    fn = os.path.join(d, 'c.xml')
    files.write(fn, case['corpus'], case['choices'])
    with open(fn, 'rb') as f:
        original = f.read()
    args = list(case['v'])
    for level in ('igt', 'tier', 'item'):
        if level == 'tier' and case['deps'] is not None:
            args += ['--tier-deps', case['deps']]
            continue
        for p in case[level]:
            args += ['--%s-key' % level, xpath.render(p)]
    new = arrange(case['corpus'], case)
    want = files.expect(new)
    status, out = cli.run(xigt_sort.main, args + [fn])
    ctx.equal(status, 0, 'exit status', args=args, out=out)
    with open(fn, 'rb') as f:
        ctx.check(f.read() == original, 'the input changed', args=args)
    ctx.check(os.listdir(d) == ['c.xml'], 'stray files', files=os.listdir(d))
    ctx.equal(spec.snap(xigtxml.loads(out[out.index('<xigt-corpus'):])), want,
              'printed corpus', args=args)
    status, out = cli.run(xigt_sort.main, args + ['--in-place', fn])
    ctx.equal(status, 0, 'exit status of in-place', args=args, out=out)
    ctx.check('<' not in out, 'prints a corpus when sorting in place')
    ctx.equal(spec.snap(xigtxml.load(fn)), want, 'corpus sorted in place',
              args=args)
    with open(fn, 'rb') as f:
        once = f.read()
    # a path leading to some child may find another after sorting those
    again = arrange(new, case)
    if again == new:
        status, out = cli.run(xigt_sort.main, [fn, '--in-place'] + args)
        with open(fn, 'rb') as f:
            ctx.check(f.read() == once, 'sorting again changes the file',
                      args=args)
    else:
        ctx.label('keys depend on the order')
    for level in ('igt', 'tier', 'item'):
        ctx.label('%d %s keys' % (len(case[level]), level))
    if case['deps']:
        ctx.label('deps')
    ctx.nontrivial(new != case['corpus'])


SUBS = [Sub('sort', cases, check, quick=900)]
