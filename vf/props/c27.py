"""C27: the query command counts and lists what XigtPath finds."""
import copy
import os
import re

from hypothesis import strategies as st

from vf import cli, files, ling, spec, xpath
from vf.core import Sub
from vf.props.c26 import strip_scope

ID = 'C27'
TECHNIQUE = ('reference evaluation of generated queries over generated files; '
             'the output of the command is compared line by line')
RULE = ('Cases are one or two corpus files and up to four actions (find, '
        'count, unique, tally) with generated paths and descriptions; '
        'non-trivial = some query has several matches.')
ASSUMPTIONS = ['results of find come first, then those of the other actions',
               'the order of equal counts of one tally is not asserted',
               'braces of descriptions are balanced or doubled (doubled ones stand '
               'for single ones)']

PIECES = ['{query}', '{subquery}', '{match}', '{match!s}', 'x', ' - ', '{0}',
          '{nope}', '{}', '%s', '{nope!r}', '{query!s}', '{a.b}', '{1[x]}',
          '\\', 'é', '{match!s:>4}', '{{', '}}', '{{match}}', '{{}}']


def templates():
    return st.one_of(st.none(), st.none(), st.lists(
        st.sampled_from(PIECES), min_size=1, max_size=4).map(
            lambda p: 'd' + ''.join(p)))


EVERYTHING = {'abs': '//', 'steps': [['', {
    't': 'desc', 'name': 'item', 'prefix': None, 'preds': []}]]}
NOTHING = {'abs': None, 'steps': [['', {
    't': 'attr', 'name': 'n', 'prefix': None, 'preds': []}]]}


def works(s, p, q):
    """Whether no step is applied to a string."""
    try:
        for n in xpath.evaluate([xpath.Node('corpus', s, None, None)], p):
            if q:
                xpath.evaluate([n], q)
        return True
    except (AttributeError, TypeError):
        return False


def repeat(draw, fs):
    """Several objects with the same content (without ids)."""
    for s in fs:
        for g in s['igts']:
            for t in g['tiers']:
                plain = [x for x in t['items'] if not any(
                    k in ling.REFATTRS for k in x.get('attrs') or {})]
                if plain and draw(st.booleans()):
                    x = dict(draw(st.sampled_from(plain)), id=None)
                    t['items'] += [copy.deepcopy(x) for _ in range(
                        draw(st.integers(1, 3)))]
            for m in g['metadata']:
                if m.get('metas') and draw(st.booleans()):
                    x = dict(m['metas'][0], id=None)
                    m['metas'] += [copy.deepcopy(x), copy.deepcopy(x)]


@st.composite
def cases(draw):
    # (references that cannot be resolved, in queries without values)
    dangling = draw(st.integers(0, 4)) == 0
    cfg = ling.LCfg(max_tiers=3, max_items=4, min_tiers=0, dangling=dangling)
    fs = [draw(files.corpora(max_igts=3, cfg=cfg))
          for _ in range(draw(st.sampled_from([1, 1, 1, 2])))]
    agenda = []
    if draw(st.integers(0, 3)) == 0:
        repeat(draw, fs)
        agenda.append({'action': draw(st.sampled_from(['unique', 'tally'])),
                       'query': EVERYTHING if draw(st.booleans()) else
                       dict(EVERYTHING, steps=[['', {
                           't': 'desc', 'name': 'meta', 'prefix': None,
                           'preds': []}]]),
                       'sub': None, 'descs': [draw(templates())]})
        if agenda[0]['action'] == 'tally':
            agenda[0]['sub'] = {'abs': None, 'steps': [['', {
                't': '.', 'preds': []}]]}
    nodes = [xpath.Node('corpus', fs[0], None, None)]
    for _ in range(draw(st.integers(1, 4))):
        g = xpath.Gen(draw, draw(st.booleans()), not dangling)
        a = draw(st.sampled_from(['find', 'count', 'unique', 'tally',
                                  'unique', 'tally']))
        p, found = g.path(nodes, 1, 4)
        q = None
        if a == 'tally':
            # sub-queries start at nodes, not at strings
            for _ in range(4):
                if found and not any(isinstance(f, str) for f in found):
                    break
                p, found = g.path(nodes, 1, 2)
            else:
                p, found = {'abs': None, 'steps': [['', {
                    't': 'child', 'name': 'igt', 'prefix': None,
                    'preds': []}]]}, nodes[0].kids
            q = g.path(found, 1, 3, relative=True)[0] if found else p
        if not all(works(s, p, q) for s in fs):
            p, q = EVERYTHING, q and NOTHING
        agenda.append({'action': a, 'query': p, 'sub': q,
                       'descs': [draw(templates())]})
    return {'files': fs, 'agenda': agenda,
            'file_desc': draw(st.sampled_from(
                [None, None, '{filename}:', 'file {filename}', '-', '{{}}'])),
            'basename': draw(st.booleans()),
            'name': draw(st.sampled_from(
                ['f%d.xml', 'f%d.xml', 'f.v%d.xml', 'x y%d.XML', '.f%d'])),
            'short': draw(st.booleans())}


def fill(template, values):
    def sub(m):
        if m.group(0) in ('{{', '}}'):
            return m.group(0)[0]
        if m.group(1) not in values:
            return m.group(0)
        s = str(values[m.group(1)])
        if m.group(2):
            s = s.rjust(int(m.group(2)))
        return s
    return re.sub(r'\{\{|\}\}|\{(\w*)(?:!s)?(?::>(\d+))?\}|\{[^{}]*\}',
                  sub, template)


def plain(text):
    """Addresses and leading blanks do not matter."""
    text = re.sub(r' at (0x[0-9a-f]+|\d+)>', ' at X>', text)
    return [l.strip(' ') for l in text.split('\n')]


def text(n):
    return n if isinstance(n, str) else str(n.obj)


def content(n):
    return n if isinstance(n, str) else strip_scope(spec.expect(
        n.kind, n.s, xml=True))


def distinct(xs):
    out = []
    for x in xs:
        c = content(x) if not isinstance(x, list) else [content(y) for y in x]
        for e in out:
            if e[0] == c:
                e[1] += 1
                break
        else:
            out.append([c, 1, x])
    return out


DEFAULT = {'tally': '{query}\t{subquery}\t{match!s}'}


def check(case, ctx):
    from xigt.codecs import xigtxml
    from xigt.scripts import xigt_query
    d = ctx.tmpdir()
    names = []
    args = []
    opts = {'find': '-f', 'count': '-c', 'unique': '-u', 'tally': '-t'}
    for a in case['agenda']:
        args.append(opts[a['action']] if case['short']
                    else '--' + a['action'])
        args.append(xpath.render(a['query']))
        if a['sub']:
            args.append(xpath.render(a['sub']))
        for t in a['descs']:
            if t is not None:
                args += ['-d' if case['short'] else '--description', t]
    if case['file_desc'] is not None:
        args.append('--file-description=' + case['file_desc'])
    if case['basename']:
        args.append('--basename')
    want = []
    several = False
    for k, s in enumerate(case['files']):
        names.append(os.path.join(d, case.get('name', 'f%d.xml') % k))
        files.write(names[-1], s)
        root = xpath.Node('corpus', s, xigtxml.load(names[-1]), None)
        fd = case['file_desc'] or '{filename}:'
        want.append(('line', fd.format(
            filename=os.path.basename(names[-1]) if case['basename']
            else names[-1])))
        results = []
        for a in case['agenda']:
            found = xpath.evaluate([root], a['query'])
            several |= len(found) > 1
            t = a['descs'][-1]
            if t is None:
                t = DEFAULT.get(a['action'], '{query}\t{match!s}')
            vals = {'query': xpath.render(a['query']), 'match': '',
                    'subquery': xpath.render(a['sub']) if a['sub'] else ''}
            if a['action'] == 'find':
                for n in found:
                    want.append(('line', fill(t, dict(vals, match=text(n)))))
            elif a['action'] == 'count':
                results.append(('line', '%d\t%s' % (len(found),
                                                    fill(t, vals))))
            elif a['action'] == 'unique':
                n = len(distinct(found))
                ctx.label('unique<count' if n < len(found) else 'unique=count')
                results.append(('line', '%d\t%s' % (n, fill(t, vals))))
            else:
                groups = distinct([xpath.evaluate([n], a['sub'])
                                   for n in found])
                ctx.label('tally of %d' % min(len(groups), 4))
                counts = sorted({c for _, c, _ in groups}, reverse=True)
                for c in counts:
                    results.append(('any', [
                        '%d\t%s' % (c, fill(t, dict(vals, match=', '.join(
                            text(x) for x in g))))
                        for _, c2, g in groups if c2 == c]))
        want += results
        want.append(('line', ''))
    status, out = cli.run(xigt_query.main, args + names)
    ctx.equal(status, 0, 'exit status', out=out)
    got = plain(out)
    ctx.equal(got[-1], '', 'last line')
    pos = 0
    for kind, w in want:
        w = plain(w) if kind == 'line' else [plain(x) for x in w]
        n = len(w) if kind == 'line' else sum(map(len, w))
        g = got[pos:pos + n]
        pos += n
        if kind == 'any':
            # in any order, each being one or more lines
            rest = list(w)
            at = 0
            while rest:
                hit = next((x for x in rest if g[at:at + len(x)] == x), None)
                if hit is None:
                    ctx.fail('tally differs', got=g, want=w, args=args,
                             output=out)
                rest.remove(hit)
                at += len(hit)
        elif g != w:
            ctx.fail('output differs', got=g, want=w, args=args, output=out)
    ctx.equal(got[pos:], [''], 'more output than expected', args=args)
    ctx.label(*('action ' + a['action'] for a in case['agenda']))
    ctx.nontrivial(several)


SUBS = [Sub('query', cases, check, quick=1000)]
