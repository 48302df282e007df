"""C28: LaTeX export shows every token once, in aligned columns."""
import os

from hypothesis import strategies as st

from vf import cli, files, latexread, ling, spec
from vf.core import Sub

ID = 'C28'
TECHNIQUE = ('generated alignment graphs against a reference column model '
             '(strongly connected components); the exported file is parsed')
RULE = ('Cases are corpora with generated alignments (also crossing, to '
        'earlier, later or absent tiers, or none) and a choice of tiers; the '
        'exported LaTeX is read back; non-trivial = an exported igt whose '
        'later tiers have aligned items.')
ASSUMPTIONS = ['the columns are those of the finest order-preserving layout '
               '(consecutive items with the same alignment stay together) '
               'if all items of later tiers are aligned; otherwise further '
               'columns may be merged',
               'tier types to export are configured in lower case']

TYPES = ['words', 'morphemes', 'glosses', 'Words', 'GLOSSES', 'phrases',
         'translations', None, 'words', 'morphemes', 'glosses',
         'words-x', 'word', ' words']


@st.composite
def igts(draw):
    n = draw(st.sampled_from([3, 2, 4, 1, 0, 5]))
    # now and then, many columns or many tiers
    big = draw(st.integers(0, 24))
    if big == 24:
        n = draw(st.sampled_from([9, 11]))
    elif big == 23:
        n = min(n, 2)
    tiers, all_ids = [], []
    for k in range(n):
        m = draw(st.sampled_from([2, 3, 1, 4, 0, 5]))
        if big == 23 and m:
            m = draw(st.sampled_from([10, 12, 17]))
        all_ids.append(['%s%d' % ('abcdefghijkl'[k], j + 1)
                        for j in range(m)])
    for k in range(n):
        t = {'id': draw(st.sampled_from(['t%d' % k] * 5 + [None])),
             'type': draw(st.sampled_from(TYPES)), 'items': [], 'attrs': {}}
        if t['type'] is None:
            del t['type']
        style = draw(st.sampled_from(['mono', 'mono', 'any', 'wild']))
        ra = draw(st.sampled_from(['alignment', 'alignment', 'segmentation']))
        target = draw(st.integers(0, k - 1)) if k and style != 'wild' else None
        pos = 0
        for i in all_ids[k]:
            x = {'id': i, 'text': i + draw(st.sampled_from(['', 'x', '=y']))}
            refs = []
            if style == 'wild':
                pool = [j for js in all_ids for j in js if j != i] + ['zz']
                for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
                    refs.append(draw(st.sampled_from(pool)))
            elif target is not None and all_ids[target]:
                pool = all_ids[target]
                for _ in range(draw(st.sampled_from([1, 1, 1, 0, 2]))):
                    if style == 'any':
                        pos = draw(st.integers(0, len(pool) - 1))
                    else:
                        pos = min(len(pool) - 1,
                                  pos + draw(st.sampled_from([0, 1, 1])))
                    refs.append(pool[pos])
            if refs:
                x['attrs'] = {ra: draw(st.sampled_from([',', ' ', '+'])).join(
                    r + draw(st.sampled_from(['', '', '[0:1]']))
                    if draw(st.booleans()) else r for r in refs)}
                if ' ' in x['attrs'][ra]:
                    x['attrs'][ra] = ' '.join(refs)
                if draw(st.integers(0, 9)) == 9:
                    x['attrs']['alignment'] = ''
                    if ra == 'alignment':
                        x['attrs']['segmentation'] = refs[0]
            if draw(st.integers(0, 9)) == 9:
                x['text'] = None
                # no value at all
                x.get('attrs', {}).pop('segmentation', None)
            t['items'].append(x)
        tiers.append(t)
    if draw(st.integers(0, 4)) == 0:
        tiers = list(draw(st.permutations(tiers)))
    return {'id': draw(st.sampled_from(['i%d' % n, None])), 'tiers': tiers}


@st.composite
def cases(draw):
    gs = [draw(igts()) for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
    for k, g in enumerate(gs):
        if g['id']:
            g['id'] = 'i%d' % (k + 1)
    return {'corpus': {'id': 'c', 'igts': gs},
            'types': draw(st.sampled_from(
                [None, None, None, ['words', 'glosses'], ['phrases'],
                 ['words', 'morphemes', 'glosses', 'phrases',
                  'translations']])),
            'via': draw(st.sampled_from(['api', 'api', 'cli']))}


def exported(g, types):
    types = types or ['words', 'morphemes', 'glosses']
    return [t for t in g['tiers'] if t.get('type')
            and t['type'].lower() in types]


def refs(x):
    a = x.get('attrs') or {}
    return ling.word_ids(a.get('alignment') or a.get('segmentation') or '')


def components(tiers):
    """Item -> component of the layout graph, items being (tier, index)."""
    nodes = [(k, j) for k, t in enumerate(tiers)
             for j in range(len(t['items']))]
    edges = {n: set() for n in nodes}

    def item(n):
        return tiers[n[0]]['items'][n[1]]
    for n in nodes:
        k, j = n
        nxt = (k, j + 1)
        if nxt in edges:
            edges[n].add(nxt)       # never left of its predecessor
            if k and refs(item(n)) == refs(item(nxt)):
                edges[nxt].add(n)
        for i in refs(item(n)):
            for m in nodes:
                if m[0] < k and item(m)['id'] == i:
                    edges[n].add(m)
                    edges[m].add(n)

    def reach(n):
        seen, todo = {n}, [n]
        while todo:
            for m in edges[todo.pop()]:
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
        return seen
    r = {n: reach(n) for n in nodes}
    return {n: min(m for m in r[n] if n in r[m]) for n in nodes}


def run(case, ctx, config):
    """Export; returns what the file holds."""
    import json
    from xigt.codecs import xigtxml
    from xigt.exporters import latex
    from xigt.scripts import xigt_export
    d = ctx.tmpdir()
    path = os.path.join(d, 'out.tex')
    if case['via'] == 'cli':
        files.write(os.path.join(d, 'in.xml'), case['corpus'])
        args = ['-i', os.path.join(d, 'in.xml'), '-o', path]
        if config is not None:
            with open(os.path.join(d, 'cfg.json'), 'w') as f:
                json.dump(config, f)
            args += ['-c', os.path.join(d, 'cfg.json')]
        status, out = cli.run(xigt_export.main, args)
        ctx.equal(status, 0, 'exit status', out=out)
    else:
        xc = spec.build_corpus(case['corpus'])
        before = spec.snap(xc)
        latex.xigt_export(xc, path, config=config)
        ctx.equal(spec.snap(xc), before, 'exporting changed the corpus')
    with open(path, encoding='utf-8', newline='') as f:
        return f.read()


def read(out, ctx):
    try:
        return [(k, latexread.example(v) if k == 'example' else v)
                for k, v in latexread.documents(out, [])]
    except latexread.Bad as e:
        ctx.fail('LaTeX that is not plain text in columns: %s' % e, out=out)


def check(case, ctx):
    config = None if case['types'] is None else {'tier_types': case['types']}
    out = run(case, ctx, config)
    parts = read(out, ctx)
    gs = case['corpus']['igts']
    ctx.equal(len(parts), len(gs), 'number of examples', out=out)
    for g, (kind, part) in zip(gs, parts):
        tiers = exported(g, case['types'])
        if len(tiers) < 2:
            ctx.equal(kind, 'skipped', 'an igt that cannot be exported',
                      out=out)
            ctx.check(str(g['id']) in part and 'cannot export' in part,
                      'the igt is not named', comment=part, id=g['id'])
            ctx.label('skipped')
            continue
        ctx.equal(kind, 'example', 'an igt that can be exported', out=out)
        rows, trans = part
        ctx.equal(len(rows), len(tiers), 'number of lines', out=out)
        ctx.equal(trans, [t['items'][0].get('text') or '' for t in g['tiers']
                          if t.get('type') == 'translations' and t['items']],
                  'translations', out=out)
        ctx.check(len({len(r) for r in rows}) == 1,
                  'lines of different length', rows=rows, out=out)
        col = {}
        for k, (t, row) in enumerate(zip(tiers, rows)):
            # walk along the items; one without value shows as nothing
            j = 0
            words = [(c, w) for c, text in enumerate(row)
                     for w in text.split(' ')]
            have = [(c, w) for c, w in words if w]
            want = [x.get('text') or '' for x in t['items']]
            ctx.equal([w for c, w in have], [w for w in want if w],
                      'items of tier %d' % k, out=out)
            empties = sum(1 for w in want if not w)
            it = iter(have)
            for j, w in enumerate(want):
                if w:
                    col[k, j] = next(it)[0]
        comp = components(tiers)
        anchored = all(
            set(refs(x)) & {y['id'] for u in tiers[:k] for y in u['items']}
            for k, t in enumerate(tiers) for x in t['items'] if k)
        ctx.label('anchored' if anchored else 'not anchored')
        pairs = sorted(col)
        for a in range(len(pairs)):
            for b in range(a):
                x, y = pairs[a], pairs[b]
                if comp[x] == comp[y]:
                    ctx.check(col[x] == col[y], 'aligned items in different '
                              'columns', items=(x, y), out=out)
                elif anchored:
                    # (unaligned items are put somewhere, and what is merged
                    # later depends on where)
                    ctx.check(col[x] != col[y], 'unrelated items share a '
                              'column', items=(x, y), out=out)
        aligned = any(comp[n] != n and comp[n][0] != n[0] for n in comp)
        if any(len({c for (k, j), c in comp.items() if k == 0}) <
               len(t['items']) for t in tiers[:1]):
            ctx.label('merged')
        ctx.label('%d tiers' % len(tiers))
        ctx.nontrivial(aligned)


SUBS = [Sub('columns', cases, check, quick=1500)]
