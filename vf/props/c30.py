"""C30: Toolbox import keeps every record, token and alignment."""
import copy
import os
import re
import sys
import warnings

from hypothesis import strategies as st

from vf import cli, spec, target
from vf.core import Sub

sys.path.append(os.path.join(os.path.dirname(os.path.dirname(__file__)),
                             'stubs'))

ID = 'C30'
TECHNIQUE = ('generated interlinear structures rendered as Toolbox files and '
             'imported back, against the structure')
RULE = ('Cases are up to four records of words, morphemes, glosses and parts '
        'of speech in aligned columns (bytes), with other lines, wrapped '
        'blocks, header lines, bad records and configurations; non-trivial '
        '= a word has two or more morphemes.')
ASSUMPTIONS = ['the toolbox library is replaced by a stand-in for well-formed '
               'files, as it is not installed',
               'record keys are unique; lines that others align to come '
               'first; texts hold no control characters']

STEMS = ['inu', 'ga', 'dog', 'S', 'hoe', 'é', 'ñandú', 'ИН', 'a', 'x-y', 'ß',
         'İ', 'ru', '日本', 'Inu', 'o\'', 'd', 'da']
HYPHENS = ['a', 'b', 'ab', 'x-y', 'a-b', 'b-a']
EDGES = ['', '', '', '-', '-', '=', '~', '.']
GLOSS = ['dog', 'NOM', '-NOM', '3SG.F', 'é', '(x)', '日', 'PL=', '*']


@st.composite
def words(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 1, 5, 0] * 4 + [11]))
    ms = []
    stems = draw(st.sampled_from([STEMS, STEMS, HYPHENS]))
    for k in range(n):
        ms.append(draw(st.sampled_from(stems)))
    if draw(st.integers(0, 2)):
        w = ''.join(ms) or 'w'
    else:
        w = draw(st.sampled_from(STEMS)) + draw(st.sampled_from(STEMS))
    if draw(st.integers(0, 3)) == 0:
        w = draw(st.sampled_from([w.capitalize(), w.upper(), w + '-', w + '.',
                                  '-'.join(ms) or w, '-' + w]))
    morphs = []
    for k, m in enumerate(ms):
        a = draw(st.sampled_from(EDGES)) if k else ''
        b = draw(st.sampled_from(EDGES)) if k < n - 1 else ''
        gls = [draw(st.sampled_from(GLOSS))
               for _ in range(draw(st.sampled_from([1, 1, 1, 0, 2])))]
        morphs.append({'m': a + m + b, 'g': gls,
                       'p': [draw(st.sampled_from(['n', 'v', '-suff']))
                             for _ in range(draw(st.sampled_from([1, 1, 0])))]
                       })
    return {'w': w, 'morphs': morphs}


FREE = ['the dog barks', 'the café is  open', 'x', 'été à la plage', '"q" <&>',
        '日本 語', None, '- a -', 'a ü b']


@st.composite
def records(draw, k):
    r = {'key': draw(st.sampled_from(
            ['r%d', '%d', 'é%d', 'A.%d', '_%d', 'x-%d', 'igt%d', '(%d)'])) % k,
         'words': [draw(words())
                   for _ in range(draw(st.sampled_from([2, 1, 3, 0] * 6 + [11])))],
         'free': draw(st.one_of(st.none(),
                                st.sampled_from(FREE).map(lambda f: [f]))),
         'lines': draw(st.sampled_from(
             [['t', 'm', 'g', 'p'], ['t', 'm', 'g'], ['t', 'm'], ['t'], [],
              ['t', 'm', 'p', 'g']])),
         'extra': draw(st.lists(st.tuples(
             st.sampled_from(['\\nt', '\\dt', '\\sp']),
             st.sampled_from(['a', 'é b', '2/Jan', None])).map(list),
             max_size=3)),
         'wrap': draw(st.integers(0, 3)),
         'gap': draw(st.integers(1, 3)),
         'free_first': draw(st.booleans()),
         'bad': draw(st.sampled_from([None] * 12 + ['BAD!', 'WARN!']))}
    return r


@st.composite
def cases(draw):
    recs = []
    for k in range(draw(st.sampled_from([1, 2, 3, 4] * 5 + [11]))):
        r = draw(records(k + 1))
        if draw(st.integers(0, 2)) == 0:
            r['doc'] = draw(st.sampled_from(['doc1', 'é', 'd x']))
        recs.append(r)
    return {
        'records': recs,
        'header': draw(st.booleans()),
        'blank': draw(st.booleans()),
        'config': draw(st.sampled_from(['default', 'default', 'no-phrase',
                                        'attrs', 'renamed', 'markers'])),
        'via': draw(st.sampled_from(['api', 'api', 'cli'])),
    }


def width(s):
    return len(s.encode('utf-8'))


def render_block(ws, lines, gap):
    """Lines of aligned columns (in bytes)."""
    rows = {l: '' for l in lines}
    at = 0
    for w in ws:
        start = at
        wend = start + width(w['w'])
        place(rows, 't', start, w['w'])
        pos = start
        for m in w['morphs']:
            place(rows, 'm', pos, m['m'])
            mend = pos + width(m['m'])
            for l in 'gp':
                p = pos
                for g in m[l]:
                    place(rows, l, p, g)
                    p += width(g) + 1
                mend = max(mend, p - 1)
            pos = mend + gap
        at = max(wend + gap, pos)
    return rows


def place(rows, line, pos, s):
    if line in rows:
        rows[line] += ' ' * (pos - width(rows[line])) + s


MARK = {'t': '\\t', 'm': '\\m', 'g': '\\g', 'p': '\\p'}


def render(case):
    out = []
    if case['header']:
        out += ['\\_sh v3.0  400  Text', '', '\\_DateStampHasFourDigitYear']
    mk = markers(case)
    for r in case['records']:
        if 'doc' in r:
            out.append('%s %s' % (mk['doc'], r['doc']))
        out.append('%s %s' % (mk['key'], r['key']))
        out += ['%s%s' % (m, '' if v is None else ' ' + v)
                for m, v in r['extra']]
        free = [] if r['free'] is None else [
            mk['f'] + ('' if r['free'][0] is None else ' ' + r['free'][0])]
        if r['free_first']:
            out += free
        n = r['wrap'] or len(r['words']) or 1
        blocks = [r['words'][k:k + n]
                  for k in range(0, len(r['words']), n)] or [[]]
        for k, b in enumerate(blocks):
            rows = render_block(b, r['lines'], r['gap'])
            for l, row in rows.items():
                if r['bad'] in ('BAD!', 'WARN!') and l == 't' and k == 0:
                    full = max(map(width, rows.values()))
                    row += ' ' * (full + 1 - width(row)) + r['bad']
                out.append((MARK[l] + ' ' + row).rstrip())
            if case['blank']:
                out.append('')
        if not r['free_first']:
            out += free
    return '\n'.join(out) + '\n'


def markers(case):
    if case['config'] == 'markers':
        return {'doc': '\\txt', 'key': '\\rec', 'f': '\\f'}
    return {'doc': '\\id', 'key': '\\ref', 'f': '\\f'}


def config(case):
    c = case['config']
    if c == 'no-phrase':
        return {'make_phrase_tier': None}
    if c == 'attrs':
        return {'igt_attribute_map': {'\\id': 'doc', '\\ref': 'key',
                                      '\\dt': 'date', '\\nt': 'note'}}
    if c == 'renamed':
        return {
            'tier_map': {'\\t': 'words', '\\m': 'mo', '\\g': 'gl',
                         '\\f': 'tr'},
            'make_phrase_tier': ['words', 'ph'],
            'tier_types': {
                'ph': {'type': 'phrases'},
                'words': {'type': 'words', 'interlinear': True},
                'mo': {'type': 'morphemes', 'interlinear': True},
                'gl': {'type': 'glosses', 'interlinear': True},
                'tr': {'type': 'translations'}},
            'alignments': {'words': ['segmentation', 'ph'],
                           'mo': ['segmentation', 'words'],
                           'gl': ['alignment', 'mo'],
                           'tr': ['alignment', 'ph']}}
    if c == 'markers':
        return {'record_markers': ['\\txt', '\\rec'],
                'igt_attribute_map': {'\\txt': 'corpus-id'}}
    return None


def expected(case):
    """What is to be imported: igts as plain data."""
    c = case['config']
    names = {'t': 'w', 'm': 'm', 'g': 'g', 'p': 'pos', 'f': 't', 'ph': 'p'}
    if c == 'renamed':
        names = {'t': 'words', 'm': 'mo', 'g': 'gl', 'f': 'tr', 'ph': 'ph'}
    if c == 'no-phrase':
        del names['ph']
    amap = (config(case) or {}).get('igt_attribute_map',
                                    {'\\id': 'corpus-id'})
    mk = markers(case)
    out = []
    doc = None
    for r in case['records']:
        doc = r.get('doc', doc)
        if r['bad'] == 'BAD!' and 't' in r['lines']:
            continue
        key = r['key']
        attrs = {}
        for m, v in r['extra'] + [[mk['doc'], doc], [mk['key'], key]]:
            if m in amap and v is not None:
                # one of them if a field is repeated
                attrs.setdefault(amap[m], []).append(v)
        ws = copy.deepcopy(r['words'])
        if r['bad'] == 'WARN!' and 't' in r['lines']:
            # one more word at the end of the first block
            n = r['wrap'] or len(ws) or 1
            ws.insert(min(n, len(ws)), {'w': 'WARN!', 'morphs': []})
        tiers = {}
        order = []
        for l in r['lines'] + ([] if r['free'] is None else ['f']):
            order.append(l)
        if r['free_first'] and 'f' in order:
            order.remove('f')
            order.insert(0, 'f')
        out.append({
            'id': key if re.match('[A-Za-z]', key) else 'igt' + key,
            'attrs': attrs, 'words': ws, 'order': order, 'names': names,
            'free': r['free'], 'lines': r['lines']})
    return out


SPAN = re.compile(r'(.*)\[(\d+):(\d+)\]$')


def check(case, ctx):
    import toolbox
    from xigt.codecs import xigtxml
    from xigt.importers import toolbox as importer
    from xigt.scripts import xigt_import
    ctx.check('stubs' in toolbox.__file__, 'not the stand-in')
    d = ctx.tmpdir()
    fin, fout = os.path.join(d, 'in.txt'), os.path.join(d, 'out.xml')
    data = render(case).encode('utf-8')
    with open(fin, 'wb') as f:
        f.write(data)
    cfg = config(case)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if case['via'] == 'cli':
            args = ['-i', fin, '-o', fout, '-f', 'toolbox']
            if cfg is not None:
                import json
                with open(os.path.join(d, 'cfg.json'), 'w') as f:
                    json.dump(cfg, f)
                args += ['-c', os.path.join(d, 'cfg.json')]
            status, out = cli.run(xigt_import.main, args)
            ctx.equal(status, 0, 'exit status', out=out)
        else:
            import logging
            logging.disable(logging.CRITICAL)
            try:
                importer.xigt_import(fin, fout, cfg)
            finally:
                logging.disable(logging.NOTSET)
    with open(fin, 'rb') as f:
        ctx.check(f.read() == data, 'the input changed')
    xc = xigtxml.load(fout)
    want = expected(case)
    ctx.equal([g.id for g in xc], [w['id'] for w in want], 'igts',
              file=data.decode())
    for igt, w in zip(xc, want):
        one(ctx, igt, w, data.decode())
    ctx.label(case['config'], *('bad ' + str(r['bad'])
                                for r in case['records']))
    ctx.nontrivial(any(len(x['morphs']) > 1 for w in want
                       for x in w['words']))


def one(ctx, igt, w, src):
    names = w['names']
    ctx.equal({k: v if v in w['attrs'].get(k, ()) else [v]
               for k, v in igt.attributes.items()},
              {k: igt.attributes.get(k) if igt.attributes.get(k) in v else v
               for k, v in w['attrs'].items()}, 'attributes of the igt',
              file=src)
    ids = []
    for l in w['order']:
        if l not in names:
            continue
        if l == 't' and 'ph' in names:
            ids.append(names['ph'])
        ids.append(names[l])
    ctx.equal([t.id for t in igt], ids, 'tiers', file=src)
    types = {'t': 'words', 'm': 'morphemes', 'g': 'glosses', 'p': 'pos',
             'f': 'translations', 'ph': 'phrases'}
    back = {v: k for k, v in names.items()}
    for t in igt:
        ctx.equal(t.type, types[back[t.id]], 'type of tier', file=src)
        ctx.equal([x.id for x in t],
                  ['%s%d' % (t.id, k + 1) for k in range(len(t))],
                  'ids of items', file=src)
    tier = {back[t.id]: t for t in igt}
    words = [x['w'] for x in w['words']]
    # which lines are there and not empty
    toks = {'t': words,
            'm': [m['m'] for x in w['words'] for m in x['morphs']],
            'g': [g for x in w['words'] for m in x['morphs']
                  for g in m['g']],
            'p': [p for x in w['words'] for m in x['morphs']
                  for p in m['p']]}
    for l in ('t', 'm', 'g', 'p'):
        if l in tier:
            ctx.equal([x.text for x in tier[l]], toks[l],
                      'tokens of line %s' % l, file=src)
    if 'ph' in tier and 't' in tier:
        ctx.equal([x.text or '' for x in tier['ph']], [' '.join(words)],
                  'phrase', file=src)
    if 'f' in tier:
        ctx.equal([x.text for x in tier['f']],
                  [f for f in w['free'] if f is not None],
                  'free line', file=src)

    def ref(t, ra, target):
        """Tier reference to the target tier, if any was to be made."""
        ctx.equal(t.attributes.get(ra), target, 'reference of tier %s'
                  % t.id, file=src)

    # words in the phrase
    if 'ph' in tier and words:
        ref(tier['t'], 'segmentation', names['ph'])
        for x in tier['t']:
            m = SPAN.match(x.segmentation or '')
            ctx.check(m and m.group(1) == names['ph'] + '1',
                      'reference of a word', ref=x.segmentation, file=src)
            ctx.equal(tier['ph'][0].text[int(m.group(2)):int(m.group(3))],
                      x.text, 'span of a word', file=src)
    elif 't' in tier:
        ctx.equal(dict(tier['t'].attributes), {}, 'no reference', file=src)
    # morphemes in words
    if 'm' in tier and toks['m']:
        if words:
            ref(tier['m'], 'segmentation', names['t'])
        k = 0
        for j, x in enumerate(w['words']):
            plain = [m['m'].strip('-=~.') for m in x['morphs']]
            exact = fold(''.join(plain)) == fold(x['w'])
            for m, p in zip(x['morphs'], plain):
                it = tier['m'][k]
                k += 1
                mm = SPAN.match(it.segmentation or '')
                tid = mm.group(1) if mm else it.segmentation
                ctx.equal(tid, '%s%d' % (names['t'], j + 1),
                          'word of a morpheme', file=src)
                if not mm:
                    ctx.check(not exact, 'no span although the morphemes '
                              'make up the word', word=x, file=src)
                    continue
                a, b = int(mm.group(2)), int(mm.group(3))
                ctx.check(0 <= a <= b <= len(x['w']),
                          'span outside of the word', word=x['w'], span=(a, b),
                          file=src)
                if exact:
                    ctx.label('exact morphemes')
                    ctx.equal(fold(x['w'][a:b]), fold(p),
                              'span of a morpheme', word=x['w'],
                              morphs=x['morphs'], file=src)
    # glosses and parts of speech
    for l in 'gp':
        if l not in tier or not toks[l]:
            continue
        ref(tier[l], 'alignment', names['m'])
        k = i = 0
        for x in w['words']:
            for m in x['morphs']:
                i += 1
                for _ in m[l]:
                    ctx.equal(tier[l][k].alignment, '%s%d' % (names['m'], i),
                              'alignment of %s' % l, file=src)
                    k += 1
    if 'f' in tier:
        early = w['order'].index('f') > (
            w['order'].index('t') if 't' in w['order'] else 99)
        if 'ph' in tier and early and w['free'][0] is not None:
            ref(tier['f'], 'alignment', names['ph'])
            ctx.equal(tier['f'][0].alignment, names['ph'] + '1',
                      'alignment of the free line', file=src)


def fold(s):
    """Case folding that keeps the length."""
    return ''.join(c.lower() if len(c.lower()) == 1 else c for c in s)


SUBS = [Sub('import', cases, check, quick=1200)]
