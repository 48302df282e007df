"""C29: LaTeX export never corrupts or leaks special characters."""
import re

from hypothesis import strategies as st

from vf import gen
from vf.core import Sub
from vf.props import c28

ID = 'C29'
TECHNIQUE = ('round trip through an independent reader of the LaTeX written, '
             'and a reference for substitutions')
RULE = ('Cases are aligned tiers whose texts are arbitrary characters, and '
        'translations; or plain words with substitution rules. The exported '
        'file is read back as TeX would; non-trivial = a text has a special '
        'character, or a substitution applies to some tiers and not to '
        'others.')
ASSUMPTIONS = ['texts are what XML can hold, without control characters '
               'other than line breaks and tabs; ligatures and the amount of '
               'white space are not considered',
               'patterns of substitutions match inside of words']

SPECIAL = '\\&%$#_{}~^'
CHARS = st.one_of(
    st.sampled_from(SPECIAL), st.sampled_from(SPECIAL + ' \n\tab-"\'é'),
    st.characters(min_codepoint=0xa0, max_codepoint=0x1ffff,
                  exclude_categories=('Cs', 'Cc', 'Cn'))).map(str)
TEXTS = st.one_of(
    st.sampled_from(['\\', '\\\\', '{', '}', '{}', '\\{', '%', 'a%b', '~', '^',
                     '\\textbackslash', '\\\n', '\n\n', ' ', '', '\\\\ ', '#1',
                     '$x$', '}{', '\\end{exe}', '\\begin{document}', 'a\n%b',
                     '\\&', 'x\\', '\\ x', '~ a', '^^', 'a  b', '\r\n', '_', 'a\rb', '\r',
                     '\\trans', 'dog']),
    st.text(CHARS, max_size=6))


@st.composite
def texts(draw):
    n = draw(st.sampled_from([2, 1, 3, 0]))
    words = [draw(TEXTS) for _ in range(n)]
    types = ['words', 'glosses']
    tiers = [{'id': 'w', 'type': 'words', 'items': [
        {'id': 'w%d' % k, 'text': t} for k, t in enumerate(words)]}]
    gl = []
    for k in range(n):
        x = {'id': 'g%d' % k, 'attrs': {'alignment': 'w%d' % k}}
        if draw(st.integers(0, 3)):
            x['text'] = draw(TEXTS)
        else:
            x['attrs'] = {'alignment': 'w%d' % k, 'content': 'w%d' % k}
        gl.append(x)
    tiers.append({'id': 'g', 'type': 'glosses', 'items': gl,
                  'attrs': {'alignment': 'w', 'content': 'w'}})
    for k in range(draw(st.integers(0, 2))):
        tiers.append({'id': 't%d' % k, 'type': 'translations', 'items': [
            {'id': 't%d%d' % (k, j), 'text': draw(TEXTS)}
            for j in range(draw(st.sampled_from([1, 2, 0])))]})
    return {'corpus': {'igts': [{'id': 'i1', 'tiers': tiers}]},
            'types': types, 'via': 'api'}


def typeset(s):
    """What is to appear, white space collapsed."""
    return ' '.join((s or '').split())


def check_text(case, ctx):
    out = c28.run(case, ctx, {'tier_types': case['types']})
    if '\r' in out:
        ctx.fail('a carriage return is written', out=out)
    g = case['corpus']['igts'][0]
    parts = c28.read(out, ctx)
    ctx.equal([k for k, _ in parts], ['example'], 'examples', out=out)
    rows, trans = parts[0][1]
    words = [x.get('text') for x in g['tiers'][0]['items']]
    gl = []
    for x, w in zip(g['tiers'][1]['items'], words):
        gl.append(x['text'] if 'content' not in x['attrs'] else w)
    for got, want in zip(rows, (words, gl)):
        ctx.equal([typeset(c) for c in got], [typeset(w) for w in want],
                  'texts of a line', out=out)
    ctx.equal(len(rows), 2, 'number of lines', out=out)
    ctx.equal([typeset(t) for t in trans],
              [typeset(t['items'][0]['text']) for t in g['tiers'][2:]
               if t['items']], 'translations', out=out)
    every = ''.join(x.get('text') or '' for t in g['tiers']
                    for x in t['items'])
    for c in SPECIAL + '\n':
        if c in every:
            ctx.label('has %r' % c)
    ctx.nontrivial(any(c in every for c in SPECIAL))


TIERPATS = ['words', 'glosses', 'w.*', '(words|glosses)$', '', 'trans',
            '.*s$', 'ord', '[a-m]', 'translations', 'Words']
PATTERNS = [['dog', 'cat'], ['cat', 'dog'], ['o', '0'], ['^a', 'X'],
            ['(d)(o)', '\\2\\1'], ['[A-Z]+', ['m', 'm.group(0).lower()']],
            ['og', ['m', '"<" + m.group(0) + ">"']], ['nom', 'NOM'],
            ['x', 'y'], ['y', 'x'], ['t+', '']]
PLAIN = ['dog', 'cat', 'DOG', 'fox', 'nom', 'xyxy', 'doggo', 'tot', 'oxo',
         'édodo', 'dodoɡ', '犬dog犬dog', 'ыxx']


def rules(item):
    pats = [p for p in PATTERNS if item or p[0] != '^a']
    return st.lists(st.tuples(
        st.sampled_from(TIERPATS),
        st.lists(st.sampled_from(pats), min_size=1, max_size=3)
    ).map(list), max_size=3)


@st.composite
def subst(draw):
    n = draw(st.sampled_from([2, 1, 3]))
    tiers = []
    for ty in ('words', 'glosses', 'translations'):
        tiers.append({'id': ty, 'type': ty, 'items': [
            dict({'id': '%s%d' % (ty, k),
                  'text': draw(st.sampled_from(PLAIN))},
                 **({'attrs': {'alignment': 'words%d' % k}}
                    if ty == 'glosses' else {}))
            for k in range(n)]})
    return {'corpus': {'igts': [{'id': 'i1', 'tiers': tiers}]},
            'items': draw(rules(True)), 'tiers': draw(rules(False)),
            'types': ['words', 'glosses'],
            'via': draw(st.sampled_from(['api', 'api', 'cli']))}


def apply_rules(text, ty, rs):
    used = False
    for pat, subs in rs:
        if re.match('(?:%s)' % pat, ty) is None:
            continue
        for rx, by in subs:
            if isinstance(by, list):
                fn = {'m.group(0).lower()': lambda m: m.group(0).lower(),
                      '"<" + m.group(0) + ">"':
                      lambda m: '<' + m.group(0) + '>'}[by[1]]
                new = re.sub(rx, fn, text)
            else:
                new = re.sub(rx, by, text)
            used |= new != text
            text = new
    return text, used


def check_subst(case, ctx):
    config = {'tier_types': case['types']}
    if case['items'] or len(case['tiers']) != 1:
        config['item_substitutions'] = case['items']
    if case['tiers']:
        config['tier_substitutions'] = case['tiers']
    out = c28.run(case, ctx, config)
    parts = c28.read(out, ctx)
    ctx.equal([k for k, _ in parts], ['example'], 'examples', out=out)
    rows, trans = parts[0][1]
    used = set()
    want = []
    for t in case['corpus']['igts'][0]['tiers']:
        ws = []
        for x in t['items']:
            w = x['text']
            u1 = False
            if t['type'] != 'translations':
                w, u1 = apply_rules(w, t['type'], case['items'])
            w, u2 = apply_rules(w, t['type'], case['tiers'])
            if u1 or u2:
                used.add(t['type'])
            ws.append(w)
        want.append(ws)
    ctx.equal(rows, want[:2], 'substitutions in the lines', out=out)
    ctx.equal(trans, want[2][:1], 'substitutions in the translation', out=out)
    ctx.label('applied to %d types' % len(used))
    ctx.nontrivial(len(used) in (1, 2))


SUBS = [Sub('escape', texts, check_text, quick=1000),
        Sub('substitutions', subst, check_subst, quick=400)]
