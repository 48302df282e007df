"""C34: splitting any reference string loses nothing and always finishes."""
import re

from hypothesis import strategies as st

from vf import algn
from vf.core import Sub
from xigt import Igt, Tier, Item, ref
from xigt.errors import XigtError

ID = 'C34'
TECHNIQUE = ('algebraic laws over arbitrary and damaged reference strings, '
             'with a limit on the CPU time of every case')
RULE = ('Cases are strings made of repeated fragments (ids, digits, brackets, '
        'delimiters, signs, white space of every kind, other characters) or '
        'well-formed expressions with characters dropped, doubled and '
        'inserted; non-trivial = the string is neither a well-formed '
        'expression nor a plain list of ids.')
ASSUMPTIONS = ['strings of up to about a thousand characters']

FRAGMENTS = ['a1', 'b-2', 'a.b', 'x_', 'é', 'aé', '日', '[', ']', ':', ',',
             '+', '-', '.', '1', '12', '0', '1:2', '-1:-2', '[1:2]', '[1:2',
             '1:2]', '[]', '[:]', '[1:]', '[:2]', '[-', ' ', '\t', '\n',
             '\r\n', '\u00a0', '\u2028', '\x0b', '/', '"', '#', '&', ' a1 ',
             'a1[0:1]', 'a1[0:1+2:3]', '1:1', '.:.', '1.1:2', '\x00',
             '\U0001d7d8', '٣', '٣:٤', 'a1[٣:٤]', '²:1', 'a[²:1]', '_', '1a']


def pieces():
    frag = st.sampled_from(FRAGMENTS)
    part = st.one_of(
        frag, frag, frag, frag,
        st.text(max_size=4),
        st.builds(lambda f, n: f * n, frag, st.integers(2, 12)),
        st.builds(lambda f, g, n: (f + g) * n, frag, frag,
                  st.sampled_from([2, 5, 20, 40, 60])),
        st.builds(lambda f, g, h, n: (f + g + h) * n, frag, frag, frag,
                  st.sampled_from([3, 30])))
    return st.lists(part, max_size=7).map(''.join)


@st.composite
def damaged(draw):
    s = algn.render(draw(algn.asts(st.sampled_from(['a1', 'a2', 'b-2', 'x']),
                                   max_sel=4)))
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.integers(0, max(0, len(s) - 1)))
        how = draw(st.sampled_from(['drop', 'double', 'insert', 'swap']))
        if how == 'drop':
            s = s[:k] + s[k + 1:]
        elif how == 'double':
            s = s[:k + 1] + s[k:]
        elif how == 'insert':
            s = s[:k] + draw(st.sampled_from(FRAGMENTS)) + s[k:]
        else:
            s = s[:k] + s[k + 1:k + 2] + s[k:k + 1] + s[k + 2:]
    return s


def strings():
    return st.one_of(pieces(), damaged())


WELL = re.compile(r'[a-zA-Z][-.\w]*(\[-?\d+:-?\d+([+,]-?\d+:-?\d+)*\])?'
                  r'([+,][a-zA-Z][-.\w]*(\[-?\d+:-?\d+([+,]-?\d+:-?\d+)*\])?'
                  r')*\Z')
LIST = re.compile(r'\s*([a-zA-Z][-.\w]*(\s+[a-zA-Z][-.\w]*)*)?\s*\Z')
# what a selection looks like: an id, perhaps with something in brackets
SELECTION = re.compile(r'[a-zA-Z][-.\w]*(\[.*\])?\Z', re.DOTALL)

ONE = r'-?[.\d]+:-?[.\d]+'
RANGED = re.compile(r'([a-zA-Z][-.\w]*)\[((?:[^-.:\d]?' + ONE + r')+)\]\Z',
                    re.DOTALL)
SPAN = re.compile(r'([^-.:\d]?)(' + ONE + r')', re.DOTALL)


def label(s, ctx):
    well, lst = WELL.match(s), LIST.match(s)
    ctx.label('well-formed' if well else 'list' if lst else 'other')
    ctx.label('long' if len(s) > 100 else 'short')
    ctx.nontrivial(not well and not lst)


def subsequence(xs, ys):
    it = iter(ys)
    return all(any(x == y for y in it) for x in xs)


def expansion(piece):
    m = RANGED.match(piece)
    if not m:
        return piece
    return ''.join('%s%s[%s]' % (d, m.group(1), r)
                   for d, r in SPAN.findall(m.group(2)))


def check(s, ctx):
    label(s, ctx)
    sels = ref.selections(s)
    ctx.equal(''.join(sels), s, 'the pieces do not give back the string')
    ctx.check(all(sels), 'empty pieces', pieces=sels)
    bare = ref.selections(s, keep_delimiters=False)
    ctx.check(subsequence(bare, sels), 'pieces without delimiters are not '
              'among those with', bare=bare, all=sels)
    ctx.check(all(map(SELECTION.match, bare)),
              'a piece kept is no selection', bare=bare)
    e = ref.expand(s)
    spans = ref.spans(s)
    ctx.equal(''.join(spans), e, 'the spans do not give back the expansion')
    sbare = ref.spans(s, keep_delimiters=False)
    ctx.check(subsequence(sbare, spans), 'spans without delimiters are not '
              'among those with', bare=sbare, all=spans)
    ctx.check(all(map(SELECTION.match, sbare)), 'a span kept is no selection',
              bare=sbare)
    clear = sum(bool(SELECTION.match(p)) for p in sels) == len(bare)
    if clear:   # no delimiter that looks like a selection
        ctx.label('clear')
        ctx.equal(e, ''.join(map(expansion, sels)),
                  'the expansion is not that of its pieces', pieces=sels)
    c = ref.compress(s)
    ctx.check(isinstance(c, str), 'no string', got=c)
    found = ref.ids(s)
    ctx.check(subsequence([], found) and all(
        isinstance(i, str) and SELECTION.match(i) for i in found),
        'something that is no id', got=found)
    pos = 0
    for i in found:
        k = s.find(i, pos)
        ctx.check(k >= 0, 'ids are not in order of occurrence', ids=found)
        pos = k + len(i)
    if clear and not any(re.search('[a-zA-Z]', p[len(p.split('[')[0]):]
                                   if SELECTION.match(p) else p)
                         for p in sels):
        ctx.label('letters in ids only')
        ctx.equal(found, [p.split('[')[0] for p in bare],
                  'not the ids of the selections')
    # what comes before the first letter has no ids, nor a letter-free string
    if not re.search('[a-zA-Z]', s):
        ctx.equal((found, bare), ([], []), 'ids out of nothing')
    else:
        ctx.check(found, 'no id found')


def igt_cases():
    return st.fixed_dictionaries({
        'tier': st.one_of(st.just('a'), strings()),
        'items': st.lists(st.tuples(
            st.sampled_from(['alignment', 'segmentation', 'content']),
            strings()).map(list), min_size=1, max_size=3),
        'which': st.integers(0, 2)})


# segmentation may not be combined with the others
TIER_REFS = [lambda s: {'alignment': s, 'content': 'a'},
             lambda s: {'segmentation': s},
             lambda s: {'alignment': 'a', 'content': s}]


def check_igt(case, ctx):
    for ra, s in case['items']:
        label(s, ctx)
    igt = Igt(id='i', tiers=[
        Tier(id='a', type='words', items=[
            Item(id='a1', text='one'), Item(id='a2'), Item(id='x', text='')]),
        Tier(id='b', type='glosses', attributes=TIER_REFS[case['which']](
            case['tier']), items=[
                Item(id='b%d' % (k + 1), attributes={ra: s})
                for k, (ra, s) in enumerate(case['items'])
                if (ra == 'segmentation') == (case['which'] == 1)])])
    igt.refresh_indices()
    std = ['alignment', 'segmentation', 'content']
    for what, ras in (('cached', None), ('selected', std)):
        back = {}
        for o in [igt['a'], igt['b']] + igt['a'].items + igt['b'].items:
            r = igt.referents(o.id, ras)
            for ra in std:
                want = ref.ids(o.attributes.get(ra, ''))
                ctx.equal(r.get(ra, []), want, what + ' referents', id=o.id)
                for i in want:
                    back.setdefault((i, ra, isinstance(o, Tier)),
                                    set()).add(o.id)
        for kind, os in (('tier', igt.tiers), ('item', igt['a'].items
                                               + igt['b'].items)):
            for o in os:
                r = igt.referrers(o.id, ras)
                for ra in std:
                    got = set(r.get(ra, []))
                    # items and tiers naming each other are not covered
                    same = back.get((o.id, ra, kind == 'tier'), set())
                    other = back.get((o.id, ra, kind != 'tier'), set())
                    ctx.check(same <= got <= same | other,
                              what + ' referrers', id=o.id, ra=ra, got=got,
                              want=same)
    for x in igt['b'].items:
        try:
            v = x.value()
            ctx.check(v is None or isinstance(v, str), 'value is no text',
                      got=v)
            ctx.label('value')
        except (XigtError, KeyError, ValueError, AttributeError) as e:
            ctx.label('no value: ' + type(e).__name__)


SUBS = [Sub('string', strings, check, quick=1500),
        Sub('igt', igt_cases, check_igt, quick=400)]
