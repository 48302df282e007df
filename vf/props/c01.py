"""C01: XigtXML round-trip loses nothing."""
import io
import os

from hypothesis import strategies as st

from vf.core import Sub
from vf import gen, spec
from xigt.codecs import xigtxml

ID = 'C01'
TECHNIQUE = 'round-trip oracle over generated corpora, encodings, indents and channels'
RULE = ('Cases are corpus specs generated node by node (attributes, '
        'namespaces, text of legal XML characters, nested meta children) with '
        'an indent, an encoding and an I/O channel; non-trivial = at least '
        'one igt or metadata block and at least one of: text, attribute, '
        'namespace declaration, meta child.')
ASSUMPTIONS = [
    'igt/tier/item/metadata/meta elements are not themselves namespaced '
    '(the loader does not support that)',
    'namespaces used by meta children and attributes are declared in scope',
    'no characters illegal in XML 1.0',
]

ENCODINGS = ['utf-8', 'us-ascii', 'iso-8859-1', 'utf-16', 'UTF-8']
CHANNELS = ['str', 'bytes', 'bytes-ascii', 'path', 'binary', 'text',
            'bytesio', 'stringio']


def ascii_names(s):
    return all(k.isascii() for _, x in spec.walk('corpus', s)
               for k in list(x.get('attrs') or {}) + [x.get('name', '')])


def transfer(xc, channel, encoding, indent, d, s):
    """Save and reload a corpus through one channel; returns the corpus."""
    if not ascii_names(s):
        # names (unlike text) cannot be escaped in an 8-bit encoding
        channel = 'bytes' if channel == 'bytes-ascii' else channel
        encoding = encoding if encoding.lower().startswith('utf') else 'utf-8'
    p = os.path.join(d, 'x.xml')
    if channel == 'str':
        return xigtxml.loads(xigtxml.dumps(xc, indent=indent))
    if channel == 'bytes':
        return xigtxml.loads(
            xigtxml.dumps(xc, encoding=encoding, indent=indent))
    if channel == 'bytes-ascii':
        return xigtxml.loads(
            xigtxml.dumps(xc, encoding='us-ascii', indent=indent))
    if channel == 'path':
        xigtxml.dump(p, xc, encoding=encoding, indent=indent)
        return xigtxml.load(p)
    if channel == 'binary':
        with open(p, 'wb') as f:
            xigtxml.dump(f, xc, encoding=encoding, indent=indent)
        with open(p, 'rb') as f:
            return xigtxml.load(f)
    if channel == 'text':
        with open(p, 'w', encoding='utf-8') as f:
            xigtxml.dump(f, xc, indent=indent)
        with open(p, 'r', encoding='utf-8') as f:
            return xigtxml.load(f)
    if channel == 'bytesio':
        b = io.BytesIO()
        xigtxml.dump(b, xc, encoding=encoding, indent=indent)
        return xigtxml.load(io.BytesIO(b.getvalue()))
    if channel == 'stringio':
        b = io.StringIO()
        xigtxml.dump(b, xc, encoding='unicode', indent=indent)
        return xigtxml.load(io.StringIO(b.getvalue()))
    raise AssertionError(channel)


def interesting(s):
    nodes = list(spec.walk('corpus', s))
    return len(nodes) > 1 and any(
        x.get('text') or x.get('attrs') or x.get('nsmap')
        or x.get('children') for _, x in nodes)


def cases():
    return st.fixed_dictionaries({
        'corpus': gen.corpora(gen.Cfg(xml=True)),
        'indent': st.sampled_from([2, None, 0, 1, 4, 7]),
        'channel': st.sampled_from(CHANNELS),
        'encoding': st.sampled_from(ENCODINGS),
    })


def check(case, ctx):
    s = case['corpus']
    ctx.label(*spec.doc_labels(s))
    ctx.label('indent=%s' % case['indent'], 'channel=' + case['channel'],
              'encoding=' + case['encoding'])
    ctx.nontrivial(interesting(s))
    xc = spec.build_corpus(s)
    back = transfer(xc, case['channel'], case['encoding'], case['indent'],
                    ctx.tmpdir(), s)
    ctx.equal(spec.snap(back), spec.expect('corpus', s, xml=True),
              'the reloaded corpus differs from the saved one')


def large_cases():
    return st.fixed_dictionaries({
        'corpus': gen.corpora(gen.Cfg(xml=True, max_igts=4)),
        'indent': st.sampled_from([2, None, 1]),
        'channel': st.sampled_from(['path', 'binary', 'str']),
        'encoding': st.sampled_from(['utf-8', 'utf-16']),
        'repeat': st.integers(1, 60),
        'pad': st.integers(0, 40000),
    })


def enlarge(s, repeat, pad):
    """The same igts several times under fresh ids, plus padding text so
    that element boundaries fall anywhere relative to parser buffers."""
    igts = []
    for r in range(repeat):
        for k, g in enumerate(s['igts']):
            g = dict(g)
            if g.get('id') is not None:
                g['id'] = 'r%d-%d' % (r, k)
            igts.append(g)
    out = dict(s, igts=igts)
    if pad:
        out['metadata'] = list(s.get('metadata') or []) + [
            {'metas': [{'text': 'p' * pad}]}]
    return out


def check_large(case, ctx):
    s = enlarge(case['corpus'], case['repeat'], case['pad'])
    xc = spec.build_corpus(s)
    size = len(xigtxml.dumps(xc, indent=case['indent']))
    ctx.label('size>64K' if size > 65536 else 'size>16K' if size > 16384
              else 'size<=16K')
    ctx.nontrivial(size > 16384)
    back = transfer(xc, case['channel'], case['encoding'], case['indent'],
                    ctx.tmpdir(), s)
    ctx.equal(spec.snap(back), spec.expect('corpus', s, xml=True),
              'the reloaded corpus differs from the saved one')


WRAP = {
    'igt': ('<xigt-corpus>', '</xigt-corpus>'),
    'tier': ('<xigt-corpus><igt>', '</igt></xigt-corpus>'),
    'item': ('<xigt-corpus><igt><tier>', '</tier></igt></xigt-corpus>'),
    'metadata': ('<xigt-corpus>', '</xigt-corpus>'),
    'meta': ('<xigt-corpus><metadata>', '</metadata></xigt-corpus>'),
    'mc': ('<xigt-corpus><metadata><meta>',
           '</meta></metadata></xigt-corpus>'),
}
ENCODER = {
    'igt': xigtxml.encode_igt, 'tier': xigtxml.encode_tier,
    'item': xigtxml.encode_item, 'metadata': xigtxml.encode_metadata,
    'meta': xigtxml.encode_meta, 'mc': xigtxml.encode_metachild,
}


def unwrap(xc, kind):
    if kind == 'igt':
        return xc.igts[0]
    if kind == 'tier':
        return xc.igts[0].tiers[0]
    if kind == 'item':
        return xc.igts[0].tiers[0].items[0]
    md = xc.metadata[0]
    if kind == 'metadata':
        return md
    if kind == 'meta':
        return md.metas[0]
    return md.metas[0].children[0]


def part_cases():
    return st.fixed_dictionaries({
        'corpus': gen.corpora(gen.Cfg(xml=True)),
        'indent': st.sampled_from([2, None, 0]),
        'pick': st.integers(0, 40),
    })


def check_part(case, ctx):
    """Encoding one part on its own keeps everything, including the
    namespaces it needs from its context."""
    xc = spec.build_corpus(case['corpus'])
    objs = [o for o in spec.walk_objects(xc) if spec.kind_of(o) != 'corpus']
    if not objs:
        ctx.label('no-part')
        return
    obj = objs[case['pick'] % len(objs)]
    kind = spec.kind_of(obj)
    ctx.label('part=' + kind)
    ctx.nontrivial()
    text = ENCODER[kind](obj, indent=case['indent'])
    pre, post = WRAP[kind]
    back = unwrap(xigtxml.loads(pre + text + post), kind)
    want = normalise(spec.snap(obj))
    ctx.equal(spec.snap(back), want, 'the part encoded alone loads '
              'differently', encoded=text)


def normalise(d):
    d = dict(d)
    if d.get('text') == '' or (d['kind'] in ('meta', 'mc') and d.get('text')
                               and not d['text'].strip()):
        d['text'] = None
    for k in ('children', 'metadata'):
        if k in d:
            d[k] = [normalise(x) for x in d[k]]
    return d


PIECES = st.sampled_from(['', '<!-- first -->\n', 'head', '\n', 'é\n',
                          '# x\r\n', 'x' * 9000])


def stream_cases():
    return st.fixed_dictionaries({
        'corpora': st.lists(gen.corpora(gen.Cfg(xml=True, max_igts=2)),
                            min_size=1, max_size=3),
        'pieces': st.lists(PIECES, min_size=4, max_size=4),
        'indent': st.sampled_from([2, None, 0]),
        'channel': st.sampled_from(['text', 'text', 'binary', 'bytesio',
                                    'append', 'buffering']),
    })


def check_stream(case, ctx):
    """Documents written to an open file stand where the file was."""
    xs = [spec.build_corpus(s) for s in case['corpora']]
    pieces = case['pieces'][:len(xs) + 1]
    ctx.label('channel=' + case['channel'])
    ctx.nontrivial(any(pieces))
    p = os.path.join(ctx.tmpdir(), 'f')
    ind = case['indent']
    want = pieces[0].encode('utf-8')
    for x, t in zip(xs, pieces[1:]):
        want += xigtxml.dumps(x, encoding='utf-8', indent=ind) + \
            t.encode('utf-8')
    if case['channel'] in ('binary', 'bytesio', 'append'):
        f = io.BytesIO() if case['channel'] == 'bytesio' else \
            open(p, 'wb' if case['channel'] == 'binary' else 'ab')
        f.write(pieces[0].encode('utf-8'))
        for x, t in zip(xs, pieces[1:]):
            xigtxml.dump(f, x, indent=ind)
            f.write(t.encode('utf-8'))
    else:
        f = open(p, 'w', encoding='utf-8', newline='',
                 buffering=1 if case['channel'] == 'buffering' else -1)
        f.write(pieces[0])
        for x, t in zip(xs, pieces[1:]):
            xigtxml.dump(f, x, indent=ind)
            f.write(t)
    if case['channel'] == 'bytesio':
        got = f.getvalue()
    else:
        f.close()
        with open(p, 'rb') as f:
            got = f.read()
    ctx.check(got == want, 'what was written is not in order',
              got=repr(got[:300]), want=repr(want[:300]))


SUBS = [
    Sub('roundtrip', cases, check, quick=300),
    Sub('large', large_cases, check_large, quick=25),
    Sub('parts', part_cases, check_part, quick=120),
    Sub('streams', stream_cases, check_stream, quick=60),
]
