"""C05: loading depends on the document, not on how its XML is spelled."""
import io
import os

from hypothesis import strategies as st

from vf import gen, spec, xmlwrite
from vf.core import Sub
from vf.props.c01 import ascii_names, enlarge, interesting
from xigt.codecs import xigtxml

ID = 'C05'
TECHNIQUE = 'metamorphic/differential against an independent XML writer'
RULE = ('Cases are a corpus spec and a list of spelling choices driving an '
        'independent XML writer, an encoding and a loading channel; '
        'non-trivial = the corpus has content and at least one spelling '
        'variation (CDATA, character reference, comment, CRLF, local '
        'namespace declaration) was used.')
ASSUMPTIONS = ['documents are well-formed and follow the XigtXML schema '
               '(metadata first, no text between elements)']

CHANNELS = ['str', 'path', 'binary', 'bytesio', 'bytes', 'text']


def choices():
    return st.lists(st.integers(0, 255), max_size=40)


def cases():
    return st.fixed_dictionaries({
        'corpus': gen.corpora(gen.Cfg(xml=True)),
        'choices': choices(),
        'encoding': st.sampled_from(['utf-8', 'utf-16', 'iso-8859-1',
                                     'us-ascii', 'UTF-8']),
        'channel': st.sampled_from(CHANNELS),
        'local': st.booleans(),
    })


def document(s, case):
    enc = case['encoding']
    if not ascii_names(s) and enc in ('iso-8859-1', 'us-ascii'):
        enc = 'utf-8'
    limit = {'iso-8859-1': 256, 'us-ascii': 128}.get(enc, 0x110000)
    w = xmlwrite.Writer(case['choices'], lambda c: ord(c) < limit,
                        case['local'])
    return w.document(s, enc), enc, w.used


def load(doc, enc, channel, d):
    data = doc.encode(enc)
    if channel == 'str':
        return xigtxml.loads(doc)
    if channel == 'bytes':
        return xigtxml.loads(data)
    if channel == 'bytesio':
        return xigtxml.load(io.BytesIO(data))
    p = os.path.join(d, 'f.xml')
    with open(p, 'wb') as f:
        f.write(data)
    if channel == 'path':
        return xigtxml.load(p)
    if channel == 'text':
        with open(p, encoding=enc, newline='') as f:
            return xigtxml.load(f)
    with open(p, 'rb') as f:
        return xigtxml.load(f)


def compare(ctx, s, case):
    doc, enc, used = document(s, case)
    ctx.label('encoding=' + enc, 'channel=' + case['channel'], *used)
    ctx.nontrivial(interesting(s) and used - {'empty-tag'})
    xc = load(doc, enc, case['channel'], ctx.tmpdir())
    scope = not (used & {'local-default-ns', 'local-prefix'})
    ctx.equal(spec.snap(xc, scope),
              spec.expect('corpus', s, xml=True, want_scope=scope),
              'the loaded corpus is not what the document says',
              document=doc)
    return len(doc)


def check(case, ctx):
    compare(ctx, case['corpus'], case)


def large_cases():
    return st.fixed_dictionaries({
        'corpus': gen.corpora(gen.Cfg(xml=True, max_igts=4)),
        'choices': choices(),
        'encoding': st.sampled_from(['utf-8', 'utf-16', 'iso-8859-1']),
        'channel': st.sampled_from(['path', 'binary', 'str']),
        'local': st.booleans(),
        'repeat': st.integers(1, 40),
        'pad': st.integers(0, 40000),
    })


def check_large(case, ctx):
    s = enlarge(case['corpus'], case['repeat'], case['pad'])
    n = compare(ctx, s, case)
    ctx.label('size>64K' if n > 65536 else 'size>16K' if n > 16384
              else 'size<=16K')


SUBS = [Sub('spelling', cases, check, quick=300),
        Sub('large', large_cases, check_large, quick=25)]
