"""C02: XigtJSON round-trip loses nothing."""
import io
import json
import os

from hypothesis import strategies as st

from vf.core import Sub
from vf import gen, spec
from vf.props.c01 import interesting, enlarge
from xigt.codecs import xigtjson

ID = 'C02'
TECHNIQUE = 'round-trip oracle over generated corpora, indents and channels'
RULE = ('Cases are corpus specs generated node by node (any Unicode text, '
        'attributes, namespaces on every kind of object, nested meta '
        'children) with an indent and an I/O channel; non-trivial = at least '
        'one igt or metadata block and at least one of: text, attribute, '
        'namespace declaration, meta child.')
ASSUMPTIONS = [
    'the namespace declarations of an object extend or override those of the '
    'enclosing one (as the nested JSON form does)',
    'plain attribute keys contain no colon',
]

CHANNELS = ['str', 'path', 'handle', 'stringio']


def transfer(xc, channel, indent, d):
    p = os.path.join(d, 'x.json')
    if channel == 'str':
        return xigtjson.loads(xigtjson.dumps(xc, indent=indent))
    if channel == 'path':
        xigtjson.dump(p, xc, indent=indent)
        return xigtjson.load(p)
    if channel == 'handle':
        with open(p, 'w') as f:
            xigtjson.dump(f, xc, indent=indent)
        with open(p) as f:
            return xigtjson.load(f)
    b = io.StringIO()
    xigtjson.dump(b, xc, indent=indent)
    return xigtjson.load(io.StringIO(b.getvalue()))


def cases():
    return st.fixed_dictionaries({
        'corpus': gen.corpora(gen.Cfg(xml=False, raw=True)),
        'indent': st.sampled_from([2, None, 0, 1, 4]),
        'channel': st.sampled_from(CHANNELS),
    })


def check(case, ctx):
    s = case['corpus']
    ctx.label(*spec.doc_labels(s))
    ctx.label('indent=%s' % case['indent'], 'channel=' + case['channel'])
    ctx.nontrivial(interesting(s))
    xc = spec.build_corpus(s)
    back = transfer(xc, case['channel'], case['indent'], ctx.tmpdir())
    ctx.equal(spec.snap(back), spec.expect('corpus', s),
              'the reloaded corpus differs from the saved one')


def two_cases():
    return st.tuples(gen.corpora(gen.Cfg(xml=False, max_igts=1, max_md=1)),
                     gen.corpora(gen.Cfg(xml=False, max_igts=1, max_md=1))
                     ).map(list)


def check_two(case, ctx):
    """Corpora saved one after the other, with different namespaces, do not
    influence one another."""
    xs = [spec.build_corpus(s) for s in case]
    ctx.nontrivial(all(interesting(s) for s in case))
    texts = [xigtjson.dumps(x) for x in xs]
    texts.append(xigtjson.dumps(xs[0]))
    backs = [xigtjson.loads(t) for t in texts]
    for b, s in zip(backs, case + case[:1]):
        ctx.equal(spec.snap(b), spec.expect('corpus', s),
                  'a corpus saved next to another one differs')
    ctx.equal(json.loads(texts[2]), json.loads(texts[0]),
              'the same corpus is written differently the second time')


SUBS = [
    Sub('roundtrip', cases, check, quick=300),
    Sub('two', two_cases, check_two, quick=60),
]
