"""C07: serialising is read-only, repeatable and stable."""
import io
import json

from hypothesis import strategies as st

from vf import gen, spec
from vf.core import Sub
from vf.props.c01 import ENCODER, interesting
from xigt.codecs import xigtjson, xigtxml

ID = 'C07'
TECHNIQUE = ('invariant (structural snapshot) and metamorphic relations over '
             'generated corpora and sequences of serialisations')
RULE = ('Cases are one or two corpus specs and a sequence of serialisations '
        '(format, indent, whole or part) over them, a snapshot and the '
        'earlier outputs being compared after each; non-trivial = a corpus '
        'with content is serialised at least twice.')
ASSUMPTIONS = ['the corpora are in full mode']

FMTS = ['xml', 'json', 'xml-bytes', 'xml-dump', 'json-dump', 'part']


@st.composite
def cases(draw):
    cfg = gen.Cfg(xml=True, both=True, max_igts=2, loose=True)
    n = draw(st.sampled_from([1, 1, 2]))
    corpora = [draw(gen.corpora(cfg)) for _ in range(n)]
    ops = draw(st.lists(st.fixed_dictionaries({
        'c': st.integers(0, n - 1), 'fmt': st.sampled_from(FMTS),
        'indent': st.sampled_from([2, None, 0, 3]),
        'pick': st.integers(0, 20),
    }), min_size=1, max_size=6))
    return {'corpora': corpora, 'ops': ops}


def serialise(xc, op):
    fmt, indent = op['fmt'], op['indent']
    if fmt == 'xml':
        return xigtxml.dumps(xc, indent=indent)
    if fmt == 'xml-bytes':
        return repr(xigtxml.dumps(xc, encoding='utf-8', indent=indent))
    if fmt == 'xml-dump':
        b = io.BytesIO()
        xigtxml.dump(b, xc, indent=indent)
        return repr(b.getvalue())
    if fmt == 'json':
        return xigtjson.dumps(xc, indent=indent)
    if fmt == 'json-dump':
        b = io.StringIO()
        xigtjson.dump(b, xc, indent=indent)
        return b.getvalue()
    objs = [o for o in spec.walk_objects(xc) if spec.kind_of(o) != 'corpus']
    if not objs:
        return None
    o = objs[op['pick'] % len(objs)]
    return ENCODER[spec.kind_of(o)](o, indent=indent)


def check(case, ctx):
    xcs = [spec.build_corpus(s) for s in case['corpora']]
    before = [spec.snap(xc) for xc in xcs]
    parents = [[id(getattr(o, '_parent', None)) for o in spec.walk_objects(x)]
               for x in xcs]
    objects = [[id(o) for o in spec.walk_objects(x)] for x in xcs]
    seen = {}
    ctx.label('corpora=%d' % len(xcs))
    for rnd in (0, 1):
        for n, op in enumerate(case['ops']):
            xc = xcs[op['c']]
            ctx.label(op['fmt'])
            got = serialise(xc, op)
            key = json.dumps(op, sort_keys=True)
            if key in seen:
                ctx.equal(got, seen[key],
                          'serialising again gives something else', op=op)
            seen[key] = got
            for k, x in enumerate(xcs):
                ctx.equal(spec.snap(x), before[k],
                          'serialising changed corpus %d' % k, op=op)
                ctx.equal([id(o) for o in spec.walk_objects(x)], objects[k],
                          'serialising replaced objects', op=op)
                ctx.equal([id(getattr(o, '_parent', None))
                           for o in spec.walk_objects(x)], parents[k],
                          'serialising changed parents', op=op)
    ctx.nontrivial(any(interesting(s) for s in case['corpora']))


def stable_cases():
    return st.fixed_dictionaries({
        'corpus': gen.corpora(gen.Cfg(xml=True, both=True)),
        'indent': st.sampled_from([2, None, 0, 1]),
        'fmt': st.sampled_from(['xml', 'json']),
        'cycles': st.integers(1, 3),
    })


def check_stable(case, ctx):
    xc = spec.build_corpus(case['corpus'])
    ctx.label(case['fmt'], 'indent=%s' % case['indent'])
    ctx.nontrivial(interesting(case['corpus']))
    codec = xigtxml if case['fmt'] == 'xml' else xigtjson
    d = codec.dumps(codec.loads(codec.dumps(xc, indent=case['indent'])),
                    indent=case['indent'])
    for n in range(case['cycles']):
        d2 = codec.dumps(codec.loads(d), indent=case['indent'])
        ctx.equal(d2, d, 'load/save cycle %d changed the output'
                  % (n + 2))
        d = d2


SUBS = [Sub('readonly', cases, check, quick=150),
        Sub('stable', stable_cases, check_stable, quick=200)]
