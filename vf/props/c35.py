"""C35: parts of a corpus can be encoded and decoded on their own."""
import copy
import io
import json
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from vf import gen, spec
from vf.core import Sub
from vf.props import c01
from xigt.codecs import xigtjson, xigtxml

ID = 'C35'
TECHNIQUE = ('round-trip oracle over every kind of part of generated corpora, '
             'encoded inside of and without its context')
RULE = ('Cases are generated corpora with an index choosing the part (igt, '
        'tier, item, metadata, meta, nested meta child), attached to its '
        'corpus or not; the part is encoded alone, through text, and decoded '
        'alone; non-trivial = the part has attributes, children, a namespace '
        'or text.')
ASSUMPTIONS = ['as for the round trips of whole corpora']

ENCODE = {'corpus': xigtjson.encode, 'igt': xigtjson.encode_igt,
          'tier': xigtjson.encode_tier, 'item': xigtjson.encode_item,
          'metadata': xigtjson.encode_metadata, 'meta': xigtjson.encode_meta,
          'mc': xigtjson.encode_metachild}
DECODE = {'corpus': xigtjson.decode, 'igt': xigtjson.decode_igt,
          'tier': xigtjson.decode_tier, 'item': xigtjson.decode_item,
          'metadata': xigtjson.decode_metadata, 'meta': xigtjson.decode_meta,
          'mc': xigtjson.decode_metachild}


def cases(xml):
    return st.fixed_dictionaries({
        'corpus': gen.corpora(gen.Cfg(xml=xml)),
        'pick': st.integers(0, 60),
        'other': st.integers(0, 60),
        'indent': st.sampled_from([2, None, 0, 4]),
        'alone': st.sampled_from([None, 'declared'] + ([] if xml else
                                                       ['bare'])),
        'encoding': st.sampled_from(['unicode', 'utf-8', 'us-ascii', 'utf-16',
                                     'iso-8859-1']),
    })


def choose(case, ctx, which='pick'):
    """A part of the corpus: the object, and what it must be."""
    s = case['corpus']
    xc = spec.build_corpus(s)
    objs = list(spec.walk_objects(xc))
    k = case[which] % len(objs)
    o = objs[k]
    kind = spec.kind_of(o)
    if case['alone']:
        # the same part without the corpus around it
        specs = list(spec.walk('corpus', s))
        assert specs[k][0] == kind
        part = specs[k][1]
        if case['alone'] == 'declared':
            part = dict(part, nsmap=dict(o.nsmap))
        o = spec.build(kind, part)
    if which == 'pick':
        ctx.label('part=' + kind, 'alone=%s' % case['alone'])
    return xc, o, kind, spec.snap(o)


def rich(d):
    return d['attrs'] or d['ns'] or d.get('children') or d.get('text')


def check_json(case, ctx):
    xc, o, kind, want = choose(case, ctx)
    ctx.nontrivial(rich(want))
    whole = spec.snap(xc)
    data = ENCODE[kind](o)
    text = json.dumps(data, indent=case['indent'])
    back = DECODE[kind](json.loads(text))
    ctx.equal(spec.snap(back), want, 'the part decoded differs', text=text)
    # without text in between, and without touching the data
    kept = copy.deepcopy(data)
    two = DECODE[kind](data)
    ctx.equal(spec.snap(two), want, 'the part decoded from data differs',
              data=data)
    ctx.equal(data, kept, 'decoding changed the data')
    ctx.equal(ENCODE[kind](o), kept, 'encoded differently the second time')
    ctx.equal(ENCODE[kind](back), kept, 'the decoded part is encoded '
              'differently') if not mixed(want) else None
    # nothing is shared with the data
    for x in spec.walk_objects(two):
        x.attributes['zz'] = 'q'
    ctx.equal(data, kept, 'changing the decoded part changes the data')
    ctx.equal(spec.snap(o), want, 'the part changed')
    ctx.equal(spec.snap(xc), whole, 'the corpus changed')
    # what has been encoded before does not matter
    _, o2, kind2, want2 = choose(case, ctx, 'other')
    d2 = ENCODE[kind2](o2)
    d1 = ENCODE[kind](o)
    ctx.equal(d1, kept, 'encoding depends on what was encoded before')
    ctx.equal(spec.snap(DECODE[kind2](d2)), want2, 'another part differs')


def mixed(d):
    """Whether several prefixes in scope stand for one namespace (either may
    be written)."""
    return len(set(d['scope'].values())) < len(d['scope']) or any(
        mixed(c) for c in d.get('metadata', []) + d.get('children', []))


def check_xml(case, ctx):
    xc, o, kind, want = choose(case, ctx)
    want = c01.normalise(want)
    ctx.nontrivial(rich(want))
    enc = case['encoding']
    if not c01.ascii_names(case['corpus']) and enc in ('us-ascii',
                                                       'iso-8859-1'):
        enc = 'utf-8'
    ctx.label('encoding=' + enc)
    if kind == 'corpus':
        encode = xigtxml.encode_xigtcorpus
    else:
        encode = c01.ENCODER[kind]
    whole = spec.snap(xc)
    text = encode(o, encoding=enc, indent=case['indent'])
    ctx.check(isinstance(text, str if enc == 'unicode' else bytes),
              'wrong type of result', got=type(text), encoding=enc)
    ctx.equal(encode(o, encoding=enc, indent=case['indent']), text,
              'encoded differently the second time')
    ctx.equal(spec.snap(xc), whole, 'the corpus changed')
    # it is a document of its own
    root = ET.parse(io.StringIO(text) if enc == 'unicode'
                    else io.BytesIO(text)).getroot()
    ctx.equal(root.tag.rpartition('}')[2],
              want['name'] if kind == 'mc' else
              'xigt-corpus' if kind == 'corpus' else kind, 'root element')
    if enc != 'unicode':
        plain = text.decode('utf-8' if enc == 'us-ascii' else enc)
        if plain.startswith('<?xml'):
            plain = plain[plain.index('?>') + 2:].lstrip('\n')
    else:
        plain = text
    if kind == 'corpus':
        back = xigtxml.loads(text)
    else:
        pre, post = c01.WRAP[kind]
        back = c01.unwrap(xigtxml.loads(pre + plain + post), kind)
    ctx.equal(spec.snap(back), want, 'the part encoded alone loads '
              'differently', encoded=text)


SUBS = [Sub('json', lambda: cases(False), check_json, quick=250),
        Sub('xml', lambda: cases(True), check_xml, quick=250)]
