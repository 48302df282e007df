"""C03: XML and JSON forms of a corpus are interchangeable."""
import json

from hypothesis import strategies as st

from vf import files, gen, jobs, ling, spec
from vf.core import Sub
from vf.props.c01 import interesting
from xigt.codecs import xigtjson, xigtxml

ID = 'C03'
TECHNIQUE = 'differential and round-trip chains over the two formats'
RULE = ('Cases are corpora expressible in both formats and a chain of '
        'conversions; non-trivial = both formats occur in the chain and the '
        'corpus has an igt or metadata and some text, attribute, namespace '
        'or meta child.')
ASSUMPTIONS = ['the domain of C01']

CODEC = {'x': xigtxml, 'j': xigtjson}


XML = '{http://www.w3.org/XML/1998/namespace}'      # needs no declaration


@st.composite
def cases(draw):
    kind = draw(st.integers(0, 3))
    if kind == 3:
        s = draw(files.corpora(max_igts=3))
    else:
        s = draw(gen.corpora(gen.Cfg(xml=True, both=True, max_igts=2)))
    if kind < 2:
        s['igts'].append(dict(draw(ling.igts(ling.LCfg(lists=False))),
                              id='ling'))
    return {'corpus': s,
            'chain': draw(st.sampled_from(
                ['xj', 'jx', 'xjx', 'jxj', 'xxj', 'jjx', 'xjxj', 'x', 'j'])),
            'indents': draw(st.lists(st.sampled_from([2, None, 0]),
                                     min_size=4, max_size=4))}


def queries(xc):
    """Answers to attribute, id and value queries on a corpus."""
    out = []
    for o in spec.walk_objects(xc):
        for pre, uri in sorted(o.nsmap.items()):
            if not pre:
                continue
            for k in sorted(o.attributes):
                if k.startswith('{%s}' % uri):
                    name = k.split('}')[1]
                    out.append([o.get_attribute('%s:%s' % (pre, name)),
                                o.get_attribute(name, namespace=pre),
                                o.get_attribute(name, namespace=uri)])
        if spec.kind_of(o) != 'item':
            for c in spec.children_of(spec.kind_of(o), o):
                if c.id is not None:
                    out.append(o.get(c.id) is c)
    for igt in xc.igts:
        out.append(jobs.answers(igt))
    return out


def attr_names(x):
    """Names of attributes anywhere in the JSON form."""
    if isinstance(x, list):
        return [n for y in x for n in attr_names(y)]
    if not isinstance(x, dict):
        return []
    return list(x.get('attributes') or ()) + [
        n for k, y in x.items() if k not in ('attributes', 'namespaces')
        for n in attr_names(y)]


def check(case, ctx):
    s, chain = case['corpus'], case['chain']
    ctx.label('chain=' + chain, *spec.doc_labels(s))
    ctx.nontrivial(interesting(s) and 'x' in chain and 'j' in chain)
    xc = spec.build_corpus(s)
    usexml = False
    q = queries(spec.build_corpus(xmlize(s)))
    for k, indent in zip(chain, case['indents']):
        usexml |= k == 'x'
        text = CODEC[k].dumps(xc, indent=indent)
        if k == 'j':
            names = attr_names(json.loads(text))
            ctx.check(not any(n.startswith('{') and not n.startswith(XML)
                              for n in names),
                      'JSON names an attribute by its URI although a prefix '
                      'is declared', names=names, text=text)
        xc = CODEC[k].loads(text)
        ctx.equal(spec.snap(xc), spec.expect('corpus', s, xml=usexml),
                  'the corpus changed on the way', at=k, text=text)
    if usexml:
        ctx.equal(queries(xc), q, 'queries are answered differently')


def xmlize(s):
    """The spec with the texts XML cannot tell from absent ones removed."""
    if isinstance(s, dict):
        d = {k: v if k in ('attrs', 'nsmap') else xmlize(v)
             for k, v in s.items()}
        if 'text' in d and d['text'] == '':
            d['text'] = None
        return d
    if isinstance(s, list):
        return [xmlize(x) for x in s]
    return s


SUBS = [Sub('chain', cases, check, quick=200)]
