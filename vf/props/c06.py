"""C06: a truncated or broken document is never silently accepted."""
import io
import json
import os
import xml.parsers.expat

from hypothesis import strategies as st

from vf import gen, spec
from vf.core import Sub
from xigt.codecs import xigtjson, xigtxml

ID = 'C06'
TECHNIQUE = 'fault injection (every kind of truncation and damage) with a prefix invariant'
RULE = ('Cases are a saved corpus cut at any byte, or with a few bytes '
        'deleted, replaced or inserted, loaded in any mode through any '
        'channel; a plain expat / json parse decides whether the bytes are '
        'well-formed up to the end of the root; non-trivial = they are not, '
        'and the damage lies after the start of the root element.')
ASSUMPTIONS = ['what follows the end tag of the root element is not judged']

CFG = gen.Cfg(xml=True, both=True, max_igts=4, max_tiers=2, max_items=2,
              max_md=1, max_metas=1, mc_depth=2)


def cases():
    return st.fixed_dictionaries({
        'corpus': gen.corpora(CFG),
        'format': st.sampled_from(['xml', 'xml', 'json']),
        'mode': st.sampled_from(['full', 'incremental', 'transient']),
        'channel': st.sampled_from(['path', 'binary', 'text', 'loads']),
        'indent': st.sampled_from([2, None]),
        'pad': st.sampled_from([0, 0, 0, 0, 9000, 17000]),
        'damage': st.one_of(
            st.fixed_dictionaries({'cut': st.integers(0, 1000000)}),
            st.fixed_dictionaries({'cutend': st.integers(1, 60)}),
            st.fixed_dictionaries({
                'edits': st.lists(st.tuples(
                    st.sampled_from(['del', 'ins', 'set']),
                    st.integers(0, 1000000),
                    st.sampled_from('<>/"=&a {}[],:')).map(list),
                    min_size=1, max_size=2)})),
    })


def xml_verdict(data):
    """(well-formed up to the end of the root, bytes before the root)"""
    p = xml.parsers.expat.ParserCreate()
    st_ = {'depth': 0, 'done': False, 'started': False}

    def start(*a):
        st_['depth'] += 1
        st_['started'] = True

    def end(*a):
        st_['depth'] -= 1
        if st_['depth'] == 0:
            st_['done'] = True
    p.StartElementHandler, p.EndElementHandler = start, end
    try:
        p.Parse(data, True)
    except xml.parsers.expat.ExpatError:
        pass
    return st_['done'], st_['started']


def apply_damage(data, dmg):
    n = len(data)
    if 'cut' in dmg:
        return data[:dmg['cut'] % n]
    if 'cutend' in dmg:
        return data[:max(0, n - dmg['cutend'])]
    for op, pos, ch in dmg['edits']:
        k = pos % max(1, len(data))
        c = ch.encode()
        if op == 'del':
            data = data[:k] + data[k + 1:]
        elif op == 'ins':
            data = data[:k] + c + data[k:]
        else:
            data = data[:k] + c + data[k + 1:]
    return data


def check(case, ctx):
    s, fmt, mode = case['corpus'], case['format'], case['mode']
    if case['pad']:
        s = dict(s, igts=[dict(g, attrs=dict(g.get('attrs') or {},
                                             pad='x' * case['pad']))
                          for g in s['igts']])
    codec = xigtxml if fmt == 'xml' else xigtjson
    xc = spec.build_corpus(s)
    whole = (xigtxml.dumps(xc, encoding='utf-8', indent=case['indent'])
             if fmt == 'xml' else
             xigtjson.dumps(xc, indent=case['indent']).encode('utf-8'))
    data = apply_damage(whole, case['damage'])
    if fmt == 'xml':
        ok, started = xml_verdict(data)
    else:
        started = True
        try:
            json.loads(data.decode('utf-8'))
            ok = True
        except ValueError:
            ok = False
    kind = sorted(case['damage'])[0]
    ctx.label(fmt + '-' + kind + ('-wellformed' if ok else '-broken'),
              'mode=' + mode, 'channel=' + case['channel'])
    if ok:
        return
    try:
        text = data.decode('utf-8')
    except UnicodeDecodeError:
        text = None
    channel = case['channel']
    if text is None and channel in ('loads', 'text'):
        channel = 'binary'
    if channel == 'loads':
        mode = 'full'
    ctx.nontrivial(started)
    igts = spec.expect('corpus', s, xml=fmt == 'xml')['children']
    fh = None
    seen = []
    finished = False
    try:
        if channel == 'loads':
            lc = codec.loads(text)
        elif channel == 'path':
            p = os.path.join(ctx.tmpdir(), 'f')
            with open(p, 'wb') as f:
                f.write(data)
            lc = codec.load(p, mode=mode)
        elif channel == 'binary':
            lc = codec.load(io.BytesIO(data), mode=mode)
        else:
            lc = codec.load(io.StringIO(text), mode=mode)
        if mode == 'full':
            finished = True
        else:
            for igt in lc:
                seen.append(spec.snap(igt))
            finished = True
    except Exception:
        pass
    if finished:
        ctx.fail('a damaged document was accepted without an error',
                 format=fmt, mode=mode, channel=channel,
                 damage=case['damage'], document=data[-300:])
    if kind != 'edits':
        ctx.equal(seen, igts[:len(seen)], 'igts delivered before the error '
                  'are not a prefix of the intact ones')
        ctx.label('delivered-before-error' if seen else 'none-delivered')


SUBS = [Sub('damage', cases, check, quick=400)]
