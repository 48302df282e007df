"""Generated corpus files for the command-line programs."""
from hypothesis import strategies as st

from vf import gen, ling, spec, xmlwrite, xpath

NSMAP = xpath.NSMAP
NUMBERED = ['a1', 'a2', 'a10', 'a01', 'a1b2', 'a1b10', '9', '10', '1.5', '1.10',
            'b', 'B', 'a', 'a ', 'é2', 'é10', '٣', '2', 'x-2', 'x-10',
            '1000000000', '999999999', 'a12345678901234567890', 'a2147483648',
            '', 'a²']
OLAC = '{%s}code' % NSMAP['olac']
XML_CFG = gen.Cfg(True, max_md=1, max_metas=2, max_mc=2, mc_depth=2,
                  default_ns=False, prefixes=['a', 'p-1', 'ns0', 'x.y'])


def metadata(draw, scope):
    """Language metadata as in real corpora, or anything."""
    out = []
    k = draw(st.integers(0, 3))
    if k == 1:
        out.append({'id': None, 'type': 'xigt-meta', 'metas': [
            {'type': 'language', 'children': [
                {'name': 'subject', 'ns': NSMAP['dc'],
                 'attrs': {OLAC: draw(st.sampled_from(
                     ['jpn', 'deu', 'a:b', 'a/b', 'a-b']))},
                 'text': draw(st.sampled_from(['Japanese', 'x', None]))}
            ]}]})
    elif k == 2:
        out += gen._metadatas(draw, XML_CFG, scope)
    return out


def sprinkle(draw, s, keys=('doc-id', 'n', 'state')):
    a = s.setdefault('attrs', {})
    for k in keys:
        if draw(st.integers(0, 2)):
            a[k] = draw(st.sampled_from(NUMBERED))


@st.composite
def corpora(draw, igt_ids=None, max_igts=4, cfg=None, min_igts=0,
            nsmap=None):
    nsmap = nsmap or NSMAP
    cfg = cfg or ling.LCfg(max_tiers=3, max_items=3, min_tiers=0,
                           none_ids=False)
    s = {'id': draw(st.sampled_from([None, 'c', 'c1'])),
         'nsmap': dict(nsmap)}
    sprinkle(draw, s, ['n'])
    s['metadata'] = metadata(draw, nsmap)
    s['igts'] = []
    n = draw(st.sampled_from(
        [k for k in (3, 2, 4, 1, 0, 5, 6) if min_igts <= k <= max_igts]))
    ids = igt_ids or ['i1', 'i2', 'i10', 'x-2', 'x-10', 'a', 'B']
    ids = list(draw(st.permutations(ids)))
    if max_igts > 2 and draw(st.integers(0, 24)) == 24:
        # now and then, many
        n = draw(st.sampled_from([10, 12, 15]))
        ids += ['%s%d' % (igt_ids[0] + 'x' if igt_ids else 'i', k)
                for k in range(11, 26)]
        cfg = ling.LCfg(**dict(cfg.args, max_tiers=2, max_items=2,
                               big=False, min_tiers=min(cfg.min_tiers, 2)))
    for k in range(n):
        g = draw(ling.igts(cfg))
        g['id'] = ids.pop() if draw(st.integers(0, 5)) else None
        sprinkle(draw, g)
        if draw(st.booleans()):
            g['type'] = draw(st.sampled_from(['t1', 't2', 't10']))
        g['metadata'] = metadata(draw, nsmap)
        for t in g['tiers']:
            sprinkle(draw, t, ['n'])
            if draw(st.integers(0, 4)) == 0:
                t['metadata'] = metadata(draw, nsmap)
            for x in t['items']:
                sprinkle(draw, x, ['n'])
                if x.get('text') == '':
                    del x['text']
                elif draw(st.integers(0, 3)) == 0 and 'text' in x:
                    x['text'] = draw(st.sampled_from(NUMBERED[:-2]))
        s['igts'].append(g)
    for kind, x in spec.walk('corpus', s):
        # what XML does not tell from no text
        if kind in ('meta', 'mc') and not (x.get('text') or '').strip():
            x.pop('text', None)
    return s


def write(path, s, choices=()):
    w = xmlwrite.Writer(list(choices))
    with open(path, 'wb') as f:
        f.write(w.document(s, 'utf-8').encode('utf-8'))


def expect(s, scope=None, kind='corpus', want_scope=True):
    return spec.expect(kind, s, scope, xml=True, want_scope=want_scope)
