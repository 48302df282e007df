"""Generators of igts with coherent tiers and references."""
from hypothesis import strategies as st

from vf import algn

REFATTRS = ['alignment', 'content', 'segmentation']
TIER_TYPES = ['phrases', 'words', 'morphemes', 'glosses', 'translations',
              'pos', None]
TIER_IDS = ['p', 'w', 'm', 'g', 't', 'pos', 'w-2', 'bi.1', 'x_']
# single letter ids that are parts of one another and longer ones
WORDS = ['inu=ga', 'san-biki', 'hoe-ru', 'dog', '', 'a', 'perro-s', '日本 語',
         'x\u0301y', 'DOG-NOM']


class LCfg:
    def __init__(self, max_tiers=5, max_items=4, refs='acyclic',
                 dangling=False, none_ids=False, lists=True, min_tiers=1,
                 text=None, refattrs=REFATTRS, p_ref=3, item_prefix=None,
                 multi=True, big=True):
        args = dict(locals())
        del args['self']
        self.__dict__.update(args, args=args)


def _expr(draw, cfg, pool, value):
    """An expression string over item ids in pool."""
    ids = st.sampled_from(pool)
    if value or not cfg.lists or draw(st.booleans()):
        small = draw(st.integers(0, 2))
        return algn.render(draw(algn.asts(
            ids, max_sel=1 if small else 3, max_spans=1 if small else 2,
            offsets=st.integers(0, 4) if small else algn.offsets)))
    return ' '.join(draw(st.lists(ids, min_size=1, max_size=3)))


@st.composite
def igts(draw, cfg):
    n = draw(st.sampled_from(list(range(cfg.min_tiers, cfg.max_tiers + 1))))
    names = draw(st.permutations(TIER_IDS))[:n] if draw(st.booleans()) \
        else ['t%d' % k for k in range(n)]
    tiers = []
    itemids = []
    # now and then, many tiers or many items
    big = draw(st.integers(0, 24)) if cfg.big else 0
    if big == 24:
        n = draw(st.sampled_from([10, 12]))
        # (not to be taken for ids of items)
        names = ['t' + 'abcdefghijkl'[k] for k in range(n)]
    elif big == 23:
        n = min(n, 2)
    for k in range(n):
        m = draw(st.sampled_from(
            [x for x in (2, 1, 3, 4, 0, 5, 6) if x <= cfg.max_items]))
        if big == 24:
            m = min(m, 2)
        elif big == 23 and m:
            m = draw(st.sampled_from([m, 10, 13]))
        # the order of ids is not always that of the items
        first = draw(st.sampled_from([1, 1, 8, 9]))
        ids = ['%s%d' % (names[k], j + first) for j in range(m)]
        itemids.append(draw(st.sampled_from([ids, ids, ids[::-1]])))
    for k in range(n):
        t = {'id': names[k], 'items': []}
        ty = draw(st.sampled_from(TIER_TYPES))
        if ty:
            t['type'] = ty
        attrs = {}
        target = {}
        for ra in cfg.refattrs:
            if draw(st.integers(0, cfg.p_ref - 1)) == 0:
                continue
            if cfg.refs == 'acyclic':
                cands = list(range(k))
            else:
                cands = list(range(n))
            if cfg.dangling and draw(st.integers(0, 9)) == 9:
                attrs[ra] = 'nope'
                continue
            if not cands:
                continue
            j = draw(st.sampled_from(cands))
            if attrs and not cfg.multi:
                continue
            attrs[ra] = names[j]
            target[ra] = j
        if attrs:
            t['attrs'] = attrs
        for i in itemids[k]:
            x = {'id': i}
            xa = {}
            for ra in attrs:
                pool = itemids[target[ra]] if ra in target else []
                if draw(st.integers(0, 5)) == 5:
                    continue
                if cfg.dangling and draw(st.integers(0, 9)) == 9:
                    pool = pool + ['zz9']
                    if draw(st.booleans()):
                        pool = ['zz9']
                if pool:
                    xa[ra] = _expr(draw, cfg, pool,
                                   ra in ('content', 'segmentation'))
            if xa:
                x['attrs'] = xa
            if not xa or draw(st.integers(0, 2)) == 0:
                if draw(st.integers(0, 7)) < 7:
                    x['text'] = draw(cfg.text or st.sampled_from(WORDS))
            if cfg.none_ids and draw(st.integers(0, 7)) == 7:
                x['id'] = None
            t['items'].append(x)
        if cfg.none_ids and draw(st.integers(0, 7)) == 7:
            t['id'] = None
        tiers.append(t)
    order = draw(st.permutations(range(n)))
    out = {'id': 'i1', 'tiers': [tiers[k] for k in order]}
    # references are attributes of tiers and items only
    if cfg.refattrs and draw(st.integers(0, 7)) == 7:
        out['attrs'] = {draw(st.sampled_from(cfg.refattrs)): names[0]
                        if n else 'w'}
    return out


# reference evaluation -------------------------------------------------

def value(igt, tier, item, refattrs=('content', 'segmentation')):
    """Reference value of an item spec. Raises Broken if a reference cannot
    be followed. igt, tier, item are specs (ids unique)."""
    if item.get('text') is not None:
        return item['text']
    attrs = item.get('attrs') or {}
    for ra in refattrs or ():
        if ra not in attrs:
            continue
        tid = (tier.get('attrs') or {}).get(ra)
        if tid is None:
            raise Undeclared()
        reftier = next((t for t in igt['tiers'] if t.get('id') == tid), None)
        if reftier is None:
            raise Broken()
        if not attrs[ra].strip():
            return ''       # it selects nothing
        ast = algn.parse(attrs[ra].strip())
        vals = {}
        for i in algn.ids(ast):
            x = next((x for x in reftier['items'] if x.get('id') == i), None)
            if x is None:
                raise Broken()
            vals[i] = value(igt, reftier, x)
        return algn.evaluate(ast, vals)
    return None


class Broken(Exception):
    """a reference that cannot be followed"""


class Undeclared(Exception):
    """the item's tier does not have the reference attribute"""


def word_ids(expr):
    """Ids named by an expression or an id list, in order (reference)."""
    out = []
    i, n = 0, len(expr)
    depth = 0
    cur = ''
    for c in expr + ' ':
        if c == '[':
            depth += 1
            if cur:
                out.append(cur)
            cur = ''
        elif c == ']':
            depth -= 1
        elif depth:
            pass
        elif c in '+, \t':
            if cur:
                out.append(cur)
            cur = ''
        else:
            cur += c
    return out
