"""C24: validation reports exactly the constraint violations present."""
import os
import re

from hypothesis import strategies as st

from vf import algn, cli, ling, spec, xmlwrite
from vf.core import Sub

ID = 'C24'
TECHNIQUE = ('fault injection into generated documents against a reference '
             'validator; the command runs on real files')
RULE = ('Cases are one to three files (corpora with injected violations of '
        'any kind at any place, sometimes an unloadable one) and a verbosity; '
        'the parsed report is compared entry by entry with the expected one; '
        'non-trivial = two or more different problems are expected.')
ASSUMPTIONS = ['references are well-formed expressions or id lists without '
               'cycles; files exist',
               'spans starting at negative offsets are not used; whether '
               'repeated whole items or spans beyond the text overlap is not '
               'asserted']

RAS = ['alignment', 'segmentation', 'content']
CFG = ling.LCfg(max_tiers=4, max_items=3, min_tiers=0, refs='acyclic',
                dangling=True, none_ids=True, refattrs=RAS, p_ref=3)
off = st.one_of(st.integers(0, 4), st.integers(0, 9))


def exprs(pool):
    return st.one_of(
        algn.asts(st.sampled_from(pool), max_sel=3, max_spans=3,
                  offsets=off).map(algn.render),
        st.sampled_from(pool))


def doc_igt(draw):
    g = draw(ling.igts(CFG))
    tiers = g['tiers']
    # acyclic by construction: an item may refer to any item of a tier that
    # its tier refers to; rewrite references with non-negative spans
    every = [y['id'] for t in tiers for y in t['items'] if y['id']]
    for t in tiers:
        for x in t['items']:
            a = x.get('attrs') or {}
            for ra in a:
                ids = ling.word_ids(a[ra])
                tgt = next((u for u in tiers if u.get('id') and u['id'] ==
                            (t.get('attrs') or {}).get(ra)), None)
                if tgt and draw(st.booleans()):
                    ids = ids + [y['id'] for y in tgt['items'] if y['id']]
                elif every and draw(st.integers(0, 5)) == 0:
                    # an item of any tier
                    ids = ids + [draw(st.sampled_from(every))]
                if ra == 'alignment' and ' ' in a[ra] and draw(st.booleans()):
                    a[ra] = ' '.join(ids)
                else:
                    a[ra] = draw(exprs(sorted(set(ids))))
    # an empty text is no text in XML
    for t in tiers:
        for x in t['items']:
            if x.get('text') == '':
                del x['text']
    # faults
    if tiers and draw(st.booleans()):
        t = draw(st.sampled_from(tiers))
        k = draw(st.integers(0, 5))
        if k == 0 and t.get('attrs'):
            # undeclare on the tier, keep on the items
            del t['attrs'][draw(st.sampled_from(sorted(t['attrs'])))]
        elif k == 1:
            t['id'] = None
        elif k == 2:
            t.pop('type', None)
        elif k == 3:
            t.setdefault('attrs', {})[draw(st.sampled_from(RAS))] = 'zz'
        elif k == 4 and t['items']:
            # take the id of an item of another tier
            x = draw(st.sampled_from(t['items']))
            others = [y['id'] for u in tiers if u is not t
                      for y in u['items'] if y['id']]
            mine = {y['id'] for y in t['items']}
            others = [i for i in others if i not in mine]
            if others:
                x['id'] = draw(st.sampled_from(others))
        elif k == 5:
            t.setdefault('attrs', {})['alignment'] = ''
    return g


@st.composite
def files(draw):
    s = {'id': draw(st.sampled_from([None, 'c1', 'c2'])), 'igts': []}
    for k in range(draw(st.sampled_from([1, 1, 2, 0]))):
        g = doc_igt(draw)
        g['id'] = draw(st.sampled_from(['i1', 'i2', 'i3', None, 'i%d' % k]))
        s['igts'].append(g)
    bad = None
    if draw(st.integers(0, 9)) == 9:
        bad = draw(st.sampled_from(
            ['truncated', 'empty', 'text', 'dup-tier', 'dup-item', 'bad-id',
             'bytes', 'entity']))
    return {'corpus': s, 'bad': bad}


def cases():
    return st.fixed_dictionaries({
        'files': st.lists(files(), min_size=1, max_size=3),
        'v': st.sampled_from(['', '-v', '-vv', '-vvv', '-q', '-v -v',
                              '--verbose']),
        'color': st.sampled_from([False, False, True]),
    })


# reference validator ---------------------------------------------------

LEVEL = {'MUST': 40, 'SHOULD': 30, 'MAY': 20}


def problems(s, corpus_ids):
    """[(path, category, modal, details)], details = words that must be
    mentioned. category ending with '?' = may or may not be reported."""
    out = []
    top = ()
    if s.get('id') is None:
        out.append((top, 'id', 'MAY', []))
    elif s['id'] in corpus_ids:
        out.append((top, 'unique', 'MUST', []))
    gids = set()
    for i, g in enumerate(s['igts']):
        gp = (i,)
        if g['id'] is None:
            out.append((gp, 'id', 'SHOULD', []))
        elif g['id'] in gids:
            out.append((gp, 'unique', 'MUST', []))
        gids.add(g['id'])
        tiers = {t['id']: t for t in g['tiers'] if t.get('id')}
        iids = set()
        for j, t in enumerate(g['tiers']):
            tp = gp + (j,)
            ta = t.get('attrs') or {}
            if t.get('id') is None:
                out.append((tp, 'id', 'SHOULD', []))
            if not t.get('type'):
                out.append((tp, 'type', 'SHOULD', []))
            undeclared = {ra for x in t['items'] for ra in RAS
                          if ra in (x.get('attrs') or {}) and ra not in ta}
            if undeclared:
                out.append((tp, 'undeclared', 'MUST', sorted(undeclared)))
            for ra in RAS:
                if ta.get(ra) and ta[ra] not in tiers:
                    out.append((tp, 'tier-ref', 'MUST', [ra]))
            for k, x in enumerate(t['items']):
                xp = tp + (k,)
                xa = x.get('attrs') or {}
                if x.get('id') is None:
                    out.append((xp, 'id', 'SHOULD', []))
                else:
                    if x['id'] in iids:
                        out.append((xp, 'unique', 'MUST', []))
                    iids.add(x['id'])
                for ra in RAS:
                    if not xa.get(ra) or ta.get(ra) not in tiers:
                        continue
                    out.extend((xp,) + p for p in
                               item_problems(g, tiers[ta[ra]], ra, xa[ra]))
    return out


CUTS = sorted({x + d for x in algn.FAR + list(range(100))
               for d in range(-5, 6) if x + d >= 0})


def item_problems(g, reftier, ra, expr):
    items = {y['id']: y for y in reftier['items'] if y.get('id')}
    ids = ling.word_ids(expr)
    missing = [i for i in ids if i not in items]
    if missing:
        yield 'item-ref', 'MUST', [ra] + missing
    if ' ' in expr:
        sels = [[i, None] for i in ids]
    else:
        sels = algn.parse(expr)[::2]
    outside = []
    pos = {'explicit': {}, 'whole': {}, 'unclipped': {}}
    for i, spans in sels:
        if i not in items:
            continue
        try:
            n = len(ling.value(g, reftier, items[i]) or '')
        except (ling.Broken, ling.Undeclared):
            continue
        if spans is None:
            pos['whole'].setdefault(i, []).extend(range(n))
            pos['unclipped'].setdefault(i, []).extend(range(n))
            continue
        for a, b in spans[::2]:
            if a > n or b > n:
                outside.append('%s[%d:%d]' % (i, a, b))
            for k in pos:
                pos[k].setdefault(i, []).extend(
                    range(n)[a:b] if k != 'unclipped' else
                    range(a, b) if b < 2000 else
                    # far away: the ends of what there can be
                    [x for x in CUTS if a <= x < b])
    if outside:
        yield 'outside', 'SHOULD', outside
    over = {k: sorted(i for i, p in v.items() if len(p) > len(set(p)))
            for k, v in pos.items()}
    if over['explicit'] == over['whole'] == over['unclipped']:
        if over['explicit']:
            yield 'overlap', 'SHOULD', over['explicit']
    else:
        yield 'overlap?', 'SHOULD', []


# reading the report ----------------------------------------------------

CATEGORIES = [
    ('undeclared', 'specified on their <tier>'),
    ('tier-ref', '<tier> id'),
    ('item-ref', '<item> ids'),
    ('id', 'specify an id'),
    ('type', 'specify a type'),
    ('unique', 'unique'),
    ('outside', 'spans within'),
    ('overlap', 'overlap'),
]
HEAD = re.compile(r'( *)(corpus|igt|tier|item) (\d+)(?: \(id: "(.*)"\))?\s*$')
DEPTH = {'corpus': 0, 'igt': 1, 'tier': 2, 'item': 3}


def parse(text):
    """{file index: [(path, category, modal, message)]}, failed files"""
    text = re.sub(r'\x1b\[\d+m', '', text)
    out, heads, failed = {}, {}, set()
    path = []
    for line in text.splitlines():
        m = re.match(r'Corpus (\d+) \(.*failed to load', line)
        if m:
            failed.add(int(m.group(1)))
            continue
        m = HEAD.match(line)
        if m:
            d = DEPTH[m.group(2)]
            path = path[:d] + [int(m.group(3))]
            if len(path) != d + 1:
                raise ValueError('heading out of place: %r' % line)
            heads[tuple(path)] = m.group(4)
            continue
        m = re.match(r' *\* (.*)', line)
        if not m or not path:
            raise ValueError('unexpected line: %r' % line)
        msg = m.group(1)
        cat = next((c for c, k in CATEGORIES if k in msg), None)
        modal = [w for w in LEVEL if w in msg.split()]
        if cat is None or len(modal) != 1:
            raise ValueError('unknown message: %r' % line)
        out.setdefault(path[0], []).append(
            (tuple(path[1:]), cat, modal[0], msg))
    return out, heads, failed


BAD = {
    'truncated': lambda d: d[:-5],
    'empty': lambda d: b'',
    'text': lambda d: b'once upon a time',
    'bytes': lambda d: d.replace(b'<xigt-corpus', b'\xff<xigt-corpus', 1),
    'entity': lambda d: d.replace(b'</xigt-corpus>', b'&nope;</xigt-corpus>')
    if b'</xigt-corpus>' in d else b'<xigt-corpus>&nope;</xigt-corpus>',
}


def document(f):
    s = f['corpus']
    if f['bad'] == 'dup-tier':
        s = dict(s, igts=s['igts'] + [{'id': 'q', 'tiers': [
            {'id': 'a', 'items': []}, {'id': 'a', 'items': []}]}])
    elif f['bad'] == 'dup-item':
        s = dict(s, igts=s['igts'] + [{'id': 'q', 'tiers': [
            {'id': 'a', 'items': [{'id': 'x'}, {'id': 'x'}]}]}])
    elif f['bad'] == 'bad-id':
        s = dict(s, igts=s['igts'] + [{'id': '1', 'tiers': []}])
    data = xmlwrite.Writer([]).document(s, 'utf-8').encode('utf-8')
    return BAD.get(f['bad'], lambda d: d)(data)


def check(case, ctx):
    from xigt.scripts import xigt_validate
    d = ctx.tmpdir()
    names, want, bad = [], {}, set()
    corpus_ids = set()
    args = case['v'].split()
    level = {'': 40, '-v': 30, '--verbose': 30, '-vv': 20, '-v -v': 20,
             '-vvv': 10, '-q': 60}[case['v']]
    for k, f in enumerate(case['files']):
        names.append(os.path.join(d, 'f%d.xml' % k))
        with open(names[-1], 'wb') as fh:
            fh.write(document(f))
        if f['bad']:
            bad.add(k)
            ctx.label('bad-' + f['bad'])
            continue
        want[k] = problems(f['corpus'], corpus_ids)
        if f['corpus'].get('id'):
            corpus_ids.add(f['corpus']['id'])
    if case['color']:
        args.append('--color')
    status, text = cli.run(xigt_validate.main, args + names)
    try:
        got, heads, failed = parse(text)
    except ValueError as e:
        ctx.fail('the report is not understood: %s' % e, report=text)
    ctx.equal(sorted(failed), sorted(bad), 'files that failed to load',
              report=text)
    seen = set()
    unsure = False
    some = False
    for k in want:
        exp = [p for p in want[k] if LEVEL[p[2]] >= level]
        g = got.pop(k, [])
        maybe = {(p[0], 'overlap', p[2]) for p in exp if p[1] == 'overlap?'}
        exp = [p for p in exp if p[1] != 'overlap?']
        unsure |= bool(maybe)
        some |= bool(exp)
        for p in exp:
            seen.add(p[1])
            ctx.label(p[1])
        rest = list(g)
        for p in exp:
            hit = next((q for q in rest if q[:3] == p[:3] and all(
                mentions(q[3], w) for w in p[3])), None)
            if hit is None:
                ctx.fail('a problem is not reported', problem=p, file=k,
                         level=level, report=text)
            rest.remove(hit)
        rest = [q for q in rest if q[:3] not in maybe]
        if rest:
            ctx.fail('something is reported that is not a problem',
                     reported=rest, file=k, level=level, report=text)
        # headings name the right objects
        for p in exp:
            o = case['files'][k]['corpus']
            for depth, i in enumerate(p[0]):
                o = o[('igts', 'tiers', 'items')[depth]][i]
            ctx.equal(heads.get((k,) + p[0]), o.get('id'),
                      'id in the heading', report=text)
    ctx.check(not got, 'reports for files without problems', got=got,
              report=text)
    if bad or some:
        ctx.check(status not in (0, None), 'success in spite of problems',
                  report=text)
    elif not unsure:
        ctx.equal(status, 0, 'exit status', report=text)
    ctx.label('exit=%s' % status, 'level=%d' % level)
    ctx.nontrivial(len(seen) > 1)


def mentions(msg, word):
    return re.search(r'(?<![-.\w])%s(?![-.\w])' % re.escape(word), msg) \
        if not word.endswith(']') else word in msg


SUBS = [Sub('validate', cases, check, quick=400)]
