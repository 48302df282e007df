"""C04: all loading modes deliver the same corpus."""
import gc
import io
import os
import tracemalloc
import weakref

from hypothesis import strategies as st

from vf import files, gen, jobs, ling, spec
from vf.core import Sub
from vf.props import c03
from xigt.codecs import xigtjson, xigtxml

ID = 'C04'
TECHNIQUE = 'differential over loading modes with generated consumption histories'
RULE = ('Cases are a saved corpus, a format, a loading mode, a channel and a '
        'history of iterations (complete or stopped after k igts); '
        'non-trivial = at least two igts and a lazy mode.')
ASSUMPTIONS = ['the domain of C01; igt ids are unique']

CFG = gen.Cfg(xml=True, both=True, max_igts=5, max_tiers=2, max_items=2,
              max_md=1, max_metas=1, mc_depth=2)


@st.composite
def cases(draw):
    s = draw(st.one_of(gen.corpora(CFG), files.corpora(max_igts=6)))
    return {'corpus': s,
            'format': draw(st.sampled_from(['xml', 'json'])),
            'first': draw(st.sampled_from(['ask', 'look'])),
            'mode': draw(st.sampled_from(['incremental', 'transient',
                                          'full'])),
            'channel': draw(st.sampled_from(['path', 'text', 'binary'])),
            'pad': draw(st.sampled_from([0, 0, 0, 5000, 17000, 40000])),
            'steps': draw(st.lists(st.one_of(st.none(), st.integers(0, 5),
                                         st.integers(6, 40)),
                                   max_size=3)),
            # iterators that are used in turns
            'turns': draw(st.one_of(
                st.just([]), st.lists(st.integers(0, 2), min_size=2,
                                      max_size=12)))}


def check(case, ctx):
    s, mode = case['corpus'], case['mode']
    if case['pad']:
        # so that the igts arrive in different parser buffers
        s = dict(s, igts=[dict(g, attrs=dict(g.get('attrs') or {},
                                             pad='x' * case['pad']))
                          for g in s['igts']])
    codec = xigtxml if case['format'] == 'xml' else xigtjson
    p = os.path.join(ctx.tmpdir(), 'f')
    codec.dump(p, spec.build_corpus(s))
    want = spec.expect('corpus', s, xml=case['format'] == 'xml')
    igts, n = want['children'], len(s['igts'])
    ctx.label('mode=' + mode, 'format=' + case['format'], 'igts=%d' % n)
    ctx.nontrivial(n > 1 and mode != 'full')
    ask = case['pad'] == 0 and n <= 6
    first = case.get('first', 'look')
    told = [jobs.answers(g) for g in spec.build_corpus(
        c03.xmlize(s) if case['format'] == 'xml' else s)] if ask else []
    fh = None
    if case['channel'] == 'path':
        xc = codec.load(p, mode=mode)
    else:
        if case['channel'] == 'text':
            fh = open(p, encoding='utf-8')
        else:
            fh = open(p, 'rb')
        xc = codec.load(fh, mode=mode)
    try:
        # the corpus itself is complete at once
        head = dict(spec.snap_head(xc))
        ctx.equal(head, {k: v for k, v in want.items() if k != 'children'},
                  'corpus-level data', mode=mode)

        def see(igt, k, what):
            ctx.check(igt.corpus is xc, 'a delivered igt does not know its '
                      'corpus', mode=mode)
            if ask and first == 'ask':
                ctx.equal(jobs.answers(igt), told[k], 'queries are answered '
                          'differently', mode=mode, index=k)
            ctx.equal(spec.snap(igt), igts[k], what, mode=mode, index=k)
            if ask and first == 'look':
                ctx.equal(jobs.answers(igt), told[k], 'queries are answered '
                          'differently', mode=mode, index=k)

        if mode == 'transient':
            # a one-shot stream: stop wherever, go on later
            k = 0
            for stop in case['steps'] + [None]:
                it = iter(xc)
                m = 0
                while stop is None or m < stop:
                    try:
                        igt = next(it)
                    except StopIteration:
                        break
                    ctx.check(k < n, 'more igts than the file has')
                    see(igt, k, 'igt delivered in transient mode')
                    ctx.equal(len(xc), 0, 'a transient igt was retained')
                    k += 1
                    m += 1
                if stop is not None and m < stop:
                    break
            ctx.equal(k, n, 'number of igts delivered in transient mode')
            ctx.equal(len(xc), 0, 'a transient igt was retained')
        else:
            objs = {}
            got = 0
            its, at = {}, {}
            for j in case.get('turns', []):
                if j not in its:
                    its[j], at[j] = iter(xc), 0
                igt = next(its[j], None)
                if igt is None:
                    ctx.equal(at[j], n, 'an iteration ended early while '
                              'others were going on', mode=mode,
                              turns=case['turns'])
                    its.pop(j)
                    continue
                k = at[j]
                ctx.check(k < n, 'more igts than the file has', mode=mode,
                          turns=case['turns'])
                see(igt, k, 'igt delivered by one of several iterations')
                ctx.check(objs.setdefault(k, igt) is igt, 'another object '
                          'for the same igt', turns=case['turns'])
                at[j] += 1
                got = max(got, at[j])
            if len(its) > 1:
                ctx.label('in turns')
                if case['turns'][0] == 0:
                    # one iteration within another
                    its.clear()
                    for a, x in enumerate(xc):
                        ctx.check(objs.setdefault(a, x) is x, 'another object '
                                  'for the same igt')
                        ctx.equal([y.id for y in xc],
                                  [g['id'] for g in igts],
                                  'an iteration within another one')
                        got = n
            for stop in case['steps'] + [None, None]:
                k = 0
                it = iter(xc)
                while stop is None or k < stop:
                    try:
                        igt = next(it)
                    except StopIteration:
                        ctx.equal(k, n, 'iteration ended early or late',
                                  mode=mode, steps=case['steps'])
                        break
                    ctx.check(k < n, 'more igts than the file has',
                              mode=mode, steps=case['steps'])
                    see(igt, k, 'igt delivered by iteration')
                    if k in objs:
                        ctx.check(objs[k] is igt, 'another object for the '
                                  'same igt on a later iteration')
                    objs[k] = igt
                    k += 1
                    got = max(got, k)
                    if mode == 'incremental':
                        ctx.equal(len(xc), got, 'igts retained so far')
                        ctx.check(xc[k - 1] is igt, 'not found by position')
                        if igt.id is not None:
                            ctx.check(xc[igt.id] is igt and
                                      xc.get(igt.id) is igt,
                                      'not found by id')
            ctx.equal(len(xc), n, 'igts retained', mode=mode)
            ctx.equal(spec.snap(xc), want, 'the corpus in the end')
    finally:
        if fh:
            fh.close()


@st.composite
def stream_cases(draw):
    return {'igts': draw(st.integers(30, 48)),
            'size': draw(st.sampled_from([1000, 1500])),
            'kind': draw(st.sampled_from(['item', 'item', 'tier', 'meta'])),
            'mode': draw(st.sampled_from(['transient', 'incremental'])),
            'encoding': draw(st.sampled_from(['utf-8', 'utf-8', 'utf-16'])),
            'indent': draw(st.sampled_from([2, None])),
            'hold': draw(st.integers(0, 3))}


def big_igt(case, k):
    n = case['size']
    word = 'word%d ' % k * 3
    if case['kind'] == 'item':
        return {'id': 'i%d' % k, 'tiers': [{'id': 't', 'items': [
            {'id': 't%d' % j, 'text': word} for j in range(n)]}]}
    if case['kind'] == 'tier':
        return {'id': 'i%d' % k, 'tiers': [
            {'id': 't%d' % j, 'type': 'x', 'items': [
                {'id': 't%d-1' % j, 'text': word}]} for j in range(n // 2)]}
    return {'id': 'i%d' % k, 'metadata': [{'metas': [
        {'type': 'm', 'text': word} for j in range(n)]}]}


class Counting(io.BytesIO):
    """An open file that knows how much of it was read."""
    taken = 0

    def read(self, *args):
        b = io.BytesIO.read(self, *args)
        self.taken += len(b)
        return b

    def read1(self, *args):
        b = io.BytesIO.read1(self, *args)
        self.taken += len(b)
        return b

    def readinto(self, into):
        n = io.BytesIO.readinto(self, into)
        self.taken += n
        return n


AHEAD = 300000      # bytes that may be read in advance


def check_stream(case, ctx):
    """igts are read as they are asked for; transient ones go away."""
    enc, mode, n = case['encoding'], case['mode'], case['igts']
    s = {'id': 'c', 'attrs': {'n': '1'},
         'igts': [big_igt(case, k) for k in range(n)]}
    data = xigtxml.dumps(spec.build_corpus(s), encoding=enc,
                         indent=case['indent'])
    mark = [('id="i%d"' % k).encode(enc)[2 if enc == 'utf-16' else 0:]
            for k in range(n)]
    # where an igt begins, and what the one before it needs at most
    ends = [data.index(m) for m in mark[1:]] + [len(data)]
    fh = Counting(data)
    ctx.label('mode=' + mode, 'size=%dk' % (len(data) // 100000 * 100))
    ctx.nontrivial(len(data) > 3 * AHEAD)
    tracemalloc.start()
    try:
        xc = xigtxml.load(fh, mode=mode)
        ctx.check(fh.taken <= ends[0] + AHEAD, 'the whole file is read at '
                  'once', mode=mode, taken=fh.taken, of=len(data))
        gone, held, used = [], [], []
        k = 0
        for igt in xc:
            ctx.equal(igt.id, 'i%d' % k, 'igt delivered')
            ctx.equal(xc.id, 'c', 'id of the corpus')
            ctx.equal(igt.get_attribute('n', inherit=True), '1', 'inherited')
            ctx.check(fh.taken <= ends[k] + AHEAD, 'more is read than the '
                      'igts asked for need', mode=mode, taken=fh.taken,
                      igt=k, of=len(data))
            gone.append(weakref.ref(igt))
            if len(held) < case['hold']:
                held.append(igt)
            k += 1
            if k in (n // 4, n - 1):
                gc.collect()
                used.append(tracemalloc.get_traced_memory()[0])
        ctx.equal(k, n, 'igts delivered', mode=mode)
    finally:
        tracemalloc.stop()
    if mode == 'transient':
        ctx.check(used[1] - used[0] <= .4 * len(data), 'memory grows with '
                  'the igts that were delivered', used=used, of=len(data))
        del igt
        gc.collect()
        left = [k for k, r in enumerate(gone)
                if r() is not None and not any(r() is h for h in held)]
        ctx.check(not left, 'igts are still there', left=left)
    ctx.equal(len(xc), n if mode == 'incremental' else 0, 'retained')
    for k, h in enumerate(held):
        # what is kept by the user stays whole
        ctx.equal(spec.snap(h), spec.expect('igt', big_igt(case, k),
                                            xml=True), 'an igt that was kept')


SUBS = [Sub('stream', stream_cases, check_stream, quick=3),
        Sub('modes', cases, check, quick=250)]
