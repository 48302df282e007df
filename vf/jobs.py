"""Pieces of work ("jobs") on corpora, done in steps: generator functions that
yield between steps and return plain data. Any of them may be done alone,
after others, alternately with others or in a thread."""
import io
import json
import os
import pickle
import select
import signal
import sys
import threading

from vf import commands, spec, target
from xigt import ref, xigtpath
from xigt.codecs import xigtjson, xigtxml
from xigt.exporters import latex
from xigt.query import ancestors, descendants
from xigt.scripts import xigt_query, xigt_validate

PATHS = commands.QUERIES[:-2] + [
    'igt/tier/item/referent()/@id', '//item/referrer()/text()',
    '//tier[@type="words" or @alignment]/@id', '//metadata/meta/@type',
    '(igt | igt/tier)/@id', '//item[value()="dog"]/../@id',
    'metadata//dc:subject/@olac:code', 'igt[@id="i1"]//item/@id',
    './/tier[item/@n]/item[@n]/text()', '//item[', 'igt/nosuch()']
EXPRS = ['a1', 'a1[0:1]', 'a1[0:2+3:4],a1', 'a b  c', 'a1+a2[1:2,3:5]', '',
         'a1[1:2]+a1[2:3]', 'x_1 x-2', 'a1[0:2', '1a']


def outcome(call):
    try:
        return ['value', call()]
    except Exception as e:
        if not target.in_target(e):
            raise
        return ['error', type(e).__name__]


def brief(x):
    if x is None or isinstance(x, (str, int, float)):
        return x
    if isinstance(x, (list, tuple)):
        return [brief(y) for y in x]
    if type(x) in spec.KIND_OF:
        return spec.snap(x)
    return repr(type(x))


def brief_all(x):
    """As brief, for dictionaries and sequences of any kind as well."""
    if isinstance(x, dict):
        return {k: brief_all(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)) or hasattr(type(x), 'appendleft'):
        return [brief_all(y) for y in x]
    return brief(x)


def name(x):
    return None if x is None else [spec.kind_of(x), x.id]


def answers(igt):
    """What an igt and its parts say when asked: lookups by id, values,
    references, inherited metadata and attributes."""
    out = []
    objs = list(spec.walk_objects(igt))
    ids = [o.id for o in objs if o.id is not None] + ['nope']
    for i in ids:
        out.append([i, name(igt.get(i)), name(igt.get_item(i)),
                    name(igt.get_any(i)),
                    outcome(lambda: igt.referents(i)),
                    outcome(lambda: igt.referrers(i))])
    corpus = igt.corpus
    md = list(corpus.metadata) if corpus is not None else []
    types = sorted({m.type for x in md for m in x if m.type} |
                   {o.type for o in objs if o.type})
    top = [] if corpus is None else sorted(corpus.attributes)
    for o in objs:
        kind = spec.kind_of(o)
        row = [name(o), dict(o.nsmap)]
        if kind in spec.HAS_MD:
            row.append([brief(o.get_meta(t)) for t in types + ['nope']])
        for k in sorted(o.attributes) + top + ['nope']:
            row.append(o.get_attribute(k, inherit=True))
            for pre, uri in sorted(o.nsmap.items()):
                if pre and k.startswith('{%s}' % uri):
                    local = k.split('}')[1]
                    row.append([o.get_attribute('%s:%s' % (pre, local)),
                                o.get_attribute(local, namespace=pre),
                                o.get_attribute(local, namespace=uri,
                                                inherit=True)])
        if kind == 'item':
            row += [outcome(o.value), outcome(lambda: o.span(0, 1))]
        if kind in ('tier', 'item'):
            row += [outcome(o.referents), outcome(o.referrers)]
        out.append(row)
    return out


# reading ------------------------------------------------------------------

def contents(c, arg):
    out = []
    for g in c:
        out.append(spec.snap(g))
        yield
    return [spec.snap_head(c), out]


def xml(c, arg):
    yield
    a = outcome(lambda: xigtxml.dumps(c, indent=arg % 3))
    yield
    return [a, outcome(lambda: xigtxml.dumps(c, indent=None))]


def xml_parts(c, arg):
    out = []
    for g in c:
        out.append(outcome(lambda: xigtxml.encode_igt(g)))
        yield
        for t in g:
            out.append(outcome(lambda: xigtxml.encode_tier(t, indent=None)))
            yield
    for m in c.metadata:
        out.append(outcome(lambda: xigtxml.encode_metadata(m)))
        yield
    return out


def js(c, arg):
    yield
    a = outcome(lambda: xigtjson.dumps(c))
    yield
    return [a, outcome(lambda: xigtjson.encode(c))]


def js_parts(c, arg):
    out = []
    for g in c:
        out.append(outcome(lambda: xigtjson.encode_igt(g)))
        yield
        for m in g.metadata:
            out.append(outcome(lambda: xigtjson.encode_metadata(m)))
            yield
    for m in c.metadata:
        out.append(outcome(lambda: xigtjson.encode_metadata(m)))
        yield
    return out


def find(c, arg):
    path = PATHS[arg % len(PATHS)]
    out = []
    try:
        for x in xigtpath.iterfind(c, path):
            out.append(brief(x))
            yield
    except Exception as e:
        if not target.in_target(e):
            raise
        out.append(type(e).__name__)
    return out


def find_all(c, arg):
    out = []
    for k in range(3):
        path = PATHS[(arg + k) % len(PATHS)]
        yield
        try:
            out.append(brief(xigtpath.findall(c, path)))
        except Exception as e:
            if not target.in_target(e):
                raise
            out.append(type(e).__name__)
    return out


def values(c, arg):
    out = []
    for g in c:
        for t in g:
            for x in t:
                out.append([outcome(x.value), outcome(x.get_content),
                            outcome(lambda: x.resolve_ref('alignment'))])
            yield
    return out


def references(c, arg):
    out = []
    for g in c:
        ids = [t.id for t in g] + [x.id for t in g for x in t]
        for i in ids + ['nope']:
            if i is not None:
                out.append([i, outcome(lambda: brief(g.referents(i))),
                            outcome(lambda: brief(g.referrers(i)))])
                yield
    return out


def kin(c, arg):
    out = []

    def path(it):
        # (references may be circular)
        r = []
        for x in it:
            r.append(brief([name(x[0]), x[1], name(x[2]),
                            [name(y) for y in x[3]]]))
            if len(r) == 12:
                break
        return r
    for g in c:
        for t in g:
            for x in list(t)[:3]:
                out.append(outcome(lambda: path(ancestors(x))))
                yield
                out.append(outcome(lambda: path(descendants(x))))
                yield
    return out


def lookups(c, arg):
    out = []
    for g in c:
        out.append(name(c.get(g.id)) if g.id else None)
        out.append(name(g.get(arg % 4)))
        for ty in ('words', 'glosses', None):
            out.append([name(t) for t in g.select(type=ty)])
            yield
        out.append(outcome(lambda: brief(g.get_meta('language'))))
        for t in g:
            for i in ('alignment', 'n', 'nosuch'):
                out.append(t.get_attribute(i, inherit=True))
        out.append([repr(type(c)), len(c), len(g), g == g,
                    [g == h for h in c]])
        yield
    return out


def tex(c, arg):
    cfg = latex.prepare_config([
        {}, {'tier_types': ['words', 'glosses', 'morphemes']},
        {'tier_types': ['words', 'glosses'],
         'item_substitutions': [['words', [['a', 'b']]]]}][arg % 3])
    out = []
    it = latex.export_corpus(c, cfg)
    while True:
        r = outcome(lambda: next(it, None))
        out.append(r)
        if r[1] is None or r[0] == 'error':
            return out
        yield


def query(c, arg):
    agenda = [{'action': a, 'query': PATHS[(arg + k) % 6], 'subquery': '@id',
               'description': '{query} {match!s}'}
              for k, a in enumerate(['count', 'unique', 'tally'])]
    yield
    return outcome(lambda: [
        [n, commands.plain(str(d))]
        for n, d in xigt_query.process_agenda(c, agenda)])


def validate(c, arg):
    yield
    return outcome(lambda: commands.plain(repr(
        xigt_validate.validate_corpus(c, {}))))


def strings(c, arg):
    out = []
    for k in range(3):
        e = EXPRS[(arg + k) % len(EXPRS)]
        for f in (ref.expand, ref.compress, ref.selections, ref.spans,
                  ref.ids):
            out.append(outcome(lambda: f(e)))
        yield
    return out


READING = {f.__name__: f for f in (
    contents, xml, xml_parts, js, js_parts, find, find_all, values,
    references, kin, lookups, tex, query, validate, strings)}


# with a corpus of one's own -------------------------------------------------

def document_of(c):
    return xigtxml.dumps(c).encode('utf-8')


def load(c, arg):
    """Load what was saved, in some mode."""
    mode = ['full', 'incremental', 'transient'][arg % 3]
    if arg % 2:
        d = io.BytesIO(document_of(c))
        yield
        x = xigtxml.load(d, mode=mode)
    else:
        d = io.StringIO(xigtjson.dumps(c))
        yield
        x = xigtjson.load(d, mode=mode)
    yield
    out = [spec.snap_head(x)]
    for g in x:
        out.append(spec.snap(g))
        yield
    out.append(len(x))
    return out


def lazily(c, arg):
    """Load what was saved, igt by igt."""
    if arg % 4:
        x = xigtxml.load(io.BytesIO(document_of(c)),
                         mode=['incremental', 'transient'][arg % 2])
    else:
        x = xigtjson.load(io.StringIO(xigtjson.dumps(c)), mode='transient')
    out = [spec.snap_head(x)]
    yield
    for g in x:
        yield
        out.append(spec.snap(g))
        yield
    out.append(len(x))
    return out


def rename(c, arg):
    """Give new ids, with lookups between."""
    out = []
    for g in c:
        for t in g:
            for x in list(t):
                old, new = x.id, 'n%s' % x.id
                x.id = new
                out.append([outcome(lambda: name(g.get_item(old))),
                            outcome(lambda: name(g.get_item(new))),
                            outcome(lambda: brief(g.referrers(new)))])
                yield
    return [out, spec.snap(c)]


def rearrange(c, arg):
    """Remove, insert and sort."""
    out = []
    for g in list(c):
        if hasattr(g, 'sort_tiers'):
            out.append(outcome(g.sort_tiers))
            yield
        for t in list(g):
            if len(t) and arg % 2:
                x = t[arg % len(t)]
                t.remove(x)
                yield
                t.insert(0, x)
                out.append([name(y) for y in t])
            g.sort(key=lambda y: (y.type or '', y.id or ''))
            out.append([name(y) for y in g])
            yield
    c.sort(key=lambda y: y.id or '', reverse=bool(arg % 2))
    return [out, spec.snap(c)]


def relink(c, arg):
    """Change references, with questions between."""
    out = []
    for g in c:
        ids = [t.id for t in g]
        for t in g:
            t.alignment = ids[arg % len(ids)]
            out.append(brief(g.referrers(t.id)))
            yield
            for x in t:
                x.alignment = None
                x.text = 'T' + str(x.id)
                out.append([x.value(), brief(g.referents(x.id))])
            yield
            del t.attributes['alignment']
            out.append(brief(g.referents(t.id)))
    return [out, spec.snap(c)]


def grow(c, arg):
    """Copy parts into the corpus under new ids."""
    n = len(c)
    for g in list(c):
        d = xigtjson.decode_igt(xigtjson.encode_igt(g))
        yield
        d.id = None if arg % 2 else 'copy%d' % len(c)
        c.append(d)
        yield
    del c[0:n // 2]
    c.extend([])
    yield
    return spec.snap(c)


OWN = {f.__name__: f for f in (load, lazily, rename, rearrange, relink, grow)}
ALL = dict(READING, **OWN)


def finish(gen):
    while True:
        try:
            next(gen)
        except StopIteration as e:
            return e.value


def work(job, c):
    return ALL[job['kind']](c, job['arg'])


def alone(job, c):
    return finish(work(job, c))


def settle(x):
    """As it would be read from JSON."""
    return json.loads(json.dumps(x))


def pristine(fn, seconds=20):
    """settle(fn()) in a process of its own, which has done nothing else.
    ('value', result), ('error', text) or ('died', None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
            signal.alarm(300)
            sys.settrace(None)
            try:
                res = ('value', settle(fn()))
            except BaseException:
                import traceback
                res = ('error', traceback.format_exc())
            data = pickle.dumps(res)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    try:
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not chunks:
        return ('died', None)
    return pickle.loads(b''.join(chunks))


class Threads:
    """Runs functions in threads of which one runs at a time; after each of
    the given numbers of executed lines of the code under test the next one
    takes over. If that one cannot go on (because of a lock, say), the others
    are let loose."""

    def __init__(self, quanta, fine=False):
        self.quanta, self.k, self.fine = quanta, 0, fine
        self.left = quanta[0]
        self.switches = 0
        self.loose = False

    def run(self, fns):
        n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.alive = [True] * n
        results = [None] * n

        def body(i):
            self.wait(i)
            sys.settrace(self.tracer(i))
            try:
                results[i] = ['value', fns[i]()]
            except BaseException:
                import traceback
                results[i] = ['error', traceback.format_exc()]
            finally:
                sys.settrace(None)
                self.alive[i] = False
                self.hand_over(i)
        threading.stack_size(16 << 20)
        ts = [threading.Thread(target=body, args=(i,), daemon=True)
              for i in range(n)]
        for t in ts:
            t.start()
        self.sems[0].release()
        for t in ts:
            t.join(120)
        if any(t.is_alive() for t in ts):
            raise RuntimeError('the threads do not finish')
        return results

    def wait(self, i):
        while not self.loose and not self.sems[i].acquire(timeout=2):
            if i > 0 or self.switches:
                self.loose = True

    def hand_over(self, i):
        for d in range(1, len(self.sems) + 1):
            j = (i + d) % len(self.sems)
            if self.alive[j]:
                if j != i:
                    self.sems[j].release()
                return j
        return i

    def line(self, i):
        if self.loose:
            return
        self.left -= 1
        if self.left <= 0:
            self.k += 1
            self.left = self.quanta[self.k % len(self.quanta)]
            if self.hand_over(i) != i:
                self.switches += 1
                self.wait(i)

    def tracer(self, i):
        what = 'opcode' if self.fine else 'line'

        def local(frame, event, arg):
            if event == what:
                self.line(i)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(target.PKG):
                if self.fine:
                    frame.f_trace_opcodes = True
                return local
            return None
        return glob


def alternate(gens, turns):
    """Steps of the generators in the given order until all are done."""
    results = [None] * len(gens)
    live = list(range(len(gens)))
    k = steps = 0
    while live:
        i = live[turns[k % len(turns)] % len(live)]
        k += 1
        try:
            next(gens[i])
            steps += 1
        except StopIteration as e:
            results[i] = e.value
            live.remove(i)
    return results, steps
