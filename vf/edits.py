"""Model of editing containers: a container is a list of children in which
ids are unique. Shared by C13 (valid edits) and C14 (rejected edits)."""
from hypothesis import strategies as st

from vf import spec
from vf.core import CheckFailed
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild

IDS = ['a', 'b', 'c1', 'd-2', 'x.y', None, None]
TYPES = [None, 't', 'u', '']

# kind of container -> (make owner, container of owner, property, make child)
def _child_mc(s):
    x = MetaChild('n', text=s['text'], namespace=s.get('ns'))
    x.id, x.type = s['id'], s['type']
    return x


def _mk(cls):
    def make(s):
        return cls(id=s['id'], type=s['type'], namespace=s.get('ns'))
    return make


def _mkt(cls):
    def make(s):
        return cls(id=s['id'], type=s['type'], text=s['text'],
                   namespace=s.get('ns'))
    return make


NS = {'p': 'http://u1', 'q': 'http://u2'}
KINDS = {
    'corpus': (lambda: XigtCorpus(id='o'), lambda o: o, 'igts', _mk(Igt)),
    'igt': (lambda: Igt(id='o'), lambda o: o, 'tiers', _mk(Tier)),
    'tier': (lambda: Tier(id='o'), lambda o: o, 'items', _mkt(Item)),
    'metadata': (lambda: Metadata(id='o'), lambda o: o, 'metas', _mkt(Meta)),
    'meta': (lambda: Meta(id='o'), lambda o: o, 'children', _child_mc),
    'mc': (lambda: MetaChild('o'), lambda o: o, 'children', _child_mc),
    'corpus-md': (lambda: XigtCorpus(id='o'), lambda o: o.metadata,
                  'metadata', _mk(Metadata)),
    'igt-md': (lambda: Igt(id='o'), lambda o: o.metadata, 'metadata',
               _mk(Metadata)),
    'tier-md': (lambda: Tier(id='o'), lambda o: o.metadata, 'metadata',
                _mk(Metadata)),
}
ERRORS = (spec.XigtError, ValueError, TypeError, KeyError, IndexError,
          AttributeError)

pos = st.integers(-7, 7)
opt_pos = st.one_of(st.none(), pos)
slices = st.tuples(opt_pos, opt_pos,
                   st.sampled_from([None, None, 1, 2, -1, -2])).map(list)
pick = st.integers(0, 11)


def children():
    return st.fixed_dictionaries({
        'id': st.sampled_from(IDS), 'type': st.sampled_from(TYPES),
        'text': st.sampled_from([None, 'x', 'y']),
        'ns': st.sampled_from([None, None, None, NS['p'], NS['q']])})


def F(**kw):
    return st.fixed_dictionaries(
        {k: st.just(v) if isinstance(v, str) else v for k, v in kw.items()})


picks = st.lists(pick, max_size=4)
c = st.integers(0, 1)
VALID = st.one_of(
    F(op='append', c=c, x=pick), F(op='append', c=c, x=pick),
    F(op='insert', c=c, x=pick, pos=pos),
    F(op='setitem', c=c, x=pick, pos=pos, str=st.booleans()),
    F(op='setitem', c=c, x=pick, pos=pos, str=st.booleans()),
    F(op='del', c=c, pos=pos, str=st.booleans()),
    F(op='delid', c=c, k=pick), F(op='move', c=c, k=pick, pos=opt_pos),
    F(op='remove', c=c, k=pick), F(op='pop', c=c, pos=opt_pos),
    F(op='extend', c=c, xs=picks, gen=st.booleans()),
    F(op='iadd', c=c, xs=picks), F(op='propadd', c=c, xs=picks),
    F(op='set', c=c, xs=picks, gen=st.booleans()),
    F(op='setself', c=c, how=st.sampled_from(
        ['self', 'list', 'select', 'reversed', 'filter', 'slice'])),
    F(op='setitem', c=c, x=pick, pos=pos, str=st.booleans()),
    F(op='setsame', c=c, pos=pos),
    F(op='del', c=c, pos=pos, str=st.booleans()),
    F(op='delid', c=c, k=pick), F(op='delslice', c=c, sl=slices),
    F(op='remove', c=c, k=pick), F(op='removelike', c=c, k=pick),
    F(op='pop', c=c, pos=opt_pos), F(op='clear', c=c),
    F(op='reverse', c=c), F(op='sort', c=c),
    F(op='move', c=c, k=pick, pos=opt_pos),
    F(op='refresh', c=c),
)
HOW = st.sampled_from(['append', 'insert', 'extend', 'iadd', 'setitem',
                       'set', 'propadd', 'add', 'add_list'])
INVALID = st.one_of(
    F(op='dup', c=c, k=pick, how=HOW, pos=pos, before=picks, new=st.booleans()),
    F(op='dup', c=c, k=pick, how=HOW, pos=pos, before=picks, new=st.booleans()),
    F(op='wrong', c=c, how=HOW, pos=pos, before=picks,
      what=st.sampled_from(['kind', 'kind-id', 'str', 'none', 'dict', 'int',
                            'list'])),
    F(op='twice', c=c, how=st.sampled_from(['extend', 'iadd', 'set',
                                            'propadd', 'add_list']),
      x=pick, before=picks),
    F(op='absent', c=c, what=st.sampled_from(
        ['remove', 'delid', 'delpos', 'delstr', 'setpos', 'setstr', 'setid',
         'pop', 'getid', 'getpos', 'insertpos', 'setslice', 'setslice1',
         'removeother', 'poppos', 'setnone', 'iter']), x=pick, k=pick,
      far=st.sampled_from([0, 1, 5]), neg=st.booleans()),
)


@st.composite
def cases(draw, invalid=False):
    ops = VALID if not invalid else st.integers(0, 2).flatmap(
        lambda k: VALID if k == 2 else INVALID)
    many = draw(st.integers(0, 14)) == 14
    return {'kind': draw(st.sampled_from(sorted(KINDS))),
            'pool': draw(st.lists(children(), min_size=4, max_size=10))
            + [{'id': 'z%d' % k, 'type': TYPES[k % len(TYPES)], 'text': 'x',
                'ns': None} for k in range(12 if many else 0)],
            'init': [draw(st.lists(pick, min_size=1, max_size=6))
                     + list(range(-12, 0) if many else []),
                     draw(st.lists(pick, max_size=4))],
            'ops': draw(st.lists(ops, min_size=1, max_size=12))}


class Rejected(Exception):
    pass


class Model:
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.kind = case['kind']
        make, get, self.prop, self.mkchild = KINDS[self.kind]
        self.owners = [make(), make()]
        self.owners[0].nsmap = NS
        self.conts = [get(o) for o in self.owners]
        self.specs = list(case['pool'])
        self.objs = [self.mkchild(s) for s in self.specs]
        self.lists = [[], []]          # indices into objs
        self.nothing = object()

    # helpers
    def free(self):
        used = set(self.lists[0] + self.lists[1])
        return [k for k in range(len(self.objs)) if k not in used]

    def ids(self, c, without=None):
        return {self.specs[k]['id'] for k in self.lists[c]
                if k != without and self.specs[k]['id'] is not None}

    def fresh(self, c, k, without=()):
        """Can object k be added to container c?"""
        i = self.specs[k]['id']
        return i is None or i not in {
            self.specs[j]['id'] for j in self.lists[c] if j not in without}

    def acceptable(self, c, picks_, without=()):
        """Free objects that can be added one after the other."""
        free = self.free()
        out, ids = [], {self.specs[j]['id'] for j in self.lists[c]
                        if j not in without}
        for p in picks_:
            if not free:
                break
            k = free[p % len(free)]
            i = self.specs[k]['id']
            if i is None or i not in ids:
                out.append(k)
                ids.add(i)
                free.remove(k)
        return out

    def fail(self, msg, **kw):
        self.ctx.fail(msg, step=self.step, kind=self.kind, **kw)

    # the coherence of a container with its list
    def verify(self, c):
        cont, owner = self.conts[c], self.owners[c]
        want = [self.objs[k] for k in self.lists[c]]
        n = len(want)

        def same(got, exp, what):
            got = list(got)
            if len(got) != len(exp) or any(
                    a is not b for a, b in zip(got, exp)):
                self.fail(what, got=self.show(got), want=self.show(exp))

        same(list.__iter__(cont), want, 'contents')
        same(iter(cont), want, 'iteration')
        same(getattr(owner, self.prop), want, 'property ' + self.prop)
        same(reversed(cont), want[::-1], 'reversed')
        if len(cont) != n:
            self.fail('len', got=len(cont), want=n)
        if bool(cont) != bool(n):
            self.fail('truth value')
        for k in range(-n, n):
            for key in (k, str(k)):
                if cont[key] is not want[k]:
                    self.fail('[%r]' % (key,))
                if cont.get(key, self.nothing) is not want[k]:
                    self.fail('get(%r)' % (key,))
        for k in (n, n + 1, -n - 1):
            for key in (k, str(k)):
                if cont.get(key, self.nothing) is not self.nothing:
                    self.fail('get(%r) out of range' % (key,))
                try:
                    cont[key]
                except (KeyError, IndexError):
                    pass
                else:
                    self.fail('[%r] out of range' % (key,))
        for sl in (slice(None), slice(1, None), slice(None, -1),
                   slice(None, None, -1), slice(0, 2), slice(None, None, 2)):
            same(cont[sl], want[sl], 'slice %r' % sl)
        byid = {self.specs[k]['id']: self.objs[k] for k in self.lists[c]}
        for i in [i for i in IDS if i] + ['zz']:
            if i in byid:
                if cont[i] is not byid[i]:
                    self.fail('[id]', id=i)
                if cont.get(i) is not byid[i]:
                    self.fail('get(id)', id=i)
                same(cont.select(id=i), [byid[i]], 'select by id')
            else:
                if cont.get(i, self.nothing) is not self.nothing \
                        or cont.get(i) is not None:
                    self.fail('get finds an absent id', id=i)
                try:
                    cont[i]
                except KeyError:
                    pass
                else:
                    self.fail('[] finds an absent id', id=i)
                same(cont.select(id=i), [], 'select by absent id')
        same(cont.select(), want, 'select all')
        for t in TYPES:
            same(cont.select(type=t),
                 [self.objs[k] for k in self.lists[c]
                  if self.specs[k]['type'] == t], 'select by type')
            same(cont.select(type=t, id='a'),
                 [self.objs[k] for k in self.lists[c]
                  if self.specs[k]['type'] == t
                  and self.specs[k]['id'] == 'a'], 'select by type and id')
        for ns in ['p', 'q', 'zz'] + sorted(NS.values()):
            # a prefix that the container's owner knows, or a URI
            uri = NS.get(ns, ns) if c == 0 else ns
            same(cont.select(namespace=ns),
                 [self.objs[k] for k in self.lists[c]
                  if self.specs[k].get('ns') == uri], 'select by namespace')
        for k in self.lists[c]:
            x = self.objs[k]
            if not spec.has_parent(x, owner):
                self.fail('a child does not name its container as parent',
                          child=self.specs[k])
            for nm in ('corpus', 'igt', 'tier'):
                if nm == self.kind and getattr(x, nm) is not owner:
                    self.fail('child.%s is not its container' % nm)
            if x not in cont:
                self.fail('"in"')
            for a, b in (('id', 'id'), ('type', 'type'),
                         ('namespace', 'ns')):
                if getattr(x, a) != self.specs[k].get(b):
                    self.fail('a child was altered', child=self.specs[k])
        for k in self.free():
            if any(self.objs[k] is x for x in list.__iter__(cont)):
                self.fail('contains a removed child')

    def show(self, objs):
        out = []
        for o in objs:
            k = next((k for k, x in enumerate(self.objs) if x is o), None)
            out.append('#%s(%s)' % (k, o if k is None
                                    else self.specs[k]['id']))
        return out

    # valid edits; each applies the edit to both sides
    def apply(self, o):
        c = o['c']
        cont, owner, L = self.conts[c], self.owners[c], self.lists[c]
        op, n = o['op'], len(self.lists[c])
        free = self.free()
        one = None
        if 'x' in o and free:
            one = free[o['x'] % len(free)]
        if op == 'append':
            if one is None or not self.fresh(c, one):
                return False
            cont.append(self.objs[one])
            L.append(one)
        elif op == 'insert':
            if one is None or not self.fresh(c, one):
                return False
            cont.insert(o['pos'], self.objs[one])
            L.insert(o['pos'], one)
        elif op in ('extend', 'iadd', 'propadd'):
            ks = self.acceptable(c, o['xs'])
            xs = [self.objs[k] for k in ks]
            if op == 'extend':
                cont.extend(iter(xs) if o['gen'] else xs)
            elif op == 'iadd':
                cont += xs
                if cont is not self.conts[c]:
                    self.fail('+= made another container')
            elif self.prop == 'metadata':
                owner.metadata += xs
            else:
                setattr(owner, self.prop, getattr(owner, self.prop) + xs)
            L.extend(ks)
        elif op == 'set':
            ks = self.acceptable(c, o['xs'], without=L)
            xs = [self.objs[k] for k in ks]
            setattr(owner, self.prop, (x for x in xs) if o['gen'] else xs)
            L[:] = ks
        elif op == 'setself':
            how = o['how']
            if how == 'self':
                v = cont
            elif how == 'list':
                v = list(cont)
            elif how == 'select':
                v = cont.select(type='t')
                L[:] = [k for k in L if self.specs[k]['type'] == 't']
            elif how == 'filter':
                v = (x for x in cont if x.type == 'u')
                L[:] = [k for k in L if self.specs[k]['type'] == 'u']
            elif how == 'slice':
                v = cont[1:]
                L[:] = L[1:]
            else:
                v = reversed(cont)
                L.reverse()
            setattr(owner, self.prop, v)
        elif op in ('setitem', 'setsame'):
            if not n:
                return False
            p = o['pos'] % (2 * n) - n
            if op == 'setsame':
                one = L[p]
            if one is None or not self.fresh(c, one, without=[L[p]]):
                return False
            cont[str(p) if o.get('str') else p] = self.objs[one]
            L[p] = one
        elif op == 'del':
            if not n:
                return False
            p = o['pos'] % (2 * n) - n
            del cont[str(p) if o['str'] else p]
            del L[p]
        elif op == 'delid':
            ks = [k for k in L if self.specs[k]['id']]
            if not ks:
                return False
            k = ks[o['k'] % len(ks)]
            del cont[self.specs[k]['id']]
            L.remove(k)
        elif op == 'delslice':
            sl = slice(*o['sl'])
            del cont[sl]
            del L[sl]
        elif op == 'remove':
            if not n:
                return False
            k = L[o['k'] % n]
            cont.remove(self.objs[k])
            L.remove(k)
        elif op == 'removelike':
            # an equal object that is not contained: list semantics
            if not n:
                return False
            s = self.specs[L[o['k'] % n]]
            cont.remove(self.mkchild(s))
            L.remove(next(k for k in L if self.equal(self.specs[k], s)))
        elif op == 'pop':
            if not n:
                return False
            if o['pos'] is None:
                x, k = cont.pop(), L.pop()
            else:
                p = o['pos'] % (2 * n) - n
                x, k = cont.pop(p), L.pop(p)
            if x is not self.objs[k]:
                self.fail('pop returned another object')
        elif op == 'clear':
            cont.clear()
            L.clear()
        elif op == 'reverse':
            cont.reverse()
            L.reverse()
        elif op == 'sort':
            cont.sort(key=lambda x: x.id or '')
            L.sort(key=lambda k: self.specs[k]['id'] or '')
        elif op == 'move':
            d = 1 - c
            ks = [k for k in L if self.fresh(d, k)]
            if not ks:
                return False
            k = ks[o['k'] % len(ks)]
            cont.remove(self.objs[k])
            L.remove(k)
            if o['pos'] is None:
                self.conts[d].append(self.objs[k])
                self.lists[d].append(k)
            else:
                self.conts[d].insert(o['pos'], self.objs[k])
                self.lists[d].insert(o['pos'], k)
        elif op == 'refresh':
            cont.refresh_index()
        else:
            raise AssertionError(op)
        return True

    def equal(self, a, b):
        keys = ('id', 'type')
        if self.kind in ('tier', 'metadata', 'meta', 'mc'):
            keys += ('text',)
        return all(a[k] == b[k] for k in keys) \
            and a.get('ns') == b.get('ns')

    # edits that must be rejected
    def reject(self, o):
        """Attempt an invalid edit; returns False if it does not apply."""
        c = o['c']
        cont, owner, L = self.conts[c], self.owners[c], self.lists[c]
        op, n = o['op'], len(self.lists[c])
        prefix = []                 # bulk: acceptable ones offered before
        offered = []
        if op in ('dup', 'twice'):
            if op == 'dup':
                ks = [k for k in L if self.specs[k]['id']]
                if not ks:
                    return False
                k = ks[o['k'] % len(ks)]
                # the contained child itself or another with its id
                bad = self.objs[k]
                if o['new']:
                    bad = self.mkchild(dict(self.specs[k], type='other'))
                    offered.append(bad)
            else:
                free = [k for k in self.free() if self.specs[k]['id']
                        and self.fresh(c, k)]
                if not free:
                    return False
                k = free[o['x'] % len(free)]
                bad = self.mkchild(dict(self.specs[k], type='other'))
                offered += [bad]
        elif op == 'wrong':
            w = o['what']
            other = Tier if self.kind == 'corpus' else Igt
            bad = {'kind': lambda: other(),
                   'kind-id': lambda: other(id='q'),
                   'str': lambda: 'a', 'none': lambda: None,
                   'dict': lambda: {'id': 'a'}, 'int': lambda: 0,
                   'list': lambda: [self.mkchild(
                       dict(id='q', type=None, text=None))]}[w]()
            if w in ('kind', 'kind-id'):
                offered.append(bad)
        if op in ('dup', 'twice', 'wrong'):
            how = o['how']
            if how in ('extend', 'iadd', 'add_list', 'propadd', 'set'):
                without = L if how == 'set' else ()
                prefix = self.acceptable(c, o['before'], without=without)
                if op == 'twice':
                    prefix = [j for j in prefix if self.specs[j]['id']
                              != self.specs[k]['id']] + [k]
                elif op == 'dup' and how == 'set':
                    # the whole new set has an id twice
                    if not o['new']:
                        return False
                    prefix = [j for j in prefix if self.specs[j]['id']
                              != self.specs[k]['id']] + [k]
                xs = [self.objs[j] for j in prefix] + [bad]
                call = {
                    'extend': lambda: cont.extend(xs),
                    'iadd': lambda: cont.__iadd__(xs),
                    'add_list': lambda: cont.add_list(xs),
                    'set': lambda: setattr(owner, self.prop, xs),
                    'propadd': lambda: setattr(
                        owner, self.prop,
                        list(getattr(owner, self.prop)) + xs),
                }[how]
                if how in ('set', 'propadd'):
                    offered += [self.objs[j] for j in prefix]
                    prefix = []
            elif how == 'setitem':
                if not n:
                    return False
                p = o['pos'] % (2 * n) - n
                if op == 'dup' and L[p] == k:
                    return False
                call = lambda: cont.__setitem__(p, bad)
            else:
                call = {'append': lambda: cont.append(bad),
                        'add': lambda: cont.add(bad),
                        'insert': lambda: cont.insert(o['pos'], bad)}[how]
        else:
            w = o['what']
            far = n + o['far']
            if o['neg']:
                far = -far - 1
            free = [k for k in self.free() if self.fresh(c, k)]
            x = self.objs[free[o['x'] % len(free)]] if free else None
            if x is not None:
                offered.append(x)
            gone = [i for i in IDS + ['zz'] if i and i not in self.ids(c)]
            i = gone[o['k'] % len(gone)]
            if w == 'remove':
                if x is None or any(self.equal(
                        self.specs[free[o['x'] % len(free)]], self.specs[k])
                        for k in L):
                    return False
                call = lambda: cont.remove(x)
            elif w == 'removeother':
                other = self.conts[1 - c]
                y = next((self.objs[k] for k in self.lists[1 - c]
                          if not any(self.equal(self.specs[k], self.specs[j])
                                     for j in L)), None)
                if y is None:
                    return False
                offered.append(y)
                call = lambda: cont.remove(y)
            elif w == 'delid':
                call = lambda: cont.__delitem__(i)
            elif w == 'getid':
                call = lambda: cont[i]
            elif w == 'delpos':
                call = lambda: cont.__delitem__(far)
            elif w == 'delstr':
                call = lambda: cont.__delitem__(str(far))
            elif w == 'getpos':
                call = lambda: cont[far]
            elif w == 'pop':
                if n:
                    return False
                call = lambda: cont.pop()
            elif w == 'poppos':
                call = lambda: cont.pop(far)
            elif x is None:
                return False
            elif w == 'setpos':
                call = lambda: cont.__setitem__(far, x)
            elif w == 'setstr':
                call = lambda: cont.__setitem__(str(far), x)
            elif w == 'setid':
                call = lambda: cont.__setitem__(i, x)
            elif w == 'setnone':
                call = lambda: cont.__setitem__(None, x)
            elif w == 'insertpos':
                call = lambda: cont.insert('a', x)
            elif w == 'setslice':
                call = lambda: cont.__setitem__(slice(0, 1), [x])
            elif w == 'setslice1':
                call = lambda: cont.__setitem__(slice(0, 1), x)
            elif w == 'iter':
                call = lambda: cont.extend(5)
            else:
                raise AssertionError(w)
        before = [(x, x._parent if hasattr(x, '_parent') else self.nothing,
                   x.id, x.type)
                  for x in offered + self.objs]
        state = [list(l) for l in self.lists]
        try:
            r = call()
        except CheckFailed:
            raise
        except ERRORS:
            pass
        else:
            self.fail('an invalid edit was accepted', edit=o, result=repr(r))
        # bulk additions may have kept the children before the bad one
        if prefix and len(list(list.__iter__(cont))) != n:
            L.extend(prefix)
            kept = {id(self.objs[k]) for k in prefix}
        else:
            kept = set()
        for x, parent, i, t in before:
            if id(x) in kept:
                continue
            now = x._parent if hasattr(x, '_parent') else self.nothing
            if now is not parent and not (
                    now in (None, self.nothing) and parent in
                    (None, self.nothing)):
                self.fail('a rejected edit changed the parent of a child',
                          edit=o)
            if (x.id, x.type) != (i, t):
                self.fail('a rejected edit changed a child', edit=o)
        return True


VALID_OPS = {'append', 'insert', 'extend', 'iadd', 'propadd', 'set',
             'setself', 'setitem', 'setsame', 'del', 'delid', 'delslice',
             'remove', 'removelike', 'pop', 'clear', 'reverse', 'sort',
             'move', 'refresh'}


def run(case, ctx, invalid):
    m = Model(case, ctx)
    ctx.label(m.kind)
    m.step = 'initially'
    edits = rejected = 0
    for c in (0, 1):
        m.apply(dict(op='extend', c=c, xs=case['init'][c], gen=False))
    for n, o in enumerate(case['ops']):
        m.step = 'edit %d: %s' % (n + 1, o)
        if o['op'] in VALID_OPS:
            done = m.apply(o)
            edits += done
        else:
            done = m.reject(o)
            rejected += done
        if done:
            ctx.label('op=' + o['op'])
        for c in (0, 1):
            m.verify(c)
    if invalid:
        ctx.nontrivial(rejected and (edits or rejected > 1))
        ctx.label('rejected' if rejected else 'none-rejected')
    else:
        ctx.nontrivial(edits > 2)
