"""C37: neither the locale nor the encoding of the input matters."""
import json
import os

from hypothesis import strategies as st

from vf import commands, spec, worker
from vf.core import Sub
from xigt.codecs import xigtjson

ID = 'C37'
TECHNIQUE = ('differential testing of whole runs of the programs and file '
             'functions: locales and encodings varied, content kept')
RULE = ('Cases are runs of the programs (sort, query, validate, partition, '
        'export, import) or of the file functions, performed in a UTF-8 '
        'process and in one under the C locale without UTF-8 mode, or on '
        'corpora in UTF-8 and in another encoding; results, output and files '
        'are compared; non-trivial = some text is not ASCII.')
ASSUMPTIONS = ['names of files and arguments are not affected',
               'what a terminal can show is not considered (output is '
               'captured as text)',
               'libraries that are not installed are replaced by stand-ins']


@st.composite
def locale_cases(draw):
    if draw(st.integers(0, 5)) == 0:
        c = commands.corpus(draw)
        c2 = commands.corpus(draw)
        for g in c2['igts']:
            for t in g['tiers'][:1]:
                t['type'] = 'words'
                for x in t['items'][:2]:
                    x['text'] = draw(st.sampled_from(['é', '日本', 'ü x']))
        return {'what': 'convert', 'cmd': 'convert', 'files': [
            {'name': 'c.xml', 'kind': 'xml', 'corpus': c},
            {'name': 'in.json', 'kind': 'json', 'data': xigtjson.encode(
                spec.build_corpus(c2))}]}
    return draw(commands.runs(wrong=False))


def content(case):
    return json.dumps([{k: v for k, v in f.items() if k != 'name'}
                       for f in case['files']], ensure_ascii=False)


def check_locale(case, ctx):
    d = ctx.tmpdir()
    a, b = os.path.join(d, 'a'), os.path.join(d, 'b')
    commands.write(case, a)
    commands.write(case, b)
    one = commands.perform(case, a)
    two = worker.perform(case, b)
    compare(ctx, case, one, two, commands.tree(a), commands.tree(b))


def compare(ctx, case, one, two, ta, tb):
    for k in ('result', 'out', 'err', 'calls'):
        ctx.equal(two[k], one[k], 'different ' + k, args=case.get('args'))
    ctx.equal(tb, ta, 'different files', args=case.get('args'))
    ctx.label('what=' + case['what'], 'result=%s' % one['result'])
    ctx.nontrivial(not content(case).isascii())


@st.composite
def encoding_cases(draw):
    case = draw(commands.runs(
        ['sort', 'query', 'validate', 'partition', 'latex', 'itsdb'],
        wrong=False))
    case['encoding'] = draw(st.sampled_from(
        ['utf-16', 'iso-8859-1', 'us-ascii', 'utf-8-sig', 'utf-16']))
    if not all(ok(f['corpus']) for f in case['files'] if f['kind'] == 'xml') \
            and case['encoding'] in ('iso-8859-1', 'us-ascii'):
        case['encoding'] = 'utf-16'
    return case


def ok(s):
    return all(k.isascii() for _, x in spec.walk('corpus', s)
               for k in list(x.get('attrs') or {}) + [x.get('name') or ''])


def check_encoding(case, ctx):
    d = ctx.tmpdir()
    a, b = os.path.join(d, 'a'), os.path.join(d, 'b')
    commands.write(case, a)
    commands.write(case, b, case['encoding'])
    one = commands.direct(case, a)
    ins = commands.tree(b)
    two = commands.direct(case, b)
    ta, tb = commands.tree(a), commands.tree(b)
    ctx.label('encoding=' + case['encoding'])
    in_place = '--in-place' in case['args']
    for f in case['files']:
        if f['kind'] == 'xml' and not in_place:
            ctx.equal(tb.pop(f['name']), ins[f['name']], 'the input changed')
            ta.pop(f['name'])
    compare(ctx, case, one, two, ta, tb)


SUBS = [Sub('locale', locale_cases, check_locale, quick=150),
        Sub('encoding', encoding_cases, check_encoding, quick=150)]
