"""C31: ODIN import keeps every line and always writes loadable XML."""
import json
import os
import re
import sys

from hypothesis import strategies as st

from vf import cli, gen
from vf.core import Sub

sys.path.append(os.path.join(os.path.dirname(os.path.dirname(__file__)),
                             'stubs'))

ID = 'C31'
TECHNIQUE = ('generated blocks with arbitrary characters imported and loaded '
             'again, against the blocks')
RULE = ('Cases are one to three files of up to four blocks (or a directory of '
        'them and other files), with options; texts hold any characters, '
        'also ones XML cannot represent; non-trivial = several lines or '
        'blocks and some character is replaced or outside of ASCII.')
ASSUMPTIONS = ['the reader of ODIN files is replaced by a stand-in, as it is '
               'not installed; ids are well-formed and unique; no carriage '
               'returns; header lines are not just white space']

CHARS = st.one_of(
    st.sampled_from('ab <>&"\'\\é日\t'),
    st.sampled_from('\x00\x01\x08\x0b\x0c\x1f\x7f\x85\ud800\udfff\ufffe\uffff'
                    '\ufffd\U0001F600\U0010FFFF\u2028\ue000\ud7ff\U00010000'),
    st.characters(exclude_characters='\r')).map(str)


def unpair(s):
    """Without surrogates that make a character when written as JSON."""
    return re.sub('[\ud800-\udbff](?=[\udc00-\udfff])', '', s)


TEXT = st.one_of(st.sampled_from(['', ' ', 'inu=ga  san-biki hoe-ru', ']]>',
                                  '  1. dog', 'a\n b', '\x00', 'x\ud83d']),
                 st.text(CHARS, max_size=8).map(unpair))


def many(lines):
    """The lines, or now and then many of them."""
    return st.sampled_from([lines] * 19 + [(lines * 12)[:12]])


def block(k):
    return st.fixed_dictionaries({
        'doc_id': st.one_of(st.sampled_from(['12', 'a/b', '100.pdf'] * 2), TEXT),
        'line_range': st.sampled_from(['12 15', '1  2', '7 7', ' 3 9 ']),
        'line_types': st.sampled_from(['L G T', 'M+L+G T', 'L', '', 'L\x01']),
    }, optional={
        'igt_id': st.sampled_from(['igt12-%d' % k, 'a%d' % k,
                                   'i.%d_é' % k]),
        'language': st.one_of(st.sampled_from(
            ['japanese', ' old english ', '', None, "d'ivoire", 'ß']), TEXT),
        'iso-639-3': st.sampled_from(['jpn', ' ang ', None, 'x\x01']),
        'header_lines': st.lists(st.one_of(
            st.sampled_from(['doc_id=12 12 15 L G T', 'language: x (jpn)']),
            TEXT).flatmap(lambda t: st.sampled_from(
                ['h%s.', 'h%s.', ' h%s.', 'h%s.  ', '\th%s. ']).map(
                    lambda f: f.replace('%s', t))), max_size=3),
        'lines': st.lists(st.fixed_dictionaries(
            {'tag': st.sampled_from(['L', 'G', 'T', 'M', 'L+CR', 'B\x02']),
             'line': st.sampled_from(['12', '959', ''])},
            optional={'content': TEXT}), max_size=4).flatmap(
                many),
    })


@st.composite
def file_(draw):
    return [draw(block(k + 1))
            for k in range(draw(st.sampled_from([1, 2, 3, 0, 4] * 4 + [12])))]


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(['file', 'file', 'dir', 'dir', 'mixed']))
    n = 1 if mode != 'dir' else draw(st.sampled_from([2, 1, 3, 0]))
    suffix = draw(st.sampled_from(
        [None, None, '.txt', '.odin', '', '.t[x]t', '-x.txt', '*']))
    return {
        'mode': mode, 'files': [draw(file_()) for _ in range(n)],
        'names': draw(st.permutations(
            ['a', 'b.c', 'x y', '日', 'txt', 'a.txt', 'a[1]', '12'])),
        'others': draw(st.lists(st.sampled_from(
            ['readme', 'a.tx', 'b.xml', 'c.txt.bak', 'd.t[x]', 'xtxt',
             'e.txt2', 'q.odi']), max_size=2, unique=True)),
        'suffix': suffix,
        'headers': draw(st.sampled_from([None, True, False, True])),
        'char': draw(st.sampled_from([None, None, '?', '', '\\', '\\g<0>',
                                      'XX', '&'])),
        'outdir': draw(st.sampled_from(['new', 'new', 'there'])),
        'indir': draw(st.sampled_from(['in', 'in', 'i[n]', 'i*n'])),
        'via': draw(st.sampled_from(['api', 'api', 'cli'])),
    }


def ok(c):
    n = ord(c)
    return (n in (9, 10, 13) or 0x20 <= n <= 0xd7ff or 0xe000 <= n <= 0xfffd
            or 0x10000 <= n <= 0x10ffff)


def clean(s, by):
    return ''.join(c if ok(c) else by for c in s)


def expected(b, opts):
    by = '\ufffd' if opts['char'] is None else opts['char']
    items = []
    for j, l in enumerate(b.get('lines', [])):
        attrs = {k: clean(v, by) for k, v in l.items() if k != 'content'}
        items.append(['r%d' % (j + 1), attrs,
                      clean(l.get('content', ''), by) or None])
    a, z = b['line_range'].split()
    metas = []
    if opts['headers'] and b.get('header_lines'):
        metas.append(['odin-header', '\n'.join(
            clean(h, by) for h in b['header_lines']), None])
    code = b.get('iso-639-3')
    metas.append([None, None,
                  'und' if code is None else clean(code, by).strip()])
    return {'id': b.get('igt_id'), 'items': items, 'metas': metas,
            'language': clean(b.get('language') or '', by).strip(),
            'attrs': {'doc-id': clean(b['doc_id'], by), 'line-range': a + '-' + z,
                      'tag-types': clean(b['line_types'], by)}}


NS = {'dc': 'http://purl.org/dc/elements/1.1/',
      'olac': 'http://www.language-archives.org/OLAC/1.1/',
      'xsi': 'http://www.w3.org/2001/XMLSchema-instance'}


def compare(ctx, path, blocks, case):
    from xigt.codecs import xigtxml
    try:
        xc = xigtxml.load(path)
        igts = list(xc)
    except Exception as e:
        with open(path, 'rb') as f:
            ctx.fail('the file written does not load: %r' % e,
                     text=f.read()[-2000:])
    ctx.equal([g.id for g in igts], [b.get('igt_id') for b in blocks],
              'igts')
    for igt, b in zip(igts, blocks):
        w = expected(b, case)
        ctx.equal(dict(igt.attributes), w['attrs'], 'attributes', block=b)
        ctx.equal([(t.id, t.type, dict(t.attributes)) for t in igt],
                  [('r', 'odin', {'state': 'raw'})], 'tiers', block=b)
        ctx.equal([[x.id, dict(x.attributes), x.text] for x in igt['r']],
                  w['items'], 'lines', block=b)
        ctx.equal(len(igt.metadata), 1, 'metadata blocks')
        metas = list(igt.metadata[0])
        ctx.equal(len(metas), len(w['metas']), 'metas', block=b)
        for m, (ty, text, code) in zip(metas, w['metas']):
            if ty is not None:
                ctx.equal((m.type, m.text), (ty, text), 'header', block=b)
                continue
            ctx.equal([(c.name, c.namespace) for c in m],
                      [('subject', NS['dc']), ('language', NS['dc'])],
                      'language metadata', block=b)
            subj, lang = m
            ctx.equal(subj.get_attribute('code', namespace='olac'), code,
                      'language code', block=b)
            ctx.equal(subj.get_attribute('xsi:type'), 'olac:language',
                      'type of subject')
            ctx.equal((lang.text, lang.get_attribute('olac:code')),
                      ('English', 'en'), 'metalanguage')
            ctx.equal((subj.text or '').lower().strip(),
                      w['language'].title().lower().strip(),
                      'language name', block=b)
    if xc.nsmap:
        ctx.equal(dict(xc.nsmap), NS, 'namespaces')


def check(case, ctx):
    import odintxt
    from xigt.errors import XigtImportError
    from xigt.importers import odin
    from xigt.scripts import xigt_import
    ctx.check('stubs' in odintxt.__file__, 'not the stand-in')
    d = ctx.tmpdir()
    opts = {}
    if case['suffix'] is not None:
        opts['input_file_suffix'] = case['suffix']
    if case['char'] is not None:
        opts['replacement_char'] = case['char']
    if case['headers'] is not None:
        opts['keep_headers'] = case['headers']

    def run(a, b):
        if case['via'] == 'cli':
            args = ['-i', a, '-o', b, '-f', 'odin']
            if opts:
                with open(os.path.join(d, 'cfg.json'), 'w') as f:
                    json.dump(opts, f)
                args += ['-c', os.path.join(d, 'cfg.json')]
            status, out = cli.run(xigt_import.main, args)
            ctx.equal(status, 0, 'exit status', out=out)
        else:
            odin.xigt_import(a, b, dict(opts) if opts else None)

    def write(path, blocks):
        with open(path, 'w') as f:
            for b in blocks:
                f.write(json.dumps(b) + '\n')

    indir = os.path.join(d, case['indir'])
    outdir = os.path.join(d, 'out')
    os.mkdir(indir)
    if case['outdir'] == 'there':
        os.mkdir(outdir)
    if case['mode'] == 'file':
        src = os.path.join(indir, case['names'][0])
        write(src, case['files'][0])
        dst = os.path.join(d, 'o.xml')
        run(src, dst)
        compare(ctx, dst, case['files'][0], case)
    elif case['mode'] == 'mixed':
        src = os.path.join(indir, 'a')
        write(src, case['files'][0])
        if not os.path.exists(outdir):
            os.mkdir(outdir)
        ctx.raises(XigtImportError, lambda: run(src, outdir),
                   'a file is imported into a directory')
        with open(os.path.join(d, 'file'), 'w') as f:
            f.write('precious')
        ctx.raises(XigtImportError,
                   lambda: run(indir, os.path.join(d, 'file')),
                   'a directory is imported into a file')
        ctx.equal(os.listdir(outdir), [], 'output in spite of the error')
        with open(os.path.join(d, 'file')) as f:
            ctx.equal(f.read(), 'precious', 'file overwritten')
    else:
        suffix = '.txt' if case['suffix'] is None else case['suffix']
        inputs = {}
        for name, blocks in zip(case['names'], case['files']):
            inputs[name + suffix] = blocks
        for name in case['others']:
            inputs.setdefault(name, [])
        want = {}
        for name, blocks in inputs.items():
            write(os.path.join(indir, name), blocks)
            if name.endswith(suffix):
                want[name[:len(name) - len(suffix)] + '.xml'] = blocks
        before = sorted(os.listdir(indir))
        run(indir, outdir)
        ctx.equal(sorted(os.listdir(outdir)), sorted(want), 'output files',
                  inputs=sorted(inputs), suffix=suffix)
        ctx.equal(sorted(os.listdir(indir)), before, 'input files')
        for name, blocks in want.items():
            compare(ctx, os.path.join(outdir, name), blocks, case)
    allb = [b for f in case['files'] for b in f]
    text = json.dumps(allb)
    bad = any(not ok(c) for b in allb for l in b.get('lines', [])
              for c in l.get('content', ''))
    ctx.label(case['mode'], 'replaced' if bad else 'nothing replaced')
    ctx.nontrivial((bad or '\\u' in text) and
                   sum(len(b.get('lines', [])) for b in allb) > 1)


SUBS = [Sub('import', cases, check, quick=600)]
