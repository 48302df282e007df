"""Generated runs of the command-line programs: the files, the command and
its arguments as plain data."""
import contextlib
import io
import json
import logging
import os
import re
import sys

from hypothesis import strategies as st

from vf import files, ling, target, xmlwrite

STUBS = os.path.join(os.path.dirname(__file__), 'stubs')
if STUBS not in sys.path:
    sys.path.append(STUBS)

SCRIPTS = {'export': 'xigt_export', 'import': 'xigt_import',
           'partition': 'xigt_partition', 'process': 'xigt_process',
           'sort': 'xigt_sort', 'query': 'xigt_query',
           'validate': 'xigt_validate'}
KEYS = ['@id', '@doc-id', '@n', '@type', 'tier/@type', 'tier/item/text()',
        'metadata//dc:subject/@olac:code', '../@id']
TIER_KEYS = ['@id', '@type', '@n', 'item/text()', '@alignment']
ITEM_KEYS = ['@id', '@n', 'text()', 'value()', '@segmentation']
QUERIES = ['igt', '//item', 'igt/tier', '//item/text()', '//item/value()',
           'igt/@id', '//tier[@type="words"]/item', '//dc:subject/text()',
           '//item[text()="é"]/@id', '//tier/@type', 'nothing', '.']
ASCII_KEYS = ['@id', '@type', 'tier/@type', 'tier/@id', '@nosuch']


def corpus(draw, **kw):
    cfg = ling.LCfg(max_tiers=3, max_items=3, min_tiers=0, none_ids=False,
                    refattrs=['alignment', 'segmentation'])
    return draw(files.corpora(cfg=cfg, **kw))


def xml(draw, name, **kw):
    return {'name': name, 'kind': 'xml', 'corpus': corpus(draw, **kw)}


@st.composite
def runs(draw, commands=None, wrong=True):
    cmd = draw(st.sampled_from(commands or [
        'sort', 'query', 'validate', 'partition', 'latex', 'itsdb', 'toolbox',
        'odin'] + (['process'] if wrong else [])))
    verbose = draw(st.sampled_from([[], [], [], ['-v'], ['-vv'],
                                    ['--verbose']]))
    fs, args = [], []
    if cmd == 'sort':
        fs = [xml(draw, 'c.xml')]
        for opt, pool in (('--igt-key', KEYS), ('--tier-key', TIER_KEYS),
                          ('--item-key', ITEM_KEYS)):
            for k in draw(st.lists(st.sampled_from(pool), max_size=2)):
                args += draw(st.sampled_from([[opt, k], [opt + '=' + k]]))
        if draw(st.booleans()):
            args.append('--in-place')
        args.insert(0, 'c.xml') if draw(st.booleans()) else \
            args.append('c.xml')
    elif cmd == 'query':
        for k in range(draw(st.sampled_from([1, 2]))):
            fs.append(xml(draw, 'c%d.xml' % k, max_igts=3))
        for _ in range(draw(st.integers(1, 3))):
            q = draw(st.sampled_from(QUERIES))
            o = draw(st.sampled_from(['--find', '-f', '-c', '--unique', '-u',
                                      '--count', '-t']))
            args += [o, q]
            if o == '-t':
                args.append(draw(st.sampled_from(['.', './/item/text()',
                                                  '*'])))
        if draw(st.integers(0, 3)) == 0:
            args += ['-d', draw(st.sampled_from(['{match!s}', 'é {query}']))]
        if draw(st.booleans()):
            args += ['--basename']
        if draw(st.integers(0, 3)) == 0:
            args += ['--']
        args += [f['name'] for f in fs]
    elif cmd == 'validate':
        for k in range(draw(st.sampled_from([1, 2]))):
            fs.append(xml(draw, 'c%d.xml' % k, max_igts=3))
            if draw(st.integers(0, 9)) == 0:
                fs[-1] = {'name': 'c%d.xml' % k, 'kind': 'text',
                          'text': '<xigt-corpus>'}
        args = [f['name'] for f in fs]
        args += draw(st.sampled_from([[], ['--color'], ['-q']]))
    elif cmd == 'partition':
        for k in range(draw(st.sampled_from([1, 2]))):
            fs.append(xml(draw, 'c%d.xml' % k,
                          igt_ids=['f%di%d' % (k, j) for j in range(6)]))
        args = ['--key-path', draw(st.sampled_from(ASCII_KEYS))]
        if draw(st.booleans()):
            args += ['--default-key=none']
        args += ['out'] + [f['name'] for f in fs]
        if draw(st.integers(0, 9)) == 0:
            fs.append({'name': 'out', 'kind': 'text', 'text': 'precious'})
    elif cmd == 'process':
        args = draw(st.sampled_from([[], ['x'], ['c.xml']]))
    elif cmd in ('latex', 'itsdb'):
        cfg = None
        fs = [xml(draw, 'c.xml')]
        for g in fs[0]['corpus']['igts']:
            for t in g['tiers']:
                if draw(st.booleans()):
                    t['type'] = draw(st.sampled_from(['words', 'glosses']))
        if cmd == 'latex':
            if draw(st.booleans()):
                cfg = {'tier_types': draw(st.sampled_from(
                    [['words'], ['glosses', 'words'], ['phrases'], []]))}
                if draw(st.booleans()):
                    cfg['item_substitutions'] = [[
                        '.*', [[['é', 'dog', 'a'][draw(st.integers(0, 2))],
                                '日']]]]
        else:
            cfg = {'relations': 'Relations'}
            fs.append({'name': 'Relations', 'kind': 'text', 'text': 'x'})
            if draw(st.booleans()):
                cfg['i-id_start'] = draw(st.sampled_from([1, 100]))
            if draw(st.booleans()):
                cfg['cells'] = [['i-input', '"é" + str(igt.id)'],
                                ['n', 'len(igt)']]
            if draw(st.integers(0, 5)) == 0:
                cfg = None
        args = [[draw(st.sampled_from(['-i', '--input'])), 'c.xml'],
                [draw(st.sampled_from(['-o', '--output'])), 'out']]
        if cmd == 'itsdb' or draw(st.booleans()):
            args.append([draw(st.sampled_from(['-f', '--format'])), cmd])
        if cfg is not None:
            fs.append({'name': 'cfg.json', 'kind': 'json', 'data': cfg})
            args.append([draw(st.sampled_from(['-c', '--config'])),
                         'cfg.json'])
        args = sum(draw(st.permutations(args)), [])
    else:
        if cmd == 'toolbox':
            from vf.props import c30
            case = draw(c30.cases())
            fs = [{'name': 'in.txt', 'kind': 'text',
                   'text': c30.render(case)}]
            cfg = c30.config(case)
        else:
            from vf.props import c31
            fs = [{'name': 'in.txt', 'kind': 'odin',
                   'blocks': draw(c31.file_())}]
            cfg = draw(st.sampled_from([
                None, {'keep_headers': True}, {'replacement_char': '日'},
                {'replacement_char': '?', 'keep_headers': True}]))
        args = [[draw(st.sampled_from(['-i', '--input'])), 'in.txt'],
                [draw(st.sampled_from(['-o', '--output'])), 'out.xml']]
        if cmd == 'odin' or draw(st.booleans()):
            args.append([draw(st.sampled_from(['-f', '--format'])), cmd])
        if cfg is not None:
            fs.append({'name': 'cfg.json', 'kind': 'json', 'data': cfg})
            args.append([draw(st.sampled_from(['-c', '--config'])),
                         'cfg.json'])
        args = sum(draw(st.permutations(args)), [])
    case = {'what': cmd, 'files': fs,
            'cmd': {'latex': 'export', 'itsdb': 'export', 'toolbox': 'import',
                    'odin': 'import'}.get(cmd, cmd),
            'args': verbose + args if cmd != 'process' else args}
    if wrong and cmd != 'process' and draw(st.integers(0, 7)) == 0:
        how = draw(st.sampled_from(['option', 'drop', 'file', 'help',
                                    'format', 'empty']))
        case['wrong'] = how
        a = case['args']
        if how == 'option':
            a.insert(0, '--no-such-option')
        elif how == 'drop' and a:
            del a[draw(st.integers(0, len(a) - 1))]
        elif how == 'file':
            case['files'] = []
        elif how == 'help':
            a.insert(0, '-h')
        elif how == 'format':
            case['args'] = [x if x != cmd else 'nosuch' for x in a]
        elif how == 'empty':
            case['args'] = []
    return case


def write(case, d, encoding='utf-8', choices=()):
    os.mkdir(d)
    for f in case['files']:
        path = os.path.join(d, f['name'])
        if f['kind'] == 'xml':
            limit = {'iso-8859-1': 256, 'us-ascii': 128}.get(
                encoding, 0x110000)
            w = xmlwrite.Writer(list(choices), lambda c: ord(c) < limit)
            doc = w.document(f['corpus'], 'utf-8' if encoding == 'utf-8-sig'
                             else encoding)
            data = doc.encode(encoding)
        elif f['kind'] == 'text':
            data = f['text'].encode('utf-8')
        elif f['kind'] == 'json':
            data = json.dumps(f['data'], ensure_ascii=False).encode('utf-8')
        else:
            data = ''.join(
                json.dumps(b, ensure_ascii=not encodable(b)) + '\n'
                for b in f['blocks']).encode('utf-8')
        with open(path, 'wb') as fh:
            fh.write(data)


def encodable(b):
    s = json.dumps(b, ensure_ascii=False)
    try:
        s.encode('utf-8')
    except UnicodeEncodeError:
        return False
    # characters at which lines may be broken when read back
    return not re.search('[\x0b\x0c\x1c-\x1e\x85\u2028\u2029]', s)


def tree(d):
    out = {}
    for root, dirs, fns in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d)] = None
        for x in fns:
            with open(os.path.join(root, x), 'rb') as f:
                out[os.path.relpath(os.path.join(root, x), d)] = f.read()
    return out


def plain(text):
    """Addresses of objects differ from run to run."""
    return re.sub(r' at (0x[0-9a-f]+|\d+)>', ' at X>', text)


def call(fn, argv, d):
    """Run fn in directory d with the command line; what happens, as data."""
    from delphin import itsdb
    root = logging.getLogger()
    handlers, level = root.handlers[:], root.level
    root.handlers[:] = []
    cwd, saved = os.getcwd(), sys.argv
    out, err = io.StringIO(), io.StringIO()
    itsdb.calls[:] = []
    env = os.environ.pop('LOGONROOT', None)
    result = ['exit', 0]
    try:
        os.chdir(d)
        sys.argv = list(argv)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                fn()
            except SystemExit as e:
                result = ['exit', 0 if e.code is None else e.code]
                if isinstance(e.code, str):
                    result = ['exit', 1]
                    print(e.code, file=err)
            except Exception as e:
                if not target.in_target(e):
                    raise
                result = ['raise', type(e).__name__]
    finally:
        sys.argv = saved
        os.chdir(cwd)
        root.handlers[:] = handlers
        root.setLevel(level)
        if env is not None:
            os.environ['LOGONROOT'] = env
    calls = json.loads(json.dumps(itsdb.calls, default=repr))
    return {'result': result, 'out': plain(out.getvalue()),
            'err': plain(err.getvalue()), 'calls': calls}


def script(cmd):
    import importlib
    return importlib.import_module('xigt.scripts.' + SCRIPTS[cmd])


def direct(case, d):
    """The program run through its main function with arguments."""
    return call(lambda: script(case['cmd']).main(list(case['args'])),
                ['xigt'], d)


def convert(case):
    """The file functions of the codecs, one after another."""
    from xigt.codecs import xigtjson, xigtxml
    x = xigtxml.load('c.xml')
    xigtjson.dump('o.json', x)
    y = xigtjson.load('in.json')
    xigtxml.dump('o.xml', y)
    xigtxml.dump('o16.xml', y, encoding='utf-16')
    xigtjson.dump('p.json', xigtxml.load('o16.xml', mode='incremental'))
    from xigt.exporters import latex
    latex.xigt_export(y, 'o.tex')


def perform(case, d):
    if case['cmd'] == 'convert':
        return call(lambda: convert(case), ['xigt'], d)
    return direct(case, d)
