"""C36: every way to start a program does the same."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from vf import commands, target
from vf.core import Sub

ID = 'C36'
TECHNIQUE = ('differential testing of the ways to start a program over '
             'generated command lines and files')
RULE = ('Cases are a program with files and arguments (right ones, and wrong '
        'or missing ones), run through its main function and again in a twin '
        'directory through the dispatcher, the command line, a process of '
        'its own or the function of the importer or exporter; non-trivial = '
        'the arguments are right.')
ASSUMPTIONS = ['libraries that are not installed are replaced by stand-ins']


@st.composite
def cases(draw):
    case = draw(commands.runs())
    how = ['dispatch', 'dispatch', 'argv']
    if case['cmd'] in ('import', 'export') and not case.get('wrong'):
        how += ['api', 'api']
    case['how'] = draw(st.sampled_from(how))
    if draw(st.integers(0, 24)) == 0:
        case['how'] = draw(st.sampled_from(['process', 'process', 'file',
                                            'shell']))
    return case


def api(case, d):
    """What the arguments ask for, without any parsing of arguments."""
    a = case['args']

    def opt(*names):
        for k, x in enumerate(a[:-1]):
            if x in names:
                return a[k + 1]
    cfg = None

    def run():
        nonlocal cfg
        if opt('-c', '--config'):
            with open(opt('-c', '--config'), encoding='utf-8') as f:
                cfg = json.load(f)
        src, dst = opt('-i', '--input'), opt('-o', '--output')
        what = case['what']
        if case['cmd'] == 'import':
            if what == 'odin':
                from xigt.importers import odin as imp
            else:
                from xigt.importers import toolbox as imp
            imp.xigt_import(src, dst, cfg)
        else:
            from xigt.codecs import xigtxml
            if what == 'itsdb':
                from xigt.exporters import itsdb as exp
            else:
                from xigt.exporters import latex as exp
            exp.xigt_export(xigtxml.load(src), dst, cfg)
    return commands.call(run, ['xigt'], d)


def process(case, d):
    # the module run as a program, the file of a script, or the shell script
    env = dict(os.environ, PYTHONPATH=target.REPO + os.pathsep
               + commands.STUBS, PYTHONWARNINGS='ignore', PYTHONUTF8='1',
               PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8',
               PYTHONPYCACHEPREFIX='/nonexistent-vf-pycache')
    env.pop('LOGONROOT', None)
    if case['how'] == 'shell':
        # xigt.sh prepends its own directory
        env['PYTHONPATH'] = commands.STUBS
        argv = ['bash', os.path.join(target.REPO, 'xigt.sh'), case['cmd']]
    elif case['how'] == 'file':
        argv = [sys.executable, os.path.join(
            target.REPO, 'xigt', 'scripts',
            commands.SCRIPTS[case['cmd']] + '.py')]
    else:
        argv = [sys.executable, '-m', 'xigt.main', case['cmd']]
    p = subprocess.run(argv + case['args'], cwd=d, env=env,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=300)
    return {'result': ['exit', p.returncode],
            'out': commands.plain(p.stdout.decode('utf-8')),
            'err': commands.plain(p.stderr.decode('utf-8'))}


def check(case, ctx):
    how = case['how']
    ctx.label('cmd=' + case['what'], 'how=' + how,
              'wrong=%s' % case.get('wrong'))
    ctx.nontrivial(not case.get('wrong'))
    d = ctx.tmpdir()
    a, b = os.path.join(d, 'a'), os.path.join(d, 'b')
    commands.write(case, a)
    commands.write(case, b)
    before = commands.tree(a)
    one = commands.direct(case, a)
    ctx.label('result=%s' % one['result'])
    if how == 'dispatch':
        from xigt import main
        two = commands.call(main.main, ['xigt', case['cmd']] + case['args'],
                            b)
    elif how == 'argv':
        two = commands.call(lambda: commands.script(case['cmd']).main(),
                            ['xigt'] + case['args'], b)
    elif how == 'api':
        two = api(case, b)
    else:
        two = process(case, b)
    if how == 'api':
        ctx.equal(one['result'], ['exit', 0] if two['result'][0] == 'exit'
                  else two['result'], 'result')
        ctx.equal(one['calls'], two['calls'], 'what is handed on')
    elif how in ('process', 'shell', 'file'):
        want = one['result']
        if want[0] == 'raise':
            ctx.equal(two['result'], ['exit', 1], 'exit status')
            ctx.check(want[1] in two['err'], 'another error', want=want,
                      got=two['err'])
        else:
            ctx.equal(two['result'], want, 'exit status', err=two['err'])
            if want[1] != 2:
                # usage messages name the program
                ctx.equal(two['err'], one['err'], 'messages')
        if case.get('wrong') != 'help':
            ctx.equal(two['out'], one['out'], 'output')
    else:
        ctx.equal(two['result'], one['result'], 'result', err=two['err'])
        ctx.equal(two['out'], one['out'], 'output')
        ctx.equal(two['err'], one['err'], 'messages')
        ctx.equal(two['calls'], one['calls'], 'what is handed on')
    after = commands.tree(a)
    ctx.equal(commands.tree(b), after, 'files')
    # without proper arguments nothing is touched
    if one['result'] == ['exit', 2] or case['what'] == 'process' \
            or case.get('wrong') == 'help':
        ctx.equal(after, before, 'files changed in spite of wrong usage')
    if case.get('wrong') in ('option', 'empty', 'format') and (
            case['wrong'] != 'format' or case['args'].count('nosuch')):
        ctx.equal(one['result'], ['exit', 2], 'status of wrong usage')
    if case['what'] == 'process':
        ctx.check(one['result'] not in (['exit', 0],), 'a retired command '
                  'pretends to succeed')


def unknown_cases():
    return st.fixed_dictionaries({
        'cmd': st.sampled_from(['', 'sorts', 'Sort', 'so', 'help', '-v', '--',
                                'sort ', 'xigt_sort', 'sort,query', '--help',
                                'imports', 'part', None]),
        'args': st.lists(st.sampled_from(['c.xml', '--in-place', '-v', '-h',
                                          'out', '--igt-key=@n']),
                         max_size=4)})


def check_unknown(case, ctx):
    from xigt import main
    d = os.path.join(ctx.tmpdir(), 'd')
    corpus = {'igts': [{'id': 'b', 'tiers': []}, {'id': 'a', 'tiers': []}]}
    commands.write({'files': [{'name': 'c.xml', 'kind': 'xml',
                               'corpus': corpus}]}, d)
    before = commands.tree(d)
    argv = ['xigt'] + ([] if case['cmd'] is None else
                       [case['cmd']] + case['args'])
    r = commands.call(main.main, argv, d)
    wants = [2]
    if '--help' in argv or '-h' in argv:
        wants.append(0)
    ctx.check(r['result'][0] == 'exit' and r['result'][1] in wants,
              'not refused', argv=argv, got=r)
    ctx.equal(commands.tree(d), before, 'files changed', argv=argv)
    ctx.label('status=%s' % r['result'][1])
    ctx.nontrivial(bool(case['args']) and case['cmd'] is not None)


SUBS = [Sub('start', cases, check, quick=220),
        Sub('unknown', unknown_cases, check_unknown, quick=40)]
