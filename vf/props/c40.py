"""C40: programs write where they were told to, and nothing when they cannot
do their work."""
import os

from hypothesis import strategies as st

from vf import commands
from vf.core import Sub

ID = 'C40'
TECHNIQUE = ('generated runs of the programs with injected faults in files, '
             'arguments and configurations, against the files before and '
             'after')
RULE = ('Cases are a program with files, arguments and other files around, '
        'and possibly a fault: a document cut off, with a wrong end tag, of '
        'something else, missing or a directory; a configuration that is '
        'cut off; wrong arguments; paths that are not well-formed; outputs '
        'that exist. Non-trivial = there is a fault in a file or an output '
        'that exists, or the run changes its input.')
ASSUMPTIONS = ['libraries that are not installed are replaced by stand-ins',
               'what of an output file is written before a fault in the '
               'input is found is not judged']

AROUND = ['precious.txt', 'other.xml', 'sub/c.xml', 'sub/out.xml', '.hidden',
          'README', 'c.json', 'precious.xml', 'out.old/x.xml']
BAD_PATHS = ['//item[', '//item[@id=', '(igt', 'igt/nosuch()', '//item[)',
             'tier[@type="words]', '@', '//']


@st.composite
def cases(draw):
    case = draw(commands.runs())
    if draw(st.integers(0, 3)) == 0:
        # sorting in place is the only one that changes its input
        case = draw(commands.runs(['sort'], wrong=False))
        if '--in-place' not in case['args']:
            case['args'].append('--in-place')
        stages = draw(st.booleans())
    else:
        stages = False
    case['around'] = draw(st.lists(st.sampled_from(AROUND), unique=True,
                                   max_size=4))
    fault = draw(st.sampled_from([None, None, 'cut', 'cut', 'tag', 'other',
                                  'missing', 'dir', 'config', 'path']))
    if case.get('wrong') == 'file':
        fault = None
    xs = [f['name'] for f in case['files'] if f['kind'] == 'xml']
    if stages and case['cmd'] == 'sort':
        # the first things to be sorted are fine, others are not
        case['args'] += ['--igt-key=' + draw(st.sampled_from(
            ['@id', 'tier/@id', 'tier/item/text()']))]
        fault = 'path'
    if fault == 'config' and any(f['name'] == 'cfg.json'
                                 for f in case['files']):
        case['fault'] = ['config', 'cfg.json', draw(st.floats(0, 0.99))]
    elif fault == 'path' and case['cmd'] in ('sort', 'partition', 'query'):
        bad = draw(st.sampled_from(BAD_PATHS))
        if case['cmd'] == 'sort':
            case['args'] += [draw(st.sampled_from(
                ['--igt-key=', '--tier-key=', '--item-key='])) + bad]
        elif case['cmd'] == 'query':
            case['args'] = ['--find', bad, '-v'] + case['args']
        else:
            case['args'] += ['--key-path=' + bad]
        case['fault'] = ['path', None, 0]
    elif fault in ('missing', 'dir') and case['files']:
        name = draw(st.sampled_from(xs or [
            f['name'] for f in case['files'] if f['name'] == 'in.txt'] or
            [None]))
        if name is not None:
            case['fault'] = [fault, name, 0]
    elif fault in ('cut', 'tag', 'other') and xs:
        case['fault'] = [fault, draw(st.sampled_from(xs)),
                         draw(st.floats(0, 0.99))]
    case['exists'] = draw(st.sampled_from(
        [None, None, None, 'file', 'dir'] if case['cmd'] != 'partition' else
        [None, None, None, None, 'file', 'dir', 'empty']))
    return case


OUT = {'export': 'out', 'import': 'out.xml', 'partition': 'out'}


def spoil(case, d):
    """Put the fault into the files."""
    kind, name, at = case['fault']
    if name is None:
        return False
    path = os.path.join(d, name)
    with open(path, 'rb') as f:
        data = f.read()
    if kind in ('missing', 'dir'):
        os.remove(path)
        if kind == 'dir':
            os.mkdir(path)
        return True
    if kind in ('cut', 'config'):
        data = data[:int(at * len(data.rstrip()))]
        if kind == 'config' and not data:
            data = b'{'
    elif kind == 'tag':
        k = data.rfind(b'</')
        if k < 0:
            return False  # nothing but an empty root
        data = data[:k + 2] + b'q' + data[k + 2:]
    else:
        data = [b'', b'x', b'{"igts": []}', b'<html></html>',
                b'\xff\xfe\x00'][int(at * 5)]
    with open(path, 'wb') as f:
        f.write(data)
    return True


def usable(case, d):
    """The fault is one that the program comes across."""
    a = case['args']
    kind, name, _ = case['fault']
    configured = any(x in ('-c', '--config') for x in a)
    if name == 'cfg.json':
        return configured
    if case['what'] == 'itsdb' and not configured:
        return False  # without a relations file, the input is not looked at
    if case['what'] == 'odin' and kind == 'dir':
        return False  # directories are possible inputs
    return name in a


def check(case, ctx):
    d = os.path.join(ctx.tmpdir(), 'd')
    commands.write(case, d)
    faulty = case.get('fault') is not None and spoil(case, d)
    for name in case['around']:
        path = os.path.join(d, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write('precious ' + name)
    out = OUT.get(case['cmd'])
    there = out is not None and os.path.exists(os.path.join(d, out))
    if out is not None and case['exists'] and not there:
        there = True
        path = os.path.join(d, out)
        if case['exists'] == 'file':
            with open(path, 'w') as f:
                f.write('precious')
        else:
            os.mkdir(path)
            if case['exists'] == 'dir':
                with open(os.path.join(path, 'x.xml'), 'w') as f:
                    f.write('precious')
    is_dir = there and os.path.isdir(os.path.join(d, out))
    before = commands.tree(d)
    r = commands.direct(case, d)
    after = commands.tree(d)
    result = r['result']
    done = result == ['exit', 0]
    info = {'args': case['args'], 'fault': case.get('fault'),
            'result': result}
    changed = sorted(k for k in set(before) | set(after)
                     if k not in before or k not in after or
                     before[k] != after[k])
    ctx.label('cmd=' + case['what'], 'done' if done else 'failed',
              'fault=%s' % (case.get('fault') or ['none'])[0])
    usage = result == ['exit', 2] or \
        (done and case.get('wrong') in ('help', 'empty'))
    if usage:
        ctx.check(not changed, 'something changed though the arguments are '
                  'not right', changed=changed, **info)
    wrong = case.get('wrong')
    if faulty and not wrong and usable(case, d):
        ctx.check(not done, 'a run with a faulty input succeeds', **info)
        if case['fault'][0] in ('config', 'missing', 'dir') and \
                case['cmd'] != 'partition':
            ctx.check(not changed, 'something changed though an input is '
                      'missing or a configuration cannot be read',
                      changed=changed, **info)
    if not faulty and not wrong and not case.get('fault') and not there \
            and case['cmd'] not in ('validate', 'process') \
            and '-t' not in case['args']:  # subqueries may not apply
        ctx.check(done, 'the run fails', err=r['err'], **info)
    allowed = set()
    if case['cmd'] == 'sort':
        if '--in-place' in case['args'] and done:
            allowed = {'c.xml'}
    elif case['cmd'] == 'partition':
        if there:
            ctx.check(not done or wrong == 'help',
                      'an output directory that exists is used', **info)
        elif done:
            allowed = {k for k in changed if k == 'out' or
                       k.startswith('out' + os.sep)}
        else:
            # the directory itself may be there
            allowed = {'out'}
            ctx.check(after.get('out') is None, 'a file for the output '
                      'directory', **info)
    elif case['cmd'] in ('export', 'import') and not is_dir:
        allowed = {out}
    if wrong == 'drop' and case['cmd'] == 'partition':
        # another argument has become the output directory
        allowed |= set(changed) - set(before)
    ctx.check(set(changed) <= allowed, 'files changed that the run was not '
              'to change', changed=changed, allowed=sorted(allowed), **info)
    ctx.check(all(k in after for k in before), 'files are gone', **info)
    ctx.nontrivial(faulty or there or bool(
        allowed and case['cmd'] == 'sort' and changed))


SUBS = [Sub('runs', cases, check, quick=250)]
