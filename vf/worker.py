"""A process under another locale that performs runs given as JSON lines."""
import json
import locale
import os
import select
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_worker = None


def start():
    global _worker
    from vf import target
    env = dict(os.environ, LC_ALL='C', LANG='C', PYTHONUTF8='0',
               PYTHONCOERCECLOCALE='0', XIGT_REPO=target.REPO)
    env.pop('PYTHONIOENCODING', None)
    _worker = subprocess.Popen(
        [sys.executable, '-m', 'vf.worker'], cwd=VERIF, env=env,
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)
    _worker.rest = b''
    return reply()


def reply():
    w = _worker
    while b'\n' not in w.rest:
        if not select.select([w.stdout], [], [], 240)[0]:
            w.kill()
            return {'error': 'the other process does not finish'}
        data = os.read(w.stdout.fileno(), 1 << 16)
        if not data:
            return {'error': 'the other process died'}
        w.rest += data
    line, w.rest = w.rest.split(b'\n', 1)
    return json.loads(line)


def perform(case, d):
    """commands.perform(case, d), in the other process."""
    if _worker is None or _worker.poll() is not None:
        hello = start()
        if hello.get('error') or 'utf' in hello['encoding'].lower():
            raise RuntimeError('no process under another locale: %r' % hello)
    _worker.stdin.write(json.dumps([case, d]).encode('ascii') + b'\n')
    r = reply()
    if 'error' in r:
        raise RuntimeError(r['error'])
    return r


def main():
    from vf import target
    target.setup()
    from vf import commands
    out = os.fdopen(os.dup(1), 'w')

    def say(x):
        out.write(json.dumps(x) + '\n')
        out.flush()
    say({'encoding': locale.getpreferredencoding(False)})
    for line in sys.stdin:
        case, d = json.loads(line)
        try:
            say(commands.perform(case, d))
        except BaseException:
            import traceback
            say({'error': traceback.format_exc()})


if __name__ == '__main__':
    main()
