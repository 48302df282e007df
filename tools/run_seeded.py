"""Run the quick checks against planted bugs (a tool, not a check):
run_seeded.py [-j N] [ID...]. Uses copies of /repo under /tmp."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(bug):
    d = os.path.join(HERE, 'seeded', bug)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    copy = '/tmp/run-seeded-%d-%s' % (os.getpid(), bug)
    try:
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')],
                       cwd=copy, check=True)
        env = dict(os.environ, XIGT_REPO=copy)
        env.setdefault('VERIF_SEED', '1')
        env.setdefault('VF_SHRINK_SECONDS', '10')
        r = subprocess.run([sys.executable, 'check.py', prop, 'quick'],
                           cwd=HERE, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=900)
        hit = 'VIOLATION property=%s' % prop in r.stdout
        return '%-24s %s exit %d %s' % (
            bug, prop, r.returncode, 'caught' if r.returncode == 1 and hit
            else 'MISSED')
    finally:
        shutil.rmtree(copy, ignore_errors=True)


if __name__ == '__main__':
    args = sys.argv[1:]
    n = 4
    if args[:1] == ['-j']:
        n, args = int(args[1]), args[2:]
    bugs = args or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    with ThreadPoolExecutor(n) as ex:
        for line in ex.map(one, bugs):
            print(line, flush=True)
