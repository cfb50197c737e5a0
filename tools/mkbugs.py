"""
Writes /verif/seeded: planted bugs, each a patch to /repo with a
demonstration.  Bugs are described here as replacements of source text, so
that patches can be made anew when /repo moves on.

Usage: mkbugs.py [ID ...]
"""
import difflib, json, os, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'

PRE = '''\
import os, sys, random, math
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
os.environ.setdefault('MPLBACKEND', 'Agg')
import numpy as np
from twisted.internet import defer, reactor
random.seed(1); np.random.seed(1)


def drive(f, seconds=60):
    """Runs that under the reactor; returns its result."""
    out = []
    def start():
        defer.maybeDeferred(f).addBoth(out.append).addBoth(
            lambda _: reactor.stop())
    def late():
        out.append('timeout')
        reactor.stop()
    reactor.callWhenRunning(start)
    reactor.callLater(seconds, late)
    reactor.run()
    return out[0]


def verdict(ok, text):
    print("OK" if ok else "BROKEN", text)
    sys.stdout.flush()
    os._exit(0 if ok else 1)


'''

DEMO = '''\
#!/bin/bash
# Run with /repo as working directory
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py" </dev/null
'''

BUGS = []


def bug(id_, prop, path, pairs, needs, breaks, demo):
    BUGS.append((id_, prop, path, pairs, needs, breaks, demo))


exec(open(os.path.join(ROOT, 'tools', 'bugs.py')).read())


def main(ids):
    base = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0',
                           'HEAD'], capture_output=True, text=True
                          ).stdout.split()[0]
    for id_, prop, path, pairs, needs, breaks, demo in BUGS:
        if ids and id_ not in ids:
            continue
        src = open(os.path.join(REPO, path)).read()
        orig = subprocess.run(['git', '-C', REPO, 'show', base + ':' + path],
                              capture_output=True, text=True).stdout
        new = src
        for a, b in pairs:
            if new.count(a) != 1:
                print(id_, "text occurs", new.count(a), "times:", repr(a))
            new = new.replace(a, b)
        diff = list(difflib.unified_diff(
            src.splitlines(True), new.splitlines(True), 'a/' + path,
            'b/' + path))
        have = set(orig.splitlines())
        for line in diff[2:]:
            if line.startswith('-') and line[1:].rstrip('\n') not in have:
                print(id_, "changes a line that is not original:", line)
        top = os.path.join(ROOT, 'seeded', id_)
        os.makedirs(top, exist_ok=True)
        with open(os.path.join(top, 'patch.diff'), 'w') as fh:
            fh.writelines(diff)
        with open(os.path.join(top, 'demo.sh'), 'w') as fh:
            fh.write(DEMO)
        os.chmod(os.path.join(top, 'demo.sh'), 0o755)
        with open(os.path.join(top, 'demo.py'), 'w') as fh:
            fh.write('"""%s"""\n' % breaks + PRE + demo.lstrip('\n'))
        with open(os.path.join(top, 'meta.json'), 'w') as fh:
            json.dump({'property': prop, 'needs': needs,
                       'what_it_breaks': breaks}, fh, indent=1)
            fh.write('\n')


main(sys.argv[1:])
