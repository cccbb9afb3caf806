#!/usr/bin/env python3
"""Author tool (no check uses it).  python3 tools/plant.py SPEC.py [id...]

A spec defines PLANTS = [dict(id, prop, needs, what, edits=[(file, old, new[, nth])], demo)].
Each plant is tried in a scratch copy: it must build, pass the tests, change lines of the
original repository, and its demo must pass before and fail after.  Then it is written
to /verif/seeded/<id>/ and, in the scratch copy of /repo's place, the property's check is run."""
import os, sys, subprocess, json, shutil, tempfile, runpy
REPO, VERIF, BASE = '/repo', '/verif', '3cf576a'
HEAD = """#!/bin/bash
# run in /repo after the build; exit 0: the property holds on this example
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cargo build --offline -q --bin seam 2>/dev/null || { echo "no build"; exit 3; }
SEAM=$(pwd)/target/debug/seam
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cd "$W"
# is WANT ARGS...: output of seam ARGS < standard input
is() { local want="$1"; shift; local got; got=$("$SEAM" "$@" 2>"$W/.err"; echo "[$?]"); if [ "$got" != "$want" ]; then echo "want: $want"; echo "got:  $got"; cat "$W/.err"; exit 1; fi; }
"""


def sh(cmd, cwd, timeout=600):
    p = subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def original_lines(path):
    out = subprocess.run(['git', 'blame', '-s', '-l', '--abbrev=40', 'HEAD', '--', path], cwd=REPO, stdout=subprocess.PIPE).stdout.decode()
    return {n for n, l in enumerate(out.splitlines(), 1) if l.startswith('^')}


def main():
    spec = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    S = '/tmp/plantcopy'
    if not os.path.isdir(S):
        subprocess.run(['cp', '-a', REPO, S], check=True)
    env = '. /opt/vp/env.sh; '
    for p in spec['PLANTS']:
        if want and p['id'] not in want:
            continue
        subprocess.run('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq', shell=True, cwd=S, check=True)
        try:
            touched_ok = True
            for e in p['edits']:
                f, old, new = e[:3]
                path = 'crates/seam/src/' + f if not f.startswith('crates') else f
                full = os.path.join(S, path)
                t = open(full).read()
                n = t.count(old)
                nth = e[3] if len(e) > 3 else None
                if n == 0 or (n > 1 and nth is None):
                    raise Exception('%s: %d matches of %r' % (path, n, old))
                if nth is None:
                    i = t.index(old)
                else:
                    i = -1
                    for _ in range(nth):
                        i = t.index(old, i + 1)
                t2 = t[:i] + new + t[i + len(old):]
                open(full, 'w').write(t2)
            diff = subprocess.run(['git', 'diff', '-U3'], cwd=S, stdout=subprocess.PIPE).stdout.decode()
            # removed lines must be original
            orig = {}
            path = None
            rem = good = 0
            for l in diff.splitlines():
                if l.startswith('--- a/'):
                    path = l[6:]; orig = original_lines(path)
                elif l.startswith('@@'):
                    ln = int(l.split()[1][1:].split(',')[0])
                elif l.startswith('-'):
                    rem += 1; good += ln in orig; ln += 1
                elif l.startswith(' '):
                    ln += 1
            if good == 0 or good != rem:
                print('%s: NOT ORIGINAL %d of %d removed lines are original' % (p['id'], good, rem))
                if good == 0:
                    continue
            d = '/tmp/plants/%s' % p['id']
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.sh', 'w').write((HEAD if not p.get('nohead') else '#!/bin/bash\n') + p['demo'].strip('\n') + '\n')
            os.chmod(d + '/demo.sh', 0o755)
            for name, text in p.get('files', {}).items():
                open(d + '/' + name, 'w').write(text)
            json.dump({'property': p['prop'], 'needs': p['needs'], 'what_it_breaks': p['what']}, open(d + '/meta.json', 'w'), indent=1)
            rc, out = sh(env + 'cargo test --workspace --offline -q -- --test-threads 8 2>&1 | tail -30; exit ${PIPESTATUS[0]}', S)
            if rc:
                print('%s: BUILD/TESTS FAIL\n%s' % (p['id'], out[-1800:])); continue
            rc1, o1 = sh('bash %s/demo.sh' % d, S)
            subprocess.run('git stash -q', shell=True, cwd=S, check=True)
            rc0, o0 = sh('bash %s/demo.sh' % d, S)
            subprocess.run('git stash drop -q', shell=True, cwd=S, check=True)
            if rc0 != 0 or rc1 in (0, 3):
                print('%s: DEMO clean=%d patched=%d\nCLEAN %s\nPATCHED %s' % (p['id'], rc0, rc1, o0[-800:], o1[-800:])); continue
            t = VERIF + '/seeded/' + p['id']
            if os.path.isdir(t):
                shutil.rmtree(t)
            shutil.copytree(d, t)
            print('%s: kept (%s)' % (p['id'], p['prop']), flush=True)
        except Exception as e:
            print('%s: %s' % (p['id'], e))


main()
