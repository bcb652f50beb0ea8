#!/usr/bin/env python3
"""Turn the definitions in tools/seeds.py into seeded/<id>/ after validating each one in a scratch copy of /repo.
   mkseed.py [-c] [-f] [id...]   -c: also run the property's quick check against the mutated copy"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []


def seed(id, prop, edits, demo, needs, breaks, flags=''):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags))


exec(open(os.path.join(V, 'tools', 'seeds.py')).read())
DEMO = '''#!/bin/bash
# run with cwd /repo: compiles demo.cpp against the headers and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -std=c++11 -w -include cstdint -DVMMLIB_SAFE_ACCESSORS %s -I"$PWD" "$here/demo.cpp" -o "$out/demo" || exit 3
timeout 60 "$out/demo"
'''
CPP = '''#include <vmmlib/vmmlib.hpp>
#include <vmmlib/qr_decomposition.hpp>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <sstream>
using namespace vmml;
#define CHECK( x ) do { if( !( x )) { std::printf( "demo: %%s does not hold\\n", #x ); return 1; } } while( 0 )
static bool near_( double a, double b ) { return std::fabs( a - b ) <= 1e-4 * ( 1 + std::fabs( a ) + std::fabs( b )); }
int main()
{
%s
    return 0;
}
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def results(dir):
    """tests run in the mutated copy: headers only, so rebuild the test binaries there"""
    out = dir + '.json'
    rc, o = sh('unshare -Urm bash -c "mount --bind %s /repo && bash /opt/vp/test.sh %s"' % (dir, out))
    if not os.path.exists(out):
        return None, o
    r = json.load(open(out))
    os.remove(out)
    return r, o


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    check = '-c' in sys.argv
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base.get('passed') or base.get('stable') or base.get('tests'))
    todo = [s for s in S if not args or s['id'] in args or s['prop'] in args]
    if not args and '-f' not in sys.argv:
        todo = [s for s in todo if not os.path.exists(os.path.join(V, 'seeded', s['id']))]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as pool:
        res = list(pool.map(lambda s: one(s, check, stable), todo))
    rf = os.path.join(V, 'tools', 'seed_results.json')
    old = json.load(open(rf)) if os.path.exists(rf) else {}
    for s, (msg, r) in zip(todo, res):
        if r:
            old[s['id']] = 'caught' if r == 'CAUGHT' else 'missed'
    json.dump(dict(sorted(old.items())), open(rf, 'w'), indent=0)
    return 0 if all(not m and not r.startswith('MISSED') for m, r in res) else 1


def one(s, check, stable):
        dst = os.path.join(V, 'seeded', s['id'])
        tag = '%d_%s' % (os.getpid(), s['id'])
        w = '/tmp/vseed_' + tag
        shutil.rmtree(w, ignore_errors=True)
        sh('cp -a /repo %s' % w)
        sh('git checkout -q -- .', cwd=w)
        msg = []
        for f, old, new in s['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                msg.append('edit matches %d times: %s' % (t.count(old), old[:60]))
                break
            open(p, 'w').write(t.replace(old, new))
        if any(f.endswith('version.in.hpp') for f, _, _ in s['edits']):      # what the build would do
            t = open(w + '/vmmlib/version.in.hpp').read()
            for n, m in (('MAJOR', 1), ('MINOR', 8), ('PATCH', 0)):
                t = t.replace('@VERSION_%s@' % n, str(m))
            open(w + '/vmmlib/version.hpp', 'w').write(t)
        rc, diff = sh('git diff', cwd=w)
        rc, orig = sh('git diff 3220cb9..HEAD', cwd='/repo')
        added = {l[1:].strip() for l in orig.splitlines() if l.startswith('+') and len(l.strip()) > 8}
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() in added:
                msg.append('touches a line of a fix: ' + l)
        d = '/tmp/vseedd_' + tag
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo.sh', 'w').write(DEMO % s['flags'])
        open(d + '/demo.cpp', 'w').write(('#include <thread>\n' if 'thread' in s['flags'] else '#include <malloc.h>\n' if 'mallinfo' in s['demo'] else '') + CPP % s['demo'].strip('\n'))
        os.chmod(d + '/demo.sh', 0o755)
        if not msg:
            rc, o = sh('%s/demo.sh' % d, cwd='/repo')
            if rc:
                msg.append('demo fails on the clean tree: %d %s' % (rc, o[-1500:]))
            rc, o = sh('%s/demo.sh' % d, cwd=w)
            if rc in (0, 3):
                msg.append('demo does not notice: %d %s' % (rc, o[-1500:]))
            r, o = results(w)
            if r is None:
                msg.append('tests did not run: ' + o[-1500:])
            else:
                miss = stable - set(r['passed'])
                if miss:
                    msg.append('tests notice: %s' % sorted(miss)[:5])
        res = ''
        if not msg:
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            open(dst + '/patch.diff', 'w').write(diff)
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(dst + '/meta.json', 'w'), indent=1)
        if not msg and check:
            e = dict(os.environ, VP_REPO=w, VP_OUT='/tmp/vseedo_' + tag)
            rc, o = sh('python3-vt check.py %s' % s['prop'], cwd=V, env=e)
            v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
            res = 'CAUGHT' if rc == 1 and v else 'MISSED rc=%d %s' % (rc, o[-300:])
        print(s['id'], s['prop'], 'INVALID ' + '; '.join(msg) if msg else 'valid', res, flush=True)
        for x in (w, d, '/tmp/vseedo_' + tag):
            shutil.rmtree(x, ignore_errors=True)
        return msg, res


sys.exit(main())
