#!/usr/bin/env python3
"""Plant bugs in a scratch copy of /repo, confirm them (build, stable tests, demo) and run the checks against them.

plant.py SPEC.py [id ...]      SPEC.py defines BUGS = [dict(id=, prop=, edits=[(file, old, new)], demo=C++ body of main,
                               needs=, what=)]; paths relative to include/fastad_bits.  Writes /verif/seeded/<id>/.
plant.py --recheck [id ...]    only runs the checks of planted bugs (all properties in meta.json "property").
Scratch copy: /tmp/sc/base (cp -a of /repo), made when missing.
"""
import sys, os, json, subprocess, re, time, shutil
SC = os.environ.get('PLANT_SC', '/tmp/sc/base')
SEED = '/verif/seeded'
PRE = r'''#include <fastad>
#include <fastad_bits/reverse/core/det.hpp>
#include <fastad_bits/reverse/core/log_det.hpp>
#include <cstdio>
#include <cmath>
#include <vector>
using namespace ad;
static int bad = 0;
static void near(double got, double want, const char* what) {
    bool ok = (std::isinf(want) || std::isinf(got)) ? (got == want)
              : std::abs(got - want) <= 1e-8 * (1 + std::abs(want));
    if (!ok) { std::printf("%s: got %.12g, expected %.12g\n", what, got, want); bad = 1; }
}
#define NEAR(a, b) near((a), (b), #a)
int main() {
    (void)&near;
'''
POST = '\n    return bad;\n}\n'
DEMO = '''#!/bin/bash
# compiles demo.cpp against the headers of the current directory; exit 0 iff it observes the promised behaviour
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -r "$tmp"' EXIT
g++ -std=c++17 -O1 FLAGS -I"$PWD/include" -I/usr/include/eigen3 "$here/demo.cpp" -o "$tmp/demo" || exit 3
timeout 60 "$tmp/demo"
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def scratch():
    if not os.path.isdir(SC):
        os.makedirs(os.path.dirname(SC), exist_ok=True)
        sh('cp -a /repo %s' % SC)
    sh('git -C %s checkout -q -- . ; git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (SC, SC, SC))

def tests():
    r = sh("unshare -m sh -c 'mount --bind %s /repo && cd /repo && bash /opt/vp/build.sh >/tmp/pl/build.log 2>&1 && bash /opt/vp/test.sh /tmp/pl/t.json'" % SC)
    if r.returncode != 0 and not os.path.exists('/tmp/pl/t.json'):
        return 'build failed'
    base = json.load(open('/opt/vp/BASELINE.json'))
    t = json.load(open('/tmp/pl/t.json'))
    miss = set(base['stable']) - set(t['passed'])
    return 'ok' if not miss else 'tests fail: %s' % sorted(miss)[:4]

def check(prop, tier='quick'):
    t0 = time.time()
    env = dict(os.environ, VP_REPO=SC)
    r = subprocess.run(['./check.py', '--prop', prop, '--tier', tier], cwd='/verif', env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    return r.returncode, len(v), (v[0] if v else r.stdout.strip().split('\n')[-1])[:160], time.time() - t0

def one(b):
    scratch()
    d = '%s/%s' % (SEED, b['id'])
    for f, old, new, *nth in b['edits']:
        p = '%s/include/fastad_bits/%s' % (SC, f)
        s = open(p, newline='').read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if (s.count(old) != 1) if not nth else s.count(old) <= nth[0]:
            return 'edit of %s matches %d times' % (f, s.count(old))
        i = -1
        for _ in range((nth[0] if nth else 0) + 1):
            i = s.index(old, i + 1)
        open(p, 'w', newline='').write(s[:i] + new + s[i + len(old):])
    patch = subprocess.run(['git', '-C', SC, 'diff'], stdout=subprocess.PIPE).stdout
    if os.path.exists('/tmp/pl/t.json'): os.remove('/tmp/pl/t.json')
    r = tests()
    if r != 'ok':
        return r
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(patch)
    open(d + '/demo.cpp', 'w').write(PRE + b['demo'].rstrip() + POST if 'int main' not in b['demo'] else b['demo'])
    open(d + '/demo.sh', 'w').write(DEMO.replace('FLAGS', b.get('flags', '')).replace('  ', ' '))
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'), indent=1)
    r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    r1 = sh('bash %s/demo.sh' % d, cwd=SC)
    if r0.returncode != 0 or r1.returncode in (0, 3):
        shutil.rmtree(d)
        return 'demo: base rc %d, patched rc %d: %s' % (r0.returncode, r1.returncode, (r0.stdout + '|' + r1.stdout)[-600:])
    return None

def note(i, prop, caught, line):
    f = '/verif/tools/campaign.json'
    d = json.load(open(f)) if os.path.exists(f) else {}
    m = __import__('re').search(r'replays/(C\d+_\S+)\.json', line)
    d[i] = {'property': prop, 'caught': caught, 'first': (m.group(1) if m else '')}
    json.dump(d, open(f, 'w'), indent=1, sort_keys=True)

def main():
    a = sys.argv[1:]
    if a and a[0] == '--recheck':
        ids = a[1:] or sorted(os.listdir(SEED))
        for i in ids:
            m = json.load(open('%s/%s/meta.json' % (SEED, i)))
            scratch()
            r = sh('git -C %s apply %s/%s/patch.diff' % (SC, SEED, i))
            if r.returncode:
                print(i, 'PATCH DOES NOT APPLY'); continue
            rc, n, l, t = check(m['property'])
            note(i, m['property'], rc == 1 and n > 0, l)
            print('%-28s %s %s rc=%d n=%d %3.0fs %s' % (i, m['property'], 'CAUGHT' if rc == 1 and n else 'MISSED', rc, n, t, l), flush=True)
        scratch()
        return
    g = {}
    exec(open(a[0]).read(), g)
    for b in g['BUGS']:
        if a[1:] and b['id'] not in a[1:]:
            continue
        if not a[1:] and os.path.isdir('%s/%s' % (SEED, b['id'])):
            continue
        e = one(b)
        if e:
            print('%-28s %s REJECTED %s' % (b['id'], b['prop'], e), flush=True)
            continue
        rc, n, l, t = check(b['prop'])
        note(b['id'], b['prop'], rc == 1 and n > 0, l)
        print('%-28s %s %s rc=%d n=%d %3.0fs %s' % (b['id'], b['prop'], 'CAUGHT' if rc == 1 and n else 'MISSED', rc, n, t, l), flush=True)
    scratch()
main()
