#!/usr/bin/env python3
"""plant.py FILE.py [ID...]: make and validate planted bugs.

FILE.py defines PLANTS, a list of dicts: id, property, needs, what,
edits=[(file, old, new[, count])], demo (C++ source).
For each one: apply to /repo, build, run the stable tests, run the demo, run
the checks of `property` (plus those named by PLANT_CHECKS), undo; then the
demo on the unchanged tree. Writes /verif/seeded/<id>/ when everything is as it
should be. /repo must be clean; it is left clean.
"""
import json, os, subprocess, sys, time, shutil

REPO = '/repo'
PRELUDE = r'''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
#include <new>
#include <thread>
#include <unistd.h>
#include "rehuel.hpp"
#include "erk.hpp"
#include "irk.hpp"
#include "multistep.hpp"
#include "newton.hpp"
#include "cyclic_buffer.hpp"

typedef std::function<arma::vec(double, const arma::vec &)> Fun;
typedef std::function<arma::mat(double, const arma::vec &)> Jac;
struct Ode {
	typedef arma::mat jac_type;
	Fun f; Jac j;
	int nf = 0, nj = 0;
	Ode(Fun f_, Jac j_ = Jac()) : f(f_), j(j_) {}
	arma::vec fun(double t, const arma::vec &y) { ++nf; return f(t, y); }
	arma::mat jac(double t, const arma::vec &y) { ++nj; return j(t, y); }
};
static int bad(const char *what) { std::fprintf(stderr, "DEMO: %s\n", what); return 1; }
'''
DEMO_SH = '''#!/bin/bash
# Run with cwd /repo. Exit 0: behaves as it should; nonzero: it does not.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 99
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 %s -I. "$D/demo.cpp" erk.cpp irk.cpp newton.cpp -o "$T/demo" -larmadillo -lpthread >"$T/log" 2>&1 || { cat "$T/log"; exit 98; }
timeout 60 "$T/demo" >"$T/out" 2>"$T/err"
rc=$?
grep '^DEMO' "$T/err"
exit $rc
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def clean():
    sh('git -C /repo checkout -- .')

def stable():
    return json.load(open('/opt/vp/BASELINE.json'))

def tests_ok():
    out = '/tmp/plant_tests.json'
    r = sh('bash /opt/vp/test.sh ' + out)
    try:
        d = json.load(open(out))
    except Exception as e:
        return False, 'no test output %s %s' % (e, r.stdout[-500:])
    base = stable()
    names = base['stable']
    passed = d.get('passed')
    if isinstance(passed, dict): passed = list(passed)
    missing = [n for n in names if n not in passed]
    return not missing, 'failing: %s' % missing

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    res = []
    for p in ns['PLANTS']:
        if want and p['id'] not in want: continue
        if sh('git -C /repo status --porcelain').stdout.strip():
            sys.exit('/repo is not clean')
        t0 = time.time()
        pid = p['id']
        d = '/tmp/plants/' + pid
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        base = '0b8026e'
        try:
            open(d + '/demo.cpp', 'w').write(PRELUDE + p['demo'])
            open(d + '/demo.sh', 'w').write(DEMO_SH % p.get('cxxflags', ''))
            os.chmod(d + '/demo.sh', 0o755)
            r = sh('bash %s/demo.sh' % d, cwd=REPO)
            if r.returncode: raise Exception('demo rc %d on unchanged: %s' % (r.returncode, r.stdout[:1500]))
            for e in p['edits']:
                f, old, new = e[:3]
                path = os.path.join(REPO, f)
                s = open(path).read()
                n = s.count(old)
                if n != (e[3] if len(e) > 3 else 1):
                    raise Exception('%s: %d matches of %r' % (f, n, old))
                open(path, 'w').write(s.replace(old, new))
            diff = sh('git -C /repo diff').stdout
            # changed lines must be original ones
            orig = {}
            for l in diff.split('\n'):
                if l.startswith('--- a/'): cur = l[6:]; orig[cur] = set(sh('git -C /repo show %s:%s' % (base, cur)).stdout.split('\n'))
                elif l.startswith('-') and l[1:].strip() and l[1:] not in orig[cur]:
                    print('  NOTE %s removes a line that is not original: %s' % (pid, l))
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.cpp', 'w').write(PRELUDE + p['demo'])
            open(d + '/demo.sh', 'w').write(DEMO_SH % p.get('cxxflags', ''))
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['what']}, open(d + '/meta.json', 'w'), indent=1)
            r = sh('bash %s/demo.sh' % d, cwd=REPO)
            if r.returncode in (0, 98, 99): raise Exception('demo rc %d with patch: %s' % (r.returncode, r.stdout[-1500:]))
            demo_msg = r.stdout.strip()
            b = sh('bash /opt/vp/build.sh')
            if b.returncode: raise Exception('build failed: ' + b.stdout[-1500:])
            ok, msg = tests_ok()
            if not ok: raise Exception('tests fail: ' + msg)
            caught = []
            checks = [p['property']] + [c for c in os.environ.get('PLANT_CHECKS', '').split(',') if c and c != p['property']]
            for c in checks:
                env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
                V = os.environ.get('PLANT_VERIF', '/verif'); r = sh(V + '/bin/check ' + c, env=env, cwd=V)
                v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
                caught.append('%s:%s' % (c, r.returncode))
                if c == p['property']: vio = (r.returncode, [l for l in r.stdout.split('\n') if 'VIOL' in l or 'class' in l][:3])
            clean()
            dst = '/verif/seeded/' + pid
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            res.append((pid, ' '.join(caught)))
            print('KEPT %s %s | %s | %s (%.0fs)' % (pid, ' '.join(caught), demo_msg, vio, time.time() - t0))
        except Exception as ex:
            clean()
            print('BAD %s %s' % (pid, ex))
        sys.stdout.flush()
    clean()

main()
