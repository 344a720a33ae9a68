#!/usr/bin/env python3
"""mkbug.py ID...: completes /verif/seeded/ID (demo.cc, patch.diff, meta.json must exist) with the demo kit and confirms it in a scratch copy of /repo."""
import sys, os, shutil, subprocess, tempfile, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
import check
DEMO = '''#!/bin/bash
# exit 0: behaviour as stated; nonzero: broken. Run in the repository root.
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -r "$T"' EXIT
g++ -std=c++17 -O1 -w -DSYM_NATIVE -DBOOST_NO_CXX11_VARIADIC_TEMPLATES -I"$D" -I"$D/stubs" -I"$D/gen" -I"$PWD/msf_timing/include" -I"$PWD/msf_core/include" -I"$PWD/msf_updates/include" -I"$PWD/msf_updates/src" -isystem /usr/include/eigen3 "$D/demo.cc" %s -o "$T/demo" -lglog -lpthread 2> "$T/log" || { grep -m5 error "$T/log"; exit 3; }
"$T/demo"
'''
def run(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(ids):
    w = tempfile.mkdtemp(prefix='bug_'); rep = os.path.join(w, 'repo'); run(f'cp -a /repo {rep}')
    bad = 0
    run(f'sed "s#/repo#{rep}#g;s#/opt/vp/driver#{w}/driver#" /opt/vp/build.sh > {w}/build.sh; cp -r /opt/vp/driver {w}/driver; sed -i "s#/repo#{rep}#g" {w}/driver/CMakeLists.txt; rm -rf {rep}/_build')
    for i in ids:
        d = os.path.join(HERE, 'seeded', i); src = open(os.path.join(d, 'demo.cc')).read()
        for s in ('stubs', 'gen'):
            if os.path.isdir(os.path.join(d, s)): shutil.rmtree(os.path.join(d, s))
        if 'msf_common.h' in src or '_state.h' in src:
            shutil.copytree(os.path.join(HERE, 'stubs'), os.path.join(d, 'stubs')); check.gen_configs('/repo', os.path.join(d, 'gen'))
            for h in os.listdir(os.path.join(HERE, 'harness')):
                if h.endswith('.h') and (h in ('sym.h', 'msf_common.h') or h in src or (h == 'pose_state.h' and '_state.h' in src)): shutil.copy(os.path.join(HERE, 'harness', h), d)
        extra = ' '.join('"$PWD/%s"' % s for s in json.load(open(os.path.join(d, 'meta.json'))).get('sources', []))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % extra); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        a = run(f'bash {d}/demo.sh', cwd=rep)
        p = run(f'git apply {d}/patch.diff', cwd=rep)
        # the scratch copy compiles against its own tree
        b = run(f'bash {w}/build.sh && {rep}/_build/msf_timing_testMSFTiming', cwd=rep)
        c = run(f'bash {d}/demo.sh', cwd=rep)
        run('git checkout -- .', cwd=rep)
        ok = a.returncode == 0 and p.returncode == 0 and c.returncode not in (0, 3)
        print(i, 'OK' if ok else 'BAD', 'plain', a.returncode, 'apply', p.returncode, 'build', b.returncode, 'patched', c.returncode)
        if not ok or b.returncode: print(a.stdout[-600:], p.stdout[-300:], b.stdout[-300:], c.stdout[-600:]); bad = 1
    shutil.rmtree(w); sys.exit(bad)
main(sys.argv[1:])
