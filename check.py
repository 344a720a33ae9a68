#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of the real code.

usage: check.py <PROPERTY> [--tier quick|thorough] [--entry NAME] [--verbose] [--repo DIR] [--keep]
exit 0: every obligation discharged within the stated bounds; exit 1 + VIOLATION line: a counterexample that
also fails when replayed against the natively compiled code; exit 2: no verdict."""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, argparse, fcntl, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import registry

CLANG = 'clang++-18'; LINK = 'llvm-link-18'
ENGINE = os.environ.get('SYMX') or os.path.join(HERE, 'build', 'symx')

def build_engine(verbose=False):
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    with open(os.path.join(HERE, 'build', '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(['make', '-j4', '-C', os.path.join(HERE, 'engine'), 'OUT=' + os.path.join(HERE, 'build')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-3000:]); sys.exit(2)

def sh(cmd, timeout=None, env=None):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env, errors='replace')
    except subprocess.TimeoutExpired as e:
        class R: pass
        r = R(); r.returncode = 124; r.stdout = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''); return r

class Ctx: pass

def gen_configs(repo, out):
    """dynamic_reconfigure headers from the repository's .cfg files: one field per parameter with its default, one constant per gen.const"""
    for pkg in ('msf_core', 'msf_updates', 'msf_distort'):
        cdir = os.path.join(repo, pkg, 'cfg')
        for fn in sorted(os.listdir(cdir)) if os.path.isdir(cdir) else []:
            if not fn.endswith('.cfg'): continue
            name = fn[:-4]; txt = '\n'.join(re.sub(r'^\s*#.*$', '', l) for l in open(os.path.join(cdir, fn), errors='replace'))
            fields, consts = [], []
            for m in re.finditer(r'gen\.const\(\s*"(\w+)"\s*,\s*int_t\s*,\s*([0-9a-fA-FxX]+)', txt): consts.append((m[1], m[2]))
            ty = {'bool_t': 'bool', 'double_t': 'double', 'int_t': 'int', 'str_t': 'std::string'}
            for m in re.finditer(r'gen\.add\(\s*"(\w+)"\s*,\s*(\w+)\s*,\s*([^,]+?)\s*,\s*"([^"]*)"\s*,\s*([^,)]+)', txt):
                d = m[5].strip(); d = {'False': 'false', 'True': 'true'}.get(d, d).replace("'", '"')
                fields.append((ty.get(m[2], 'double'), m[1], d))
            d = os.path.join(out, pkg); os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, name + 'Config.h'), 'w') as f:
                f.write('#pragma once\n#include <string>\nnamespace %s {\nenum { %s };\nstruct %sConfig {\n' % (pkg, ', '.join('%s_%s = %s' % (name, c, v) for c, v in consts), name))
                for t, n, v in fields: f.write('  %s %s = %s;\n' % (t, n, v))
                f.write('};\n}\n')

def inc_flags(repo, unit, work=None):
    f = ['-I' + os.path.join(HERE, 'harness'), '-I' + os.path.join(HERE, 'stubs')]
    if work: f.append('-I' + os.path.join(work, 'gen'))
    for d in ['msf_timing/include', 'msf_core/include', 'msf_updates/include'] + unit.get('inc', []): f.append('-I' + os.path.join(repo, d))
    f += ['-isystem', '/usr/include/eigen3']
    return f

COMMON = ['-std=c++17', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DNDEBUG', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_DONT_PARALLELIZE', '-DEIGEN_NO_DEBUG', '-DEIGEN_NO_CPUID', '-DEIGEN_MAX_STATIC_ALIGN_BYTES=0', '-Wno-everything', '-DBOOST_NO_CXX11_VARIADIC_TEMPLATES']
ENGINE_FLAGS = ['-O1', '-fno-pie', '-gline-tables-only', '-emit-llvm', '-c', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-math-errno', '-fno-discard-value-names', '-fno-threadsafe-statics']
NATIVE_FLAGS = ['-O0', '-gline-tables-only', '-ffp-contract=off', '-DSYM_NATIVE', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr,null', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']

def unit_key(u, defs):
    return u['src'] + ' ' + ' '.join(list(defs) + u.get('flags', []))

def compile_unit(cx, u, defs):
    """-> path of linked bitcode, or error text"""
    h = hashlib.sha1(unit_key(u, defs).encode()).hexdigest()[:10]; base = os.path.join(cx.work, 'u' + h)
    srcs = [os.path.join(HERE, 'harness', u['src']), os.path.join(HERE, 'harness', 'models.cc')] + [os.path.join(cx.repo, s) for s in u.get('repo_srcs', [])] + [os.path.join(HERE, 'harness', s) for s in u.get('extra_srcs', [])]
    dfl = ['-D' + d for d in defs] + u.get('flags', [])
    outs = []
    for i, s in enumerate(srcs):
        o = f'{base}_{i}.bc'; outs.append(o)
        r = sh([CLANG] + COMMON + ENGINE_FLAGS + ['-include', os.path.join(HERE, 'harness', 'engine_pre.h')] + dfl + inc_flags(cx.repo, u, cx.work) + ['-o', o, s], timeout=600)
        if r.returncode: return None, f'compile of {s} failed:\n' + r.stdout[:4000]
    r = sh([LINK] + outs + ['-o', base + '.bc'])
    if r.returncode: return None, 'link failed: ' + r.stdout[:2000]
    return base + '.bc', None

def compile_native(cx, u, defs):
    h = hashlib.sha1(unit_key(u, defs).encode()).hexdigest()[:10]; out = os.path.join(cx.work, 'n' + h)
    srcs = [os.path.join(HERE, 'harness', u['src']), os.path.join(HERE, 'harness', 'native.cc')] + [os.path.join(cx.repo, s) for s in u.get('repo_srcs', [])] + [os.path.join(HERE, 'harness', s) for s in u.get('extra_srcs', [])]
    r = sh([CLANG] + COMMON + NATIVE_FLAGS + ['-D' + d for d in defs] + u.get('flags', []) + inc_flags(cx.repo, u, cx.work) + srcs + ['-o', out] + u.get('libs', []) + ['-lpthread', '-fuse-ld=lld'], timeout=800)
    if r.returncode:
        r = sh([CLANG] + COMMON + NATIVE_FLAGS + ['-D' + d for d in defs] + u.get('flags', []) + inc_flags(cx.repo, u, cx.work) + srcs + ['-o', out] + u.get('libs', []) + ['-lpthread'], timeout=800)
    if r.returncode: return None, r.stdout[:4000]
    return out, None

def memcheck(cx, u, defs, entry, values_file):
    """a counterexample that depends on uninitialised memory: run the same values under valgrind -> its message, or None"""
    h = hashlib.sha1(unit_key(u, defs).encode()).hexdigest()[:10]; out = os.path.join(cx.work, 'v' + h)
    if not os.path.exists(out):
        srcs = [os.path.join(HERE, 'harness', u['src']), os.path.join(HERE, 'harness', 'native.cc')] + [os.path.join(cx.repo, s) for s in u.get('repo_srcs', [])] + [os.path.join(HERE, 'harness', s) for s in u.get('extra_srcs', [])]
        fl = [f for f in NATIVE_FLAGS if 'sanitize' not in f]
        if sh([CLANG] + COMMON + fl + ['-D' + d for d in defs] + u.get('flags', []) + inc_flags(cx.repo, u, cx.work) + srcs + ['-o', out] + u.get('libs', []) + ['-lpthread'], timeout=300).returncode: return None
    r = sh(['valgrind', '-q', '--error-exitcode=99', out, entry, values_file], timeout=200, env=dict(NENV))
    l = [x.split('== ', 1)[-1] for x in (r.stdout or '').splitlines() if 'uninitialised' in x]
    return 'valgrind: ' + l[0].strip() if r.returncode == 99 and l else None

def write_values(path, vals):
    with open(path, 'w') as f:
        for k, v in vals.items(): f.write(f'{k}\t{v}\n')

NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=1:detect_stack_use_after_return=0:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0:exitcode=1', GLOG_minloglevel='3')

def replay(binary, entry, values_file, timeout=60):
    r = sh([binary, entry, values_file], timeout=timeout, env=NENV)
    out = r.stdout or ''
    fails = [l for l in out.splitlines() if l.startswith('ASSERT-FAIL')]
    san = [l for l in out.splitlines() if 'ERROR: AddressSanitizer' in l or 'runtime error:' in l or 'terminate called' in l or 'Check failed' in l]
    return r.returncode, fails, san, out

def run_engine(cx, e, bc, tier):
    t = e.get('time', {}).get(tier, 200 if tier == 'quick' else 600)
    out = os.path.join(cx.work, e['name'] + '_' + hashlib.sha1(bc.encode()).hexdigest()[:6] + '.json')
    cmd = [ENGINE, '--bc', bc, '--entry', e['fn'], '--out', out, '--time', str(t), '--seed', str(cx.seed), '--work-dir', cx.work]
    if e.get('fp'): cmd.append('--fp')
    for s in e.get('skip', []) + registry.GLOBAL_SKIP: cmd += ['--skip', s]
    cmd += [str(x) for x in e.get('opts', [])] + [str(x) for x in e.get('opts_' + tier, [])]
    if cx.verbose: cmd.append('--verbose')
    for attempt in (1, 2):  # once more if the engine was ended by a signal
        if cx.verbose:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, timeout=t + 120)
        else:
            r = sh(cmd, timeout=t + 60)
        if os.path.exists(out) or r.returncode >= 0: break
    if not os.path.exists(out): return None, f'engine ended with {r.returncode}: ' + (r.stdout or '')[-1500:]
    with open(out) as f: return json.load(f), None

def known_findings():
    p = os.path.join(HERE, 'known_findings.jsonl'); r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l[0] == '{': r.append(json.loads(l))
    return r

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=None); ap.add_argument('--entry'); ap.add_argument('--verbose', action='store_true'); ap.add_argument('--repo', default='/repo'); ap.add_argument('--keep', action='store_true'); ap.add_argument('-j', type=int, default=8); ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(); t0 = time.time()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    P = registry.PROPS[a.prop]
    build_engine()
    cx = Ctx(); cx.repo = a.repo; cx.seed = seed; cx.verbose = a.verbose; cx.tier = tier
    cx.work = tempfile.mkdtemp(prefix='symx_' + a.prop + '_', dir=os.environ.get('TMPDIR') or '/tmp')
    rc = 2
    gen_configs(a.repo, os.path.join(cx.work, 'gen'))
    try:
        rc = check(cx, a, P, tier, seed, t0)
    finally:
        if not a.keep: shutil.rmtree(cx.work, ignore_errors=True)
        else: print('kept', cx.work)
    sys.exit(rc)

def check(cx, a, P, tier, seed, t0):
    entries = [dict(e) for e in P['entries'] if (not a.entry or re.search(a.entry, e['name'])) and tier in e.get('tiers', ('quick', 'thorough'))]
    units = {}
    for e in entries:
        u = registry.UNITS[e['unit']]; defs = tuple(u.get('defs', [])) + tuple(e.get('defs', [])) + tuple(e.get('defs_' + tier, []))
        e['ukey'] = (e['unit'], defs); units[e['ukey']] = u
    ex = ThreadPoolExecutor(max_workers=a.j)
    bcf = {k: ex.submit(compile_unit, cx, u, list(k[1])) for k, u in units.items()}
    nbf = {k: ex.submit(compile_native, cx, u, list(k[1])) for k, u in units.items()}
    def job(e):
        bc, err = bcf[e['ukey']].result()
        if err: return e, None, err
        r, err = run_engine(cx, e, bc, tier); return e, r, err
    # engine jobs wait on compiles: give them their own pool
    ex2 = ThreadPoolExecutor(max_workers=a.j)
    results = [f.result() for f in [ex2.submit(job, e) for e in sorted(entries, key=lambda e: -e.get('weight', 1))]]
    problems, violations, known = [], [], []
    kf = [k for k in known_findings() if k.get('property') == a.prop and k.get('status') == 'known']
    tot = dict(paths=0, completed=0, forks=0, steps=0, ob=0, struct=0, poly=0, solver=0, failed=0, unknown=0, queries=0, solver_s=0.0, feas_unknown=0, cross=0, crossok=0)
    funcs, notes, samples, unsup, per_entry, traces, trace_bad = set(), set(), [], set(), [], 0, 0
    rdir = os.path.join(HERE, 'evidence', 'replay_' + a.prop); shutil.rmtree(rdir, ignore_errors=True)
    def native(e):
        b, err = nbf[e['ukey']].result()
        if err: problems.append(f"native build of {e['unit']} failed: {err[:1500]}")
        return b
    for e, r, err in results:
        if err: problems.append(f"{e['name']}: {err}"); continue
        ob = r['obligations']
        tot['paths'] += r['paths']; tot['completed'] += r['completed']; tot['forks'] += r['forks']; tot['steps'] += r['steps']; tot['queries'] += r['queries']; tot['solver_s'] += r['solver_s']
        tot['ob'] += ob['total']; tot['struct'] += ob['structural']; tot['poly'] += ob['polynomial']; tot['solver'] += ob['solver']; tot['failed'] += ob['failed']; tot['unknown'] += ob['unknown']; tot['feas_unknown'] += r['feasibility_unknown']
        tot['cross'] += r['crosscheck']['asked']; tot['crossok'] += r['crosscheck']['agreed']
        if r['crosscheck']['disagreed']: problems.append(f"{e['name']}: normal form and solver disagree")
        funcs.update(r['functions_repo']); notes.update(r['notes'])
        for s in r['samples'][:1]: samples.append({'entry': e['name'], 'obligation': s})
        per_entry.append(dict(entry=e['name'], bound=e.get('bound', ''), mode=r['mode'], paths=r['paths'], completed=r['completed'], obligations=ob, by_message=r['by_message'], queries=r['queries'], solver_s=round(r['solver_s'], 2), wall_s=round(r['wall_s'], 2), reach=r['reach'], division_by_nonzero_assumed=r['division_by_nonzero_assumed'], undef_branches=r['undef_branches'], timed_out=r['timed_out']))
        if r['timed_out']: problems.append(f"{e['name']}: bound not exhausted within the time limit ({r['completed']} paths)")
        if r['unsupported_paths']: problems.append(f"{e['name']}: {r['unsupported_paths']} paths could not be encoded: {r['unsupported'][:3]}")
        for m in e.get('reach', ['end']):
            if not r['reach'].get(m) and not r['cexs']: problems.append(f"{e['name']}: vacuous, '{m}' never reached")
        if ob['unknown']: problems.append(f"{e['name']}: {ob['unknown']} obligations undecided: {list(r['unknown_by_message'])[:5]}")
        if ob['total'] == 0: problems.append(f"{e['name']}: no obligation generated")
        # counterexamples: replay each against the real code
        confirmed = False; tried = 0
        for i, x in enumerate(r['cexs']):
            b = native(e)
            if not b: break
            os.makedirs(rdir, exist_ok=True); vf = os.path.join(rdir, f"{e['name']}_{i}.values"); write_values(vf, x['values'])
            code, fails, san, out = replay(b, e['fn'], vf); tried += 1
            ok = (code == 1 and fails and x['kind'] == 'assert') or (san and x['kind'] != 'assert') or (x['kind'] in ('abort', 'exception') and code not in (0, 77)) or (x['kind'] == 'assert' and san) or (code not in (0, 77, 1, 124) and x['kind'] in ('memory', 'unreachable', 'divzero', 'trap'))
            if x['kind'] != 'assert' and not ok and e.get('static_ub'):  # undefined behaviour no sanitizer reports; see DESIGN.md
                ok = False
            mc = None
            if not ok and x.get('undef') and x['kind'] == 'assert':
                try: mc = memcheck(cx, registry.UNITS[e['unit']], list(e['ukey'][1]), e['fn'], vf)
                except subprocess.TimeoutExpired: pass
                ok = bool(mc)
            if ok:
                msg = x['msg']; det = ([mc] if mc else fails or san or ['native run ended with code %d' % code])[0]
                fnd = next((k for k in kf if k['entry'] == e['name'] and re.fullmatch(k['match'], msg)), None)
                if fnd: known.append((fnd['what'], msg)); continue
                with open(vf + '.txt', 'w') as f: f.write(f"property {a.prop}\nentry {e['fn']} (harness/{registry.UNITS[e['unit']]['src']})\nobligation: {msg}\nkind: {x['kind']}\nat: {x['loc']}\nnative: {det}\nreplay: compile the harness with -DSYM_NATIVE and harness/native.cc, run `<binary> {e['fn']} {os.path.basename(vf)}`\nvalues:\n" + open(vf).read())
                violations.append((vf + '.txt', e['name'], msg, det)); confirmed = True
            else:
                if cx.verbose: print('unconfirmed', e['name'], x['msg'], x['kind'], code, out[-500:], x['loc'], x['values'])
                problems.append(f"{e['name']}: counterexample to '{x['msg']}' ({x['kind']} at {x['loc'][:200]}) did not reproduce natively (exit {code})")
        # encoding validation: models of completed paths, run natively
        if not r['cexs'] and r['path_models'] and not e.get('no_native'):
            b = native(e)
            for i, pm in enumerate(r['path_models'][: (3 if tier == 'quick' else 12)]):
                if not b: break
                vf = os.path.join(cx.work, f"pm_{e['name']}_{i}"); write_values(vf, pm['values']); code, fails, san, out = replay(b, e['fn'], vf)
                reached = sorted(set(l[6:] for l in out.splitlines() if l.startswith('REACH ')))
                if code == 0 and reached == sorted(pm['reach']): traces += 1
                else:
                    trace_bad += 1
                    if cx.verbose: print('path model mismatch', e['name'], code, fails[:3], san[:2], reached, pm)
    ex.shutdown(wait=True); ex2.shutdown()
    if not a.no_evidence and not a.entry:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        ev = dict(property=a.prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(violations),
            assumptions=registry.ASSUMPTIONS + P.get('assumptions', []),
            coverage=dict(states=tot['completed'], transitions=tot['steps'], traces_validated_against_impl=traces, samples=samples[:6] or ['none'],
                explanation='symbolic execution of the LLVM IR of the real functions; states = completed symbolic paths, transitions = IR instructions executed symbolically, traces_validated = solver models of completed paths replayed natively with the same outcome',
                bounds=[dict(entry=p['entry'], bound=p['bound']) for p in per_entry], functions_encoded=sorted(funcs), n_functions_encoded=len(funcs),
                obligations=tot['ob'], discharged=tot['struct'] + tot['poly'] + tot['solver'], discharged_structurally=tot['struct'], discharged_by_polynomial_normal_form=tot['poly'], discharged_by_smt=tot['solver'], normal_form_crosschecked_with_smt=[tot['crossok'], tot['cross']],
                failed=tot['failed'], unknown=tot['unknown'], queries=tot['queries'], solver_s=round(tot['solver_s'], 2), feasibility_unknown=tot['feas_unknown'], trace_mismatches=trace_bad, per_entry=per_entry, notes=sorted(notes)[:40], problems=problems, known_findings_hit=[k[0] for k in known]))
        with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for w in sorted(set(k[0] for k in known)): print(f'KNOWN-FINDING: property={a.prop} {w}')
    print(f"{a.prop} [{tier}] entries={len(results)} paths={tot['completed']} obligations={tot['ob']} (structural {tot['struct']}, normal form {tot['poly']}, smt {tot['solver']}, failed {tot['failed']}, unknown {tot['unknown']}) queries={tot['queries']} solver={tot['solver_s']:.1f}s replayed={traces} mismatches={trace_bad} wall={time.time()-t0:.1f}s")
    for p in problems: print('PROBLEM ' + p)
    if violations:
        for vf, en, msg, det in violations[:10]: print(f'  counterexample: {en}: {msg}: {det}')
        print(f'VIOLATION property={a.prop} replay={violations[0][0]}')
        return 1
    return 2 if problems else 0

if __name__ == '__main__': main()
