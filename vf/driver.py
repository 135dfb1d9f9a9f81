"""Bounded symbolic execution of the real code with CBMC, counterexample replay against the real code, evidence.

usage: python3 vf/driver.py <property-id> [--tier quick|thorough] [--run NAME] [--keep]
"""
import os, sys, re, json, time, glob, shutil, subprocess, tempfile, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SRC = REPO + '/src/wickrcrypto/src'
INC = [REPO + '/src/wickrcrypto/include/wickrcrypto', REPO + '/src/wickrcrypto/include/wickrcrypto/private',
       REPO + '/src/wickrcrypto/include', REPO + '/src/protobuf/gen', VERIF + '/models/include']
GEN = REPO + '/src/protobuf/gen'
sys.path.insert(0, VERIF + '/vf')
import pbgen
JOBS = int(os.environ.get('VF_JOBS', '8'))

class CheckError(Exception): pass

def sh(cmd, timeout=None, mem_gb=None, **kw):
    pre = None
    if mem_gb:
        import resource
        def pre(): resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', preexec_fn=pre, start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate()
        raise
    return p.returncode, out, err

def includes(): return ['-I' + i for i in INC]

def repo_sources():
    # kdf.c is compiled against stand-in headers for libscrypt / crypt_blowfish (its dependencies are not in the tree)
    return sorted(glob.glob(SRC + '/*.c')) + sorted(glob.glob(GEN + '/*.c'))

def compile_many(cc, srcs, outdir, flags):
    os.makedirs(outdir, exist_ok=True)
    def one(s):
        o = os.path.join(outdir, os.path.basename(s) + '.o')
        rc, out, err = sh(cc + ['-c', s, '-o', o] + flags)
        if rc != 0: raise CheckError('compile of %s failed:\n%s%s' % (s, out[-3000:], err[-3000:]))
        return o
    with cf.ThreadPoolExecutor(JOBS) as ex: return list(ex.map(one, srcs))

class Build:
    """goto objects of the whole library, compiled from the current tree"""
    def __init__(self, tmp):
        self.tmp = tmp
        t = time.time()
        # goto build only: header copies in which unions are structs, because CBMC does not propagate constants through
        # unions. Oneof members are kept equal by the pb model; for transport packet headers reading a member that was
        # not written gives an arbitrary value instead of the other member's bytes.
        self.inc = []
        for i, (src, dst) in enumerate(((REPO + '/src/wickrcrypto/include', tmp + '/inc/w'), (GEN, tmp + '/inc/gen'))):
            shutil.copytree(src, dst)
            for h in glob.glob(dst + '/**/*.h', recursive=True):
                old = open(h).read(); new = re.sub(r'\bunion\s*\{', 'struct {', old)
                if new != old: open(h, 'w').write(new)
        self.inc = ['-I' + tmp + '/inc/' + d for d in ('w/wickrcrypto', 'w/wickrcrypto/private', 'w', 'gen')] + ['-I' + VERIF + '/models/include']
        self.repo_objs = compile_many(['goto-cc', '-w', '-DVF_GOTO'], sorted(glob.glob(SRC + '/*.c')) + sorted(glob.glob(tmp + '/inc/gen/*.c')), tmp + '/goto', self.inc)
        self.pb = tmp + '/vf_pb.c'
        open(self.pb, 'w').write(pbgen.generate(GEN, tmp))
        self.t_build = time.time() - t

def model_files(run, build):
    models = run.get('models', ['engine', 'pb', 'pbbytes'])
    m = []
    for x in models:
        if x == 'pb': m.append(build.pb)
        elif x == 'engine': m.append(VERIF + '/models/vf_engine.c')
        elif x == 'pbbytes': m.append(VERIF + '/models/vf_pb_bytes.c')
        else: m.append(VERIF + '/models/' + x)
    return m

def dropped(run):
    d = set(run.get('drop', []))
    # the engine model stands in for everything below the engine interface
    if 'engine' in run.get('models', ['engine', 'pb', 'pbbytes']): d |= {'openssl_suite.c', 'openssl_file_suite.c'}
    return d

def defs(run): return ['-D' + d for d in run.get('defs', [])]

def link_goto(run, build, work):
    h = VERIF + '/harness/' + run['harness']
    fl = build.inc + defs(run) + ['-w', '-DVF_GOTO']
    objs = compile_many(['goto-cc'], [h] + model_files(run, build) + [VERIF + '/models/vf_cbmc.c'], work + '/h', fl)
    drop = dropped(run)
    repo = [o for o in build.repo_objs if os.path.basename(o)[:-2] not in drop]
    only = run.get('only')
    if only is not None: repo = [o for o in repo if os.path.basename(o)[:-2] in only]
    gb = work + '/prog.gb'
    rc, out, err = sh(['goto-cc', '-w', '-o', gb, '--function', 'main'] + objs + repo)
    if rc != 0: raise CheckError('goto link failed: ' + out[-2000:] + err[-2000:])
    return gb

BASE = ['--no-malloc-may-fail', '--unwinding-assertions', '--drop-unused-functions', '--slice-formula', '--max-field-sensitivity-array-size', '400']

def cbmc_flags(run, unwind):
    fl = ['--unwind', str(unwind), '--object-bits', str(run.get('object_bits', 13))] + BASE
    if run.get('paths', True): fl += ['--paths', 'lifo']
    if run.get('unwindset'): fl += ['--unwindset', ','.join(run['unwindset'])]
    fl += run.get('flags', [])
    return fl

def parse_json(out):
    try: return json.loads(out)
    except Exception:
        return None

def run_cbmc(gb, run, unwind, timeout, extra=()):
    t = time.time()
    rc, out, err = sh(['cbmc', gb, '--json-ui', '--verbosity', '8'] + cbmc_flags(run, unwind) + list(extra), timeout=timeout, mem_gb=run.get('mem_gb', 14))
    dt = time.time() - t
    js = parse_json(out)
    if js is None: raise CheckError('cbmc produced no parsable output (rc %s): %s %s' % (rc, out[-1500:], err[-500:]))
    res = None; msgs = []
    for e in js:
        if 'result' in e: res = e['result']
        if 'messageText' in e: msgs.append(e['messageText'])
    if res is None: raise CheckError('cbmc gave no verdict (rc %s): %s %s' % (rc, '\n'.join(msgs[-12:]), err[-500:]))
    return res, msgs, dt

def solver_time(msgs):
    t = [float(g.group(1)) for m in msgs for g in [re.match(r'Runtime Solver: ([\d.e-]+)s', m)] if g]
    return sum(t), len(t)

def vccs(msgs):
    a = b = 0
    for m in msgs:
        g = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', m)
        if g: a += int(g.group(1)); b += int(g.group(2))
    return a, b

def trace_inputs(gb, run, unwind, prop, timeout):
    extra = ['--property', prop, '--trace']
    res, msgs, dt = run_cbmc(gb, run, unwind, timeout, extra)
    for r in res:
        if r['property'] == prop and r['status'] == 'FAILURE':
            vals = []
            for st in r.get('trace', []):
                if st.get('stepType') == 'input' and st.get('inputID') == 'vfin':
                    v = st['values'][0]
                    vals.append(int(v['binary'], 2) if 'binary' in v else int(re.match(r'-?\d+', v['data']).group(0)))
            return vals, r
    return None, None

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute,alignment', '-fno-omit-frame-pointer']

def native_build(run, build, work):
    """the same harness and models, linked with the real sources, gcc + ASan + UBSan"""
    nd = build.tmp + '/native'
    stamp = nd + '/.done'
    fl = ['-g', '-O0', '-w'] + SAN + includes()
    if not os.path.exists(stamp):
        compile_many(['gcc'], repo_sources(), nd, fl + run.get('native_repo_flags', []))
        open(stamp, 'w').close()
    drop = dropped(run) | set(run.get('native_drop', []))
    only = run.get('only')
    repo = [o for o in sorted(glob.glob(nd + '/*.c.o')) if os.path.basename(o)[:-2] not in drop and (only is None or os.path.basename(o)[:-2] in only)]
    h = VERIF + '/harness/' + run['harness']
    objs = compile_many(['gcc'], [h] + model_files(run, build) + [VERIF + '/models/vf_native.c'], work + '/n', fl + defs(run))
    exe = work + '/replay'
    libs = run.get('native_libs', ['-lcrypto'])
    # kdf.o is left out unless the harness provides its dependencies
    if not run.get('kdf') : repo = [o for o in repo if not o.endswith('/kdf.c.o')] if run.get('nokdf') else repo
    link = ['gcc', '-o', exe] + SAN + objs + repo + ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free']
    rc, out, err = sh(link + libs)
    if rc != 0:
        # functions the library can name but this harness never reaches (third-party code that is not in the tree)
        missing = sorted(set(re.findall(r"undefined reference to `([A-Za-z_]\w*)'", err)))
        if not missing: raise CheckError('native link failed: ' + err[-3000:])
        st = work + '/stubs.c'
        open(st, 'w').write('#include <stdio.h>\n#include <unistd.h>\n' + ''.join('void %s(void) { fprintf(stderr, "VF-STUB %s\\n"); _exit(45); }\n' % (m, m) for m in missing))
        rc, out, err = sh(link + ['-fno-builtin', '-w', st] + libs)
        if rc != 0: raise CheckError('native link failed: ' + err[-3000:])
    return exe

def native_replay(exe, path, timeout=60):
    """run the counterexample on the real code under several fill patterns for uninitialised heap memory"""
    tried = []
    for fill in ('-1', '0', '255', '1', '170', '2', '65'):
        env = dict(os.environ, VF_REPLAY=path, VF_FILL=fill,
                   ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=50:allocator_may_return_null=1:max_allocation_size_mb=4096',
                   UBSAN_OPTIONS='exitcode=51:print_stacktrace=1')
        try:
            rc, out, err = sh([exe], timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            return True, 'the real code does not terminate on this input (>%ds), fill %s' % (timeout, fill)
        tried.append((fill, rc, err.strip()[-1500:]))
        if rc == 42 and 'still allocated' in err:
            env.update(VF_LSAN='1', ASAN_OPTIONS='detect_leaks=1')
            err = sh([exe], timeout=timeout, env=env)[2]
        if rc in (42, 50, 51) or rc < 0: return True, 'fill %s: exit %s\n%s' % (fill, rc, err[-4000:])
    return False, '\n'.join('fill %s -> exit %s %s' % t for t in tried)

def known_findings(pid):
    """known: property=<id> at=<function> what=<assertion text>"""
    r = []
    try:
        for l in open(VERIF + '/known_findings.txt'):
            g = re.match(r'known: property=(\S+) at=(\S+) what=(.*)', l.strip())
            if g and g.group(1) == pid: r.append((g.group(2), g.group(3)))
    except FileNotFoundError: pass
    return r

def classify(res, hunting=False):
    fails, internal, unw, reach_ok, reach_bad = [], [], [], [], []
    ok = 0
    for r in res:
        d = r.get('description', ''); st = r['status']; p = r['property']
        if d.startswith('VFREACH') :
            (reach_ok if st == 'FAILURE' else reach_bad).append(d)
            continue
        if st == 'SUCCESS': ok += 1; continue
        if st != 'FAILURE': internal.append((p, d + ' [' + st + ']')); continue
        if d.startswith('VFINTERNAL'): internal.append((p, d))
        elif hunting and ('.unwind.' in p or 'unwinding' in d): pass
        elif 'unwinding assertion' in d or '.unwind.' in p or 'recursion unwinding' in d: unw.append((p, d))
        else: fails.append((p, d))
    return ok, fails, internal, unw, reach_ok, reach_bad

def where(r):
    l = r.get('sourceLocation') or {}
    return '%s:%s (%s)' % (l.get('file', '?'), l.get('line', '?'), l.get('function', '?'))

def execute_run(pid, run, build, tier, keep=False):
    name = run['name']
    work = tempfile.mkdtemp(prefix='r_' + re.sub(r'\W', '_', name) + '_', dir=build.tmp)
    rec = dict(name=name, harness=run['harness'], bounds=run.get('bounds', ''), violations=[], known=[], error=None)
    try:
        gb = link_goto(run, build, work)
        unwind = run.get('unwind', 260)
        cap = int(os.environ.get('VF_TIMEOUT', run.get('timeout', 700)))
        res = None
        t0 = time.time()
        hunting = False
        for attempt in range(10):
            try:
                res, msgs, dt = run_cbmc(gb, run, unwind, max(30, cap - (time.time() - t0)))
            except (subprocess.TimeoutExpired, CheckError) as e:
                # no verdict at full depth: look for a violation at a shallow depth (it can refute, never prove)
                res = None
                for shallow in (6, 14, 36):
                    if shallow >= unwind: break
                    try: r2 = run_cbmc(gb, dict(run, flags=run.get('flags', []) + ['--no-unwinding-assertions']), shallow, run.get('hunt', 60))
                    except (subprocess.TimeoutExpired, CheckError): break
                    if [r for r in r2[0] if r['status'] == 'FAILURE' and '.unwind.' not in r['property'] and 'unwinding' not in r.get('description', '') and not r.get('description', '').startswith(('VFREACH', 'VFINTERNAL'))]:
                        res, msgs, dt = r2; unwind = shallow; run = dict(run, flags=run.get('flags', []) + ['--no-unwinding-assertions']); break
                if res is None: raise
                hunting = True
            ok, fails, internal, unw, reach_ok, reach_bad = classify(res, hunting)
            if fails or not unw or hunting: break
            # a loop runs longer than the bound: give exactly those loops a larger one
            us = dict(x.rsplit(':', 1) for x in run.get('unwindset', []))
            for p, d in unw:
                l = re.sub(r'\.unwind\.', '.', p)
                us[l] = max(int(us.get(l, 0)) * 4, unwind * 8, 70) if int(us.get(l, 0)) < 5000 else us[l]
            if any('recursion' in d for p, d in unw): unwind = unwind * 2 + 2
            run = dict(run, unwindset=['%s:%s' % kv for kv in us.items()])
        rec.update(unwind=unwind, wall_s=round(time.time() - t0, 2), solver_s=round(solver_time(msgs)[0], 3), solver_queries=solver_time(msgs)[1], properties=len(res), proved=ok,
                   vccs_generated=vccs(msgs)[0], vccs_solved=vccs(msgs)[1], witnesses=reach_ok)
        loc = {r['property']: r for r in res}
        rec['functions'] = sorted({(r.get('sourceLocation') or {}).get('function', '') for r in res if '/repo' in (r.get('sourceLocation') or {}).get('file', '') or REPO in (r.get('sourceLocation') or {}).get('file', '')} - {''})
        rec['nobody'] = sorted({m.group(1) for x in msgs for m in [re.search(r'no body for (?:callee|function) (\S+)', x)] if m})
        cand = [f for f in fails]
        # prefer explicit property assertions
        cand.sort(key=lambda f: (not f[1].startswith('VFPROP'), f[0]))
        if not cand and unw: rec['error'] = 'loops longer than every bound tried: ' + ', '.join(p for p, d in unw)[:300]
        notes = []
        if cand:
            exe = native_build(run, build, work)
            for n, (p, d) in enumerate(cand[:8]):
                if n and time.time() - t0 > cap + 120: notes.append('time budget used up before all counterexamples were replayed'); break
                vals, tr = trace_inputs(gb, run, unwind, p, max(60, cap + 120 - (time.time() - t0)))
                if vals is None: notes.append('no trace for ' + p); continue
                rdir = VERIF + '/evidence/replays'
                os.makedirs(rdir, exist_ok=True)
                path = '%s/%s.%s.%d.txt' % (rdir, pid, re.sub(r'\W', '_', name), n)
                open(path, 'w').write('\n'.join(map(str, vals)) + '\n')
                good, why = native_replay(exe, path)
                open(path + '.log', 'w').write('property %s run %s\nassertion: %s\nat %s\ncbmc property: %s\nharness: %s defs %s\n\nreplay on the real code (%s):\n%s\n' % (pid, name, d, where(loc[p]), p, run['harness'], run.get('defs', []), 'reproduced' if good else 'NOT reproduced', why))
                if good:
                    if any('(%s)' % a in where(loc[p]) and d.endswith(b) for a, b in known_findings(pid)):
                        rec['known'].append('%s at %s' % (d, where(loc[p]))); continue
                    rec['violations'].append(dict(what=d, where=where(loc[p]), replay=path, why=why[-600:]))
                    break
                notes.append('counterexample for "%s" at %s did not reproduce: %s' % (d, where(loc[p]), why[-600:]))
        if rec['nobody'] and not rec['violations']: rec['error'] = 'functions without a model were reached: ' + ', '.join(rec['nobody'])
        elif not rec['violations'] and not rec['error']:
            if hunting: rec['error'] = 'solver budget exhausted; counterexamples of the shallow search did not reproduce'
            elif notes or (cand and not rec['known']): rec['error'] = 'unconfirmed counterexamples: ' + ' | '.join(notes)
            elif internal: rec['error'] = 'model limits: ' + '; '.join('%s' % (i,) for i in internal[:5])
            elif reach_bad: rec['error'] = 'vacuous: never reached: ' + '; '.join(reach_bad)
            elif not reach_ok: rec['error'] = 'harness without a reachability witness'
    except subprocess.TimeoutExpired:
        rec['error'] = 'solver budget exhausted'
    except CheckError as e:
        rec['error'] = str(e)
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
    return rec

def main():
    import registry
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    only = args[args.index('--run') + 1] if '--run' in args else None
    keep = '--keep' in args
    chk = registry.CHECKS[pid]
    runs = [r for r in chk['runs'] if (tier == 'thorough' or r.get('tier', 'quick') == 'quick') and not (tier == 'thorough' and r.get('tier') == 'quick-only')]
    if only: runs = [r for r in runs if r['name'] == only]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    rc = 0
    recs = []
    try:
        try:
            build = Build(tmp)
        except (CheckError, subprocess.CalledProcessError) as e:
            print('CHECK ERROR: build: %s' % e); sys.exit(2)
        for old in glob.glob(VERIF + '/evidence/replays/%s.*' % pid): os.remove(old)
        with cf.ThreadPoolExecutor(chk.get('jobs', JOBS)) as ex:
            recs = list(ex.map(lambda r: execute_run(pid, r, build, tier, keep), runs))
    finally:
        if not keep: shutil.rmtree(tmp, ignore_errors=True)
        else: print('kept', tmp)
    nviol = 0
    for r in recs:
        st = 'VIOLATED' if r['violations'] else ('ERROR' if r['error'] else 'holds')
        print('%-8s %s/%s: %s proved of %s, unwind %s, %ss (solver %ss) witnesses %s%s' % (st, pid, r['name'], r.get('proved'), r.get('properties'), r.get('unwind'), r.get('wall_s'), r.get('solver_s'), len(r.get('witnesses', [])), (' nobody=' + ','.join(r['nobody'])) if r.get('nobody') else ''))
        if r['error']: print('   ' + r['error'])
        for k in r['known']: print('KNOWN-FINDING: property=%s %s' % (pid, k))
        for v in r['violations']:
            nviol += 1
            print('  %s\n  at %s' % (v['what'], v['where']))
            print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
    fns = sorted({f for r in recs for f in r.get('functions', [])})
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other',
              coverage=dict(explanation='Bounded symbolic execution (CBMC 6.11, SAT back end) of the C code compiled from the current tree; every obligation below was decided by the solver for all values of the symbolic inputs within the stated bounds, with unwinding assertions on and a reachability witness per harness.',
                            obligations=sum(r.get('properties', 0) - len(r.get('witnesses', [])) for r in recs), discharged=sum(r.get('proved', 0) for r in recs),
                            vccs_generated=sum(r.get('vccs_generated', 0) for r in recs), vccs_sent_to_solver=sum(r.get('vccs_solved', 0) for r in recs), solver_queries=sum(r.get('solver_queries', 0) for r in recs),
                            solver_s=round(sum(r.get('solver_s', 0) or 0 for r in recs), 2), functions_encoded=fns, build_s=round(build.t_build, 2),
                            samples=[{k: r.get(k) for k in ('name', 'harness', 'bounds', 'unwind', 'properties', 'proved', 'wall_s', 'solver_s', 'solver_queries', 'vccs_generated', 'vccs_solved', 'witnesses', 'error', 'violations')} for r in recs],
                            outside_the_bounds=chk.get('outside', '')),
              assumptions=chk.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open(VERIF + '/evidence/%s.json' % pid, 'w'), indent=1)
    if nviol: sys.exit(1)
    if any(r['error'] for r in recs) or not recs: sys.exit(2)
    print('OK property=%s held on everything explored (%d runs, %.1fs)' % (pid, len(recs), time.time() - t0))

if __name__ == '__main__': main()
