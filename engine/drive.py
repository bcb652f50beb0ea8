"""Compiles the harnesses of one property against /repo's current headers, runs them symbolically in
parallel, replays every counterexample against the natively compiled real code, writes evidence."""
import glob
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('VP_OUT', VERIF)
REPO = os.environ.get('VP_REPO', '/repo')
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
OPT = '/usr/lib/llvm-18/bin/opt'
GXX = '/usr/bin/g++'
BASE = ['-std=c++11', '-include', 'cstdint', '-w', '-I' + REPO, '-I' + VERIF + '/harness']
PASSES = 'function(sroa,early-cse,simplifycfg,sroa,early-cse,simplifycfg)'


def sh(cmd, timeout=300):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


class CompileError(Exception):
    pass


class Unit:
    """one harness source file"""

    def __init__(self, src, bdir, extra, variant=None):
        self.src = src
        self.variant = variant[0] if variant else ''
        self.tag = '@' + self.variant if variant else ''
        self.pick = variant[2] if variant else None
        self.base = os.path.splitext(os.path.basename(src))[0] + ('_' + self.variant if variant else '')
        self.bdir = bdir
        self.extra = extra
        self.opts = {}
        for ln in open(src):
            m = re.match(r'//@\s*opt\s+(\S+)\s+(.*)', ln)
            if m:
                d = self.opts.setdefault(m.group(1), {})
                for kv in m.group(2).split():
                    k, v = kv.split('=')
                    d[k] = float(v) if '.' in v else int(v)
        self.flags = []
        for ln in open(src):
            m = re.match(r'//@\s*flags\s+(.*)', ln)
            if m:
                self.flags += m.group(1).split()
        if variant:
            self.flags += variant[1]
        self.passes = PASSES
        for ln in open(src):
            if re.match(r'//@\s*keep stores', ln):
                # early-cse drops a store that another one follows
                self.passes = 'function(sroa,simplifycfg)'

    @staticmethod
    def variants(src):
        """//@ variant NAME [only=REGEX] FLAGS...: the same harnesses once more in another configuration of the library"""
        r = []
        for ln in open(src):
            m = re.match(r'//@\s*variant\s+(\S+)\s+(.*)', ln)
            if m:
                w = m.group(2).split()
                r.append((m.group(1), [x for x in w if not x.startswith('only=')],
                          next((x[5:] for x in w if x.startswith('only=')), None)))
        return r

    def ir(self):
        raw = os.path.join(self.bdir, self.base + '.raw.bc')
        bc = os.path.join(self.bdir, self.base + '.bc')
        r = sh([CLANG] + BASE + ['-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-fno-math-errno',
                                 '-emit-llvm', '-c', self.src, '-o', raw] + self.flags + self.extra)
        if r.returncode:
            raise CompileError(r.stdout[-3000:])
        r = sh([OPT, '-passes=' + self.passes, raw, '-o', bc])
        if r.returncode:
            raise CompileError(r.stdout[-3000:])
        self.bc = bc
        return bc

    def native_cmd(self, asan=False, tsan=False):
        exe = os.path.join(self.bdir, self.base + ('.asan' if asan else '.tsan' if tsan else '.native'))
        cmd = [GXX] + BASE + ['-DVP_NATIVE', '-include', 'vp.h', '-include', 'vp_native.hpp', '-O0',
                              '-ftrivial-auto-var-init=pattern', '-fstack-reuse=none', self.src, '-o', exe] + self.flags + self.extra
        if asan:
            cmd += ['-fsanitize=address,bounds', '-fno-sanitize-recover=all', '-g1']
        if tsan:
            cmd += ['-fsanitize=thread', '-pthread', '-DVP_TSAN', '-g1']
        return exe, cmd


def child(conn, module, state0, name, opts):
    os.setpgid(0, 0)
    from .worker import Harness
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        sys.setrecursionlimit(20000)
        r = Harness(module, state0, name, opts, lambda x: conn.send(json.dumps(x))).run()
    except MemoryError:
        r = {'harness': name, 'error': 'memory', 'undecided': ['memory limit'], 'violations': []}
    except BaseException as e:
        import traceback
        r = {'harness': name, 'error': traceback.format_exc(), 'undecided': ['engine error: %r' % e], 'violations': []}
    conn.send(json.dumps(r))
    conn.close()
    os._exit(0)


def run_native(exe, harness, cand, path, timeout=60):
    with open(path, 'w') as f:
        f.write('# harness %s\n' % harness)
        if cand['tol']:
            f.write('tol %.17g\n' % cand['tol'])
        for k, v in sorted(cand['inputs'].items()):
            f.write('%s %s\n' % (k, v))
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99'
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=98'
    wd = os.path.dirname(path)
    try:
        r = subprocess.run([exe, harness, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, env=env, cwd=wd, errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -999, 'timeout'


def list_harnesses(src, tier):
    txt = open(src).read()
    # macros may build several harnesses: ask the bitcode instead
    return None


def run_property(prop, tier, seed, only=None, verbose=False, jobs=None):
    t0 = time.time()
    jobs = jobs or min(8, os.cpu_count() or 8)
    cfg = json.load(open(os.path.join(VERIF, 'properties.cfg.json'))) if os.path.exists(
        os.path.join(VERIF, 'properties.cfg.json')) else {}
    pc = cfg.get(prop, {})
    bdir = os.path.join(OUT, 'build', '%s_%s' % (prop, tier))
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    srcs = sorted(glob.glob(os.path.join(VERIF, 'harness', prop + '*.cpp')))
    if not srcs:
        print('no harness for ' + prop)
        return 2
    extra = ['-DVP_TIER_THOROUGH'] if tier == 'thorough' else []
    units = [Unit(s, bdir, extra) for s in srcs] + [Unit(s, bdir, extra, v) for s in srcs for v in Unit.variants(s)]
    known = []
    kf = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get('findings', []) if k['property'] == prop]

    # ---- IR and native builds in parallel
    def build(u):
        try:
            u.ir()
            u.err = None
        except CompileError as e:
            u.err = str(e)
    from concurrent.futures import ThreadPoolExecutor
    pool = ThreadPoolExecutor(max_workers=jobs)
    irf = {u: pool.submit(build, u) for u in units}
    natf = {}
    for u in units:
        irf[u].result()
    for u in units:
        if u.err:
            print('%s: the harness does not compile against the current tree:\n%s' % (prop, u.err))
            return 2
    for u in units:
        exe, cmd = u.native_cmd()
        u.exe = exe
        natf[u] = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    sys.setrecursionlimit(20000)
    from . import llvmir, sym
    from .stubs import install
    tasks = []
    for u in units:
        mod = llvmir.Module(u.bc)
        pref = ['h_'] + (['ht_'] if tier == 'thorough' else [])
        hs = [n for n in mod.defined if any(n.startswith(p + k) for p in pref for k in ('fp_', 'real_'))]
        if u.pick:
            hs = [h for h in hs if re.search(u.pick, h)]
        if only:
            hs = [h for h in hs if re.search(only, h + u.tag)]
        for mode in ('fp', 'real'):
            sel = sorted(h for h in hs if '_%s_' % mode in h.split('_', 2)[0] + '_' + h.split('_', 2)[1] + '_')
            if not sel:
                continue
            s0 = sym.State()
            ex = sym.Executor(mod, mode)
            ex.on_check = lambda *a: None
            ex.extra = install
            ex.run_ctors(s0)
            skipped = ex.stats.get('ctor_skipped', [])
            if skipped and verbose:
                print('ctor skipped', skipped)
            for h in sel:
                o = {'seed': seed}
                if tier == 'thorough':
                    o.update({'query_ms': 120000, 'time': 700, 'branch_ms': 10000})
                o.update(pc.get('opts', {}))
                for pat, d in u.opts.items():
                    if re.search(pat, h):
                        o.update(d)
                if u.variant:
                    o['prio'] = o.get('prio', 0) - 100
                tasks.append((u, mod, s0, h, o))
    tasks.sort(key=lambda t: -t[4].get('prio', 0))

    # ---- symbolic execution
    budget = float(pc.get('budget_' + tier, 240 if tier == 'quick' else 800))
    results = []
    running, part = [], {}
    queue = list(tasks)
    ctx = mp.get_context('fork')
    while queue or running:
        while queue and len(running) < jobs:
            u, mod, s0, h, o = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, mod, s0, h, o))
            p.start()
            b.close()
            running.append((p, a, u, h, time.time(), o))
        nxt = []
        over = time.time() - t0 > budget
        for p, a, u, h, ts, o in running:
            got = None
            while got is None and a.poll(0):
                try:
                    got = json.loads(a.recv())
                    if got.get('partial'):
                        part[u.base, h] = got
                        got = None
                        continue
                except EOFError:
                    got = part.get((u.base, h)) or {'harness': h, 'error': 'worker died', 'undecided': ['worker died'], 'violations': []}
                p.join()
            if got is None and (over or time.time() - ts > o.get('time', 120) + 60):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                p.join()
                got = part.get((u.base, h)) or {'harness': h, 'mode': '', 'undecided': ['time limit'], 'violations': []}
            if got is None:
                nxt.append((p, a, u, h, ts, o))
            else:
                got['unit'] = u.base
                results.append((u, got))
        running = nxt
        if over and queue:
            for u, mod, s0, h, o in queue:
                results.append((u, {'harness': h, 'undecided': ['time limit'], 'violations': [], 'unit': u.base}))
            queue = []
        time.sleep(0.01)

    # ---- native side
    for u in units:
        out, _ = natf[u].communicate()
        u.nat_ok = natf[u].returncode == 0
        if not u.nat_ok:
            print('native build of %s failed:\n%s' % (u.base, out[-2000:]))
            return 2
    validated = mismatched = 0
    mism = []
    for u, r in results:
        for i, w in enumerate(r.get('witnesses', [])):
            tol = 1e-3 if r['mode'] == 'real' else 0
            path = os.path.join(bdir, 'witness_%s%s_%d.txt' % (r['harness'], u.tag, i))
            rc, out = run_native(u.exe, r['harness'], {'inputs': w, 'tol': tol}, path)
            if rc == 0:
                validated += 1
            elif rc != 3:
                mismatched += 1
                mism.append('%s: %s' % (r['harness'] + u.tag, out.strip().split('\n')[0][:200]))
            if rc == 0 or os.environ.get('VP_KEEP') is None:
                pass

    confirmed, unconfirmed = [], []
    rdir = os.path.join(OUT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    asan_built, tsan_built = {}, {}
    for u, r in results:
        done = False
        for vi, v in enumerate(r['violations']):
            ok = None
            if v.get('soft'):
                hit = []
                for ci, c in enumerate(v['candidates']):
                    path = os.path.join(rdir, '%s_%s%s_%d.txt' % (prop, r['harness'], u.tag, vi))
                    rc, out = run_native(u.exe, r['harness'], c, path)
                    if any(l.startswith('VP-FAIL ' + v['label'] + ':') for l in out.split('\n')):
                        hit.append((path, out, 'native'))
                    if len(hit) == 2:
                        confirmed.append((u, r, v, hit[1]))
                        break
                continue
            if v['kind'] == 'race':
                if u not in tsan_built:
                    exe, cmd = u.native_cmd(False, True)
                    tsan_built[u] = exe if sh(cmd, 600).returncode == 0 else None
                for c in v['candidates'] if tsan_built[u] else []:
                    path = os.path.join(rdir, '%s_%s%s_%d.txt' % (prop, r['harness'], u.tag, vi))
                    rc, out = run_native(tsan_built[u], r['harness'], c, path)
                    if 'data race' in out:
                        ok = (path, 'ThreadSanitizer: ' + next((l.strip() for l in out.split('\n') if l.startswith('SUMMARY')), 'data race'), 'tsan')
                        break
                if ok:
                    confirmed.append((u, r, v, ok))
                else:
                    unconfirmed.append((u, r, v))
                continue
            if v['kind'] == 'hang':
                if any(w['kind'] == 'hang' for _, _, w, _ in confirmed):
                    continue
                path = os.path.join(rdir, '%s_%s%s_%d.txt' % (prop, r['harness'], u.tag, vi))
                rc, out = run_native(u.exe, r['harness'], v['candidates'][0], path, 25)
                if rc == -999:
                    confirmed.append((u, r, v, (path, 'VP-FAIL the call does not return', 'native')))
                continue
            for ci, c in enumerate(v['candidates']):
                path = os.path.join(rdir, '%s_%s%s_%d.txt' % (prop, r['harness'], u.tag, vi))
                rc, out = run_native(u.exe, r['harness'], c, path)
                if rc not in (0, 3):
                    ok = (path, out, 'native')
                    break
                if v['kind'] == 'mem':
                    if u not in asan_built:
                        exe, cmd = u.native_cmd(True)
                        asan_built[u] = exe if sh(cmd, 600).returncode == 0 else None
                    if asan_built[u]:
                        rc, out = run_native(asan_built[u], r['harness'], c, path)
                        if rc not in (0, 3):
                            ok = (path, out, 'asan')
                            break
            if ok:
                confirmed.append((u, r, v, ok))
            else:
                unconfirmed.append((u, r, v))

    # ---- report
    code = 0
    nviol = 0
    seen_known = set()
    for u, r, v, (path, out, how) in confirmed:
        k = next((k for k in known if k['harness'] == r['harness'] and re.search(k['label'], v['label'])), None)
        if k:
            if k['id'] not in seen_known:
                seen_known.add(k['id'])
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            continue
        with open(path, 'a') as f:
            f.write('# property %s, obligation: %s\n' % (prop, v['label']))
            f.write('# replay: %s %s %s\n' % (' '.join(u.native_cmd(how == 'asan')[1]), '&& ' + u.native_cmd(how == 'asan')[0],
                                              r['harness'] + ' ' + path))
            for ln in out.strip().split('\n')[:20]:
                f.write('# ' + ln + '\n')
        nviol += 1
        first = next((l for l in out.split('\n') if 'VP-FAIL' in l or 'ERROR' in l or 'error' in l), out.strip()[:150])
        print('  %s: %s | native: %s' % (r['harness'] + u.tag, v['label'], first))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    und = [(r['harness'] + u.tag, x) for u, r in results for x in r.get('undecided', [])]
    errs = [r['error'] for u, r in results if r.get('error')]
    unreached = [r['harness'] + u.tag for u, r in results if not r.get('violations') and not r.get('undecided')
                 and not r.get('stats', {}).get('ends', {}).get('ok')]
    nowit = [r['harness'] + u.tag for u, r in results if not r.get('violations') and not r.get('witnesses')
             and not r.get('undecided')]
    tot = {'queries': 0, 'instr': 0, 'paths': 0, 'obligations': 0, 'proved': 0, 'solver_s': 0.0}
    funcs = set()
    for u, r in results:
        st = r.get('stats')
        if not st:
            continue
        for k in tot:
            tot[k] += st[k]
        funcs.update(st['functions'])
    dm = subprocess.run(['/usr/bin/c++filt'], input='\n'.join(sorted(funcs)), capture_output=True, text=True).stdout
    vf = sorted(set(x for x in dm.split('\n') if 'vmml::' in x.split('(')[0]))
    samples = [s for u, r in results for s in r.get('samples', [])][:6]
    for u, r in results:
        if r.get('witnesses') and len(samples) < 10:
            samples.append({'harness': r['harness'] + u.tag, 'reachability_witness': r['witnesses'][0]})
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['instr'],
            'traces_validated_against_impl': validated,
            'samples': samples,
            'obligations': tot['obligations'], 'discharged': tot['proved'],
            'queries': tot['queries'], 'solver_seconds': round(tot['solver_s'], 2),
            'harnesses': len(results), 'undecided': ['%s: %s' % x for x in und][:50],
            'witness_mismatches': mism[:20],
            'counterexamples_not_reproduced': ['%s: %s' % (r['harness'] + u.tag, v['label']) for u, r, v in unconfirmed][:20],
            'functions_encoded': len(vf), 'function_list': [x[:200] for x in vf][:400],
            'per_harness': [{'harness': r['harness'] + u.tag, 'paths': r.get('stats', {}).get('paths'),
                             'obligations': r.get('stats', {}).get('obligations'),
                             'queries': r.get('stats', {}).get('queries'),
                             'solver_s': round(r.get('stats', {}).get('solver_s', 0), 2),
                             'wall_s': round(r.get('wall', 0), 2)} for u, r in results],
            'bounds': pc.get('bounds', ''),
            'configurations': ['debug (checked accessors)'] + sorted(set(' '.join([u.variant] + u.flags) for u in units if u.variant)),
            'exhaustive': False,
            'explanation': 'states = symbolic paths followed to their end; transitions = IR instructions executed '
                           'symbolically; obligations = assertions put to the solver on those paths; discharged = '
                           'answered unsat for every input; traces_validated = solver-chosen inputs run through '
                           'the natively compiled real code with the same verdict as the encoding.',
        },
        'assumptions': pc.get('assumptions', []) + [
            'IR produced by clang-18 from the current headers (-O1 -disable-llvm-passes + sroa, early-cse, simplifycfg)',
            'fp harnesses: IEEE-754 bit-precise; real harnesses: exact real arithmetic (rounding abstracted), libm by contract'],
        'wall_s': round(wall, 2), 'violations': nviol,
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d harnesses, %d paths, %d/%d obligations discharged, %d queries, solver %.1fs, %d native traces, '
          'wall %.1fs' % (prop, tier, len(results), tot['paths'], tot['proved'], tot['obligations'], tot['queries'],
                          tot['solver_s'], validated, wall))
    if und:
        print('undecided (not claimed): ' + '; '.join('%s: %s' % x for x in und[:12]))
    if unconfirmed:
        print('solver counterexamples that did not reproduce natively (not reported): ' +
              '; '.join('%s: %s' % (r['harness'] + u.tag, v['label']) for u, r, v in unconfirmed[:8]))
    if mism:
        print('witness mismatches: ' + '; '.join(mism[:8]))
    if unreached:
        print('vacuous harness (no path reaches the end): ' + ', '.join(unreached))
    if nowit:
        print('no reachability witness: ' + ', '.join(nowit))
    if verbose:
        for u, r in sorted(results, key=lambda x: -x[1].get('wall', 0)):
            st = r.get('stats', {})
            print('   %-50s wall %.2f paths %s obl %s/%s q %s instr %s ends %s' % (
                r['harness'] + u.tag, r.get('wall', 0), st.get('paths'), st.get('proved'), st.get('obligations'),
                st.get('queries'), st.get('instr'), st.get('ends')))
        for e in errs:
            print(e)
    if not os.environ.get('VP_KEEP'):
        shutil.rmtree(bdir, ignore_errors=True)
    return code
