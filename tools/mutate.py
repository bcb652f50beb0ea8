"""Mutation testing of the checks: python3 tools/mutate.py OUT.jsonl [-n COUNT] [-w WORKERS] [-s SEED] [-f FILE_REGEX] [-t]
Small edits of /repo/vmmlib/*.hpp in scratch copies; for each one the harnesses whose IR (transitively) changed are run until one
reports a violation.  Results: compile, uncovered (no harness changed), killed, survived."""
import argparse, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time
from multiprocessing import Process, Queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
SCR = '/tmp/mutation'
REPO = os.environ.get('VP_REPO', '/repo')


def blank(src):
    """comments, strings and preprocessor lines blanked, same length"""
    def sp(m):
        return re.sub(r'[^\n]', ' ', m.group(0))
    src = re.sub(r'//[^\n]*|/\*.*?\*/', sp, src, flags=re.S)
    src = re.sub(r'"(?:\\.|[^"\\\n])*"', sp, src)
    out, skip = [], 0
    for ln in src.split('\n'):
        st = ln.strip()
        if skip:
            if re.match(r'#\s*if', st):
                skip += 1
            elif re.match(r'#\s*endif', st):
                skip -= 1
            elif re.match(r'#\s*else', st) and skip == 1:
                skip = 0
            out.append(' ' * len(ln))
            continue
        if re.match(r'#\s*if\s+0\b|#\s*ifdef\s+_MSC|#\s*ifdef VMMLIB_OLD|#\s*ifdef __OSG', st):
            skip = 1
        out.append(' ' * len(ln) if st.startswith('#') else ln)
    return '\n'.join(out)


SUB = [(r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ', ' + ']), (r' / ', [' * ']), (r'\+= ', ['-= ']), (r'-= ', ['+= ']),
       (r'\*= ', ['/= ', '= ']), (r'/= ', ['*= ']), (r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']),
       (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
       (r'(?<=[\[( ])0(?=[ \],)])', ['1']), (r'(?<=[\[( ,])1(?=[ \],)])', ['0', '2']), (r'(?<=[\[( ,])2(?=[ \],)])', ['1', '3']), (r'(?<=[\[( ,])3(?=[ \],)])', ['2', '0']),
       (r'\b1\.0\b', ['2.0', '0.0']), (r'\b0\.0\b', ['1.0']), (r'\b2\.0\b', ['1.0']), (r'\b0\.5\b', ['0.25']),
       (r'\bM\b', ['N']), (r'\bN\b', ['M']), (r'\brow(_index)?\b', ['col\\1']), (r'\bcol(_index)?\b', ['row\\1']),
       (r'\bx\(\)', ['y()']), (r'\by\(\)', ['z()', 'x()']), (r'\bz\(\)', ['x()', 'y()']), (r'\bw\(\)', ['z()']), (r'\b_min\b', ['_max']), (r'\b_max\b', ['_min']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bsin\b', ['cos']), (r'\bcos\b', ['sin']), (r'\bfabs\b', ['']), (r'\bstd::abs\b', ['']),
       (r'\bstd::min\b', ['std::max']), (r'\bstd::max\b', ['std::min']), (r'\bmin_element\b', ['max_element']), (r'\bmax_element\b', ['min_element']),
       (r'\bleft\b(?=\()', ['right']), (r'\bright\b(?=\()', ['left']), (r'\btop\b(?=\()', ['bottom']), (r'\bbottom\b(?=\()', ['top']),
       (r'(?<=[(=] )-(?=[\w])', ['']), (r'(?<== )- ', ['']), (r'\+\+', ['--']), (r'(?<![\w])!(?=[\w ])', [''])]

# a second set, -x: arguments exchanged, conditions fixed, narrower types, locals that keep their value
SUBX = [(r'\(\s*([\w.]+),\s*([\w.]+)\s*\)', ['( \\2, \\1 )']), (r'\bif\s*\(([^;{}]*)\)\s*$', ['if( true )', 'if( false )']),
        (r'\? ([^:?;]+) : ([^:?;]+?)(?=[;)])', ['? \\2 : \\1']), (r'\bdouble (?=\w+ [=(])', ['float ']), (r'(?<=    )T (?=\w+( =|;))', ['float ', 'static T ', 'int ']),
        (r'static_cast< T >', ['static_cast< float >', 'static_cast< int >', '']), (r'(?<=    )(?=(?:Matrix|Vector|Quaternion)< [^;()]* > \w+;)', ['static ']),
        (r'\bbreak;', [';']), (r'\breturn ([\w.]+)( [-+*/<>=&|]+ )(?=[\w.]+;)', ['return \\1; return \\1\\2']), (r'\bconst (\w[\w:]*(?:< [^<>;]* >)?)& (?=\w+ = )', ['static const \\1 ']),
        (r'\[\s*(\w+)\s*\]', ['[ \\1 + 1 ]', '[ \\1 - 1 ]']), (r'\bat\( (\w+), (\w+) \)', ['at( \\2, \\1 )', 'at( \\1, \\1 )', 'at( \\2, \\2 )']),
        (r'\bbegin\(\)', ['end()', 'begin() + 1']), (r'\bend\(\)', ['begin()', 'end() - 1']), (r'\barray\b', ['( array + 1 )']), (r'\bM \* N\b', ['M + N', 'N']), (r'\bpush_front\b', ['push_back']),
        (r'(?<=\w) ([-+*/])= ', [' = ']), (r'\blength\(\)', ['squared_length()']), (r'\bsqrt\(', ['(']), (r'\bacos\(', ['asin(']), (r'\bother\b', ['(*this)'])]


def mutants(only):
    res = []
    for f in sorted(glob.glob(REPO + '/vmmlib/*.hpp')):
        b = os.path.basename(f)
        if b.startswith('version') or b in ('enable_if.hpp', 'vmmlib_config.hpp', 'vmmlib.hpp', 'exception.hpp') or (only and not re.search(only, b)):
            continue
        src = open(f).read()
        bl = blank(src)
        depth_lines = bl.split('\n')
        pos = 0
        for no, ln in enumerate(depth_lines):
            if re.match(r'\s*(template|typedef|class|struct|inline|friend|using)\b', ln) or re.match(r'\s*(Matrix|Vector|Quaternion)<', ln):
                pos += len(ln) + 1
                continue
            # declarations
            if re.match(r'\s*[\w:]+(<[^;]*>)?\s*[&*]?\s+[&*]?[\w:]+(\s*\(.*\))?(\s*const)?;\s*$', ln) and not re.match(r'\s*(return|throw)\b', ln) or 'enable_if' in ln:
                pos += len(ln) + 1
                continue
            for pat, reps in SUBX if '-x' in sys.argv else SUB:
                for m in re.finditer(pat, ln):
                    for r in reps:
                        r2 = m.expand(r) if '\\' in r else r
                        res.append((b, no + 1, pos + m.start(), pos + m.end(), r2))
            m = re.match(r'\s+([\w(*].*;)\s*$', ln)
            if '-x' not in sys.argv and m and not re.match(r'\s*(return|const|typedef|using|static|size_t|T |double|int|break|throw|public|private)\b', ln) and ('=' in ln or '(' in ln) and ln.count('(') == ln.count(')'):
                res.append((b, no + 1, pos + m.start(1), pos + m.end(1), ';'))
            pos += len(ln) + 1
    return res


def fnhash(bc):
    t = subprocess.run(['/usr/lib/llvm-18/bin/llvm-dis', bc, '-o', '-'], stdout=subprocess.PIPE, text=True).stdout
    # attribute groups and metadata numbers may shift
    t = re.sub(r' #\d+|, !\S+ !\d+|![\w.]+ ?', '', t)
    fns, calls = {}, {}
    for m in re.finditer(r'^define [^\n]*?@("[^"]*"|[\w.$]+)\(.*?^}', t, flags=re.S | re.M):
        n = m.group(1)
        fns[n] = hashlib.sha1(m.group(0).encode()).hexdigest()
        calls[n] = set(re.findall(r'@("[^"]*"|[\w.$]+)', m.group(0)))
    return fns, calls


def build(repo, out, only=None):
    """{harness file: (fns, calls)}; None when the compilation fails"""
    os.environ['VP_REPO'] = repo
    import importlib
    from engine import drive
    importlib.reload(drive)
    from concurrent.futures import ThreadPoolExecutor
    os.makedirs(out, exist_ok=True)
    us = [drive.Unit(s, out, []) for s in sorted(glob.glob(V + '/harness/C*.cpp'))]

    def one(u):
        try:
            u.ir()
            return u.base, fnhash(u.bc)
        except drive.CompileError as e:
            return u.base, None
    with ThreadPoolExecutor(4) as p:
        return dict(p.map(one, us))


def worker(k, q, r, thorough):
    repo = '%s/w%d/repo' % (SCR, k)
    os.makedirs(repo, exist_ok=True)
    shutil.copytree(REPO + '/vmmlib', repo + '/vmmlib', dirs_exist_ok=True)
    base = build(repo, '%s/w%d/ir' % (SCR, k))
    while True:
        mu = q.get()
        if mu is None:
            return
        b, no, s, e, rep = mu
        path = repo + '/vmmlib/' + b
        src = open(REPO + '/vmmlib/' + b).read()
        new = src[:s] + rep + src[e:]
        open(path, 'w').write(new)
        res = {'file': b, 'line': no, 'old': src.split('\n')[no - 1].strip(), 'new': new.split('\n')[no - 1].strip(), 'at': [s, e, rep]}
        t0 = time.time()
        cur = build(repo, '%s/w%d/ir' % (SCR, k))
        if any(v is None for v in cur.values()):
            res['status'] = 'compile'
        else:
            hit = {}
            for h, (fns, calls) in cur.items():
                bf = base[h][0]
                bad = {n for n in fns if bf.get(n) != fns[n]}
                if set(fns) != set(bf):
                    pass
                grow = True
                while grow:
                    more = {n for n in calls if n not in bad and calls[n] & bad}
                    grow = bool(more)
                    bad |= more
                hs = sorted(n for n in bad if n.startswith('h_') or n.startswith('_GLOBAL__sub_I') or n.startswith('__cxx_global'))
                if hs:
                    hit[h] = hs
            res['affected'] = {h: len(x) for h, x in hit.items()}
            res['status'] = 'uncovered'
            if hit:
                res['status'] = 'survived'
                env = dict(os.environ, VP_REPO=repo, VP_OUT='%s/w%d/out' % (SCR, k))
                order = sorted(hit, key=lambda h: (h[:3] in ('C19', 'C11', 'C15', 'C16'), len(hit[h])))
                for h in order:
                    hs = [x for x in hit[h] if x.startswith('h_')]
                    cmd = ['python3-vt', V + '/check.py', h[:3], '-j', '4'] + (['--only', '^(' + '|'.join(hs) + ')$'] if len(hs) == len(hit[h]) else [])
                    try:
                        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=600)
                    except subprocess.TimeoutExpired:
                        res.setdefault('timeout', []).append(h)
                        continue
                    if p.returncode == 1:
                        res['status'] = 'killed'
                        res['by'] = h[:3]
                        break
                    if p.returncode != 0:
                        res.setdefault('rc', []).append((h, p.returncode, p.stdout[-300:]))
                    if 'undecided' in p.stdout:
                        res.setdefault('undecided', []).append(h[:3])
        res['t'] = round(time.time() - t0, 1)
        open(path, 'w').write(src)
        r.put(res)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('-n', type=int, default=300)
    ap.add_argument('-w', type=int, default=2)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-f')
    ap.add_argument('-l')
    ap.add_argument('-x', action='store_true')
    a = ap.parse_args()
    mus = mutants(a.f)
    print(len(mus), 'mutation points')
    random.Random(a.s).shuffle(mus)
    if a.l:
        lo, hi = map(int, a.l.split('-'))
        mus = [m for m in mus if lo <= m[1] <= hi]
    done = set()
    for g in glob.glob(a.out):
        done = {(d['file'], tuple(d['at'])) for d in map(json.loads, open(g))}
    seen, todo = {}, []
    for m in mus:      # at most two per line first
        if seen.get((m[0], m[1]), 0) < 2 and (m[0], (m[2], m[3], m[4])) not in done:
            seen[(m[0], m[1])] = seen.get((m[0], m[1]), 0) + 1
            todo.append(m)
    todo = todo[:a.n]
    q, r = Queue(), Queue()
    for m in todo:
        q.put(m)
    ps = []
    for k in range(a.w):
        q.put(None)
        p = Process(target=worker, args=(k, q, r, False))
        p.start()
        ps.append(p)
    cnt = {}
    with open(a.out, 'a') as f:
        for i in range(len(todo)):
            x = r.get()
            cnt[x['status']] = cnt.get(x['status'], 0) + 1
            f.write(json.dumps(x) + '\n')
            f.flush()
            print(i, cnt, x['file'], x['line'], x['status'], x.get('by', ''), x['t'], flush=True)
