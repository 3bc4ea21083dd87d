#!/usr/bin/env python3
"""Measures the checks with small mechanical changes to /repo's sources.

  mutate.py pack               plan one round of scenarios per property, record them on the unchanged tree
  mutate.py run FILE [STEP [OFFSET]]   try mutants of src/FILE, every STEPth from OFFSET; report those no trace or no check tells apart

Work goes to MT (default /tmp/mt). A mutant whose recordings equal the unchanged
tree's is "same"; one whose differing recordings every check accepts is "accepted".
"""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
MT = os.environ.get('MT', '/tmp/mt')
sys.argv, ARGS = sys.argv[:1], sys.argv[1:]
os.environ.setdefault('VERIF_BUILD', MT + '/base')
sys.path.insert(0, V + '/checks')
import run
from plans import PLANS
FLAGS = None

def pack():
    run.build()
    os.makedirs(MT + '/scen', exist_ok=True)
    for pid in PLANS if len(ARGS) < 2 else ARGS[1:]:
        plan = PLANS[pid][0]
        work = MT + '/w'; shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
        scen, r, n = run.plan_round(work, plan, pid, int(os.environ.get('VERIF_SEED', '1')), plan['rounds']['quick'][1], 'p')
        shutil.copy(scen, '%s/scen/%s.scen' % (MT, pid))
        run.drive(plan['sub'], MT + '/scen/%s.scen' % pid, MT + '/scen/%s.trace' % pid, run.former(plan['sub'], open(MT + '/scen/%s.scen' % pid).read().splitlines()))
        print(pid, n, flush=True)

REL = [('<', '<='), ('<=', '<'), ('>', '>='), ('>=', '>'), ('==', '!='), ('!=', '==')]
def mutants(path):
    src = open(path, errors='replace').read().split('\n')
    out = []; comment = False; depth0 = 0
    for i, l in enumerate(src):
        code = l
        if comment:
            if '*/' in code: comment = False
            continue
        if '/*' in code and '*/' not in code: comment = True; continue
        code = re.sub(r'//.*', '', code)
        s = code.strip()
        if not s or s.startswith('#') or 'assert(' in s or 'DEBUG' in s or 'cerr' in s or 'cout' in s or 'std::string' == s: continue
        def put(new, what):
            if new != code: out.append((i, new, what))
        strs = [m.span() for m in re.finditer(r'"[^"]*"', code)]
        instr = lambda p: any(a <= p < b for a, b in strs)
        for m in re.finditer(r'(?<![<>=!\-+*/&|])(<=|>=|==|!=|<|>)(?![<>=])', code):
            if instr(m.start()): continue
            op = m.group(1)
            if op in ('<', '>') and not re.search(r'\s$', code[:m.start()]) and not re.search(r'(for|while|if)\s*\(', code): continue
            if op == '<' and re.search(r'(vector|shared_ptr|array|pair|map|cast|template|set|num_\w+|nodes|cells|faces|edges|sides|wedges|corners)\s*$', code[:m.start()]): continue
            if op == '>' and code[m.start() - 1] == '-': continue
            for a, b in REL:
                if a == op: put(code[:m.start()] + b + code[m.end():], '%s -> %s' % (a, b))
        for a, b in (('&&', '||'), ('||', '&&')):
            for m in re.finditer(re.escape(a), code):
                if not instr(m.start()) and not re.search(r'(auto|&)\s*$', code[:m.start()]): put(code[:m.start()] + b + code[m.end():], '%s -> %s' % (a, b))
        for m in re.finditer(r'(?<=[\w\])\s])([+-])(?=[\s\w(])(?!=)', code):
            if instr(m.start()) or code[m.end():m.end() + 1] in '+-' or code[m.start() - 1] in '+-eE(,=': continue
            o = m.group(1); put(code[:m.start()] + ('-' if o == '+' else '+') + code[m.end():], 'sign')
        for m in re.finditer(r'(?<![\w.])([0-9])(?![\w.])', code):
            if instr(m.start()): continue
            put(code[:m.start()] + str(int(m.group(1)) + 1) + code[m.end():], 'const+1')
            if m.group(1) != '0': put(code[:m.start()] + str(int(m.group(1)) - 1) + code[m.end():], 'const-1')
        for m in re.finditer(r'\b(true|false)\b', code):
            if not instr(m.start()): put(code[:m.start()] + ('false' if m.group(1) == 'true' else 'true') + code[m.end():], 'bool')
        for a, bs in (('PARALLEL_OWNED', ('PARALLEL_GHOST', 'ALL')), ('PARALLEL_GHOST', ('PARALLEL_OWNED', 'BOUNDARY_GHOST')), ('Entity_type::ALL', ('Entity_type::PARALLEL_OWNED',)),
                      ('_owned_', ('_ghost_', '_all_')), ('_ghost_', ('_owned_', '_all_')), ('_all_', ('_owned_',)), ('node0', ('node1',)), ('node1', ('node0',)), ('.begin()', ('.end()',))):
            for m in re.finditer(re.escape(a), code):
                for b in bs: put(code[:m.start()] + b + code[m.end():], '%s -> %s' % (a, b))
        if s.endswith(';') and not re.match(r'(return|break|continue|using|typedef|class|struct|template|const |static|enum|friend|virtual|int |double |bool |auto |std::|Entity_|JaliGeometry::Point |Point |unsigned)', s) \
           and '(' in code and code.count('(') == code.count(')') and (i == 0 or re.sub(r'//.*', '', src[i - 1]).rstrip().endswith((';', '{', '}', ':', ')')) or not src[i - 1].strip()):
            put(re.match(r'\s*', code).group(0) + ';', 'removed')
        if re.match(r'(continue|break);', s): put(';', 'removed')
        if re.match(r'\w[\w\[\]\.\->]* [+\-*/]?= [^;]*;$', s) and (i == 0 or re.sub(r'//.*', '', src[i - 1]).rstrip().endswith((';', '{', '}', ':', ')'))): put(re.match(r'\s*', code).group(0) + ';', 'removed')
        m = re.match(r'(\s*)(else )?if \((.*)\)( \{)?\s*$', code)
        if m:
            put('%s%sif (!(%s))%s' % (m.group(1), m.group(2) or '', m.group(3), m.group(4) or ''), 'negated')
    return src, out

def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def one(rel, src, mut, k):
    w = '%s/m%d' % (MT, k % 64 + 1000 * (os.getpid() % 1000)); i, new, what = mut
    os.makedirs(w, exist_ok=True)
    base = os.environ['VERIF_BUILD']
    try:
        if not os.path.exists(w + '/repo'):
            os.makedirs(w + '/repo'); shutil.copytree('/repo/src', w + '/repo/src', ignore=shutil.ignore_patterns('test', 'mesh_mstk'), symlinks=True)
        t = src[:]; t[i] = new
        open(w + '/repo/src/' + rel, 'w').write('\n'.join(t))
        todo = []
        for d in glob.glob(base + '/obj/**/*.d', recursive=True):
            txt = open(d).read()
            if re.search(r'/repo/src/%s(\s|$)' % re.escape(rel), txt): todo.append(d[:-2] + '.o')
        objs = {o: o for o in glob.glob(base + '/obj/**/*.o', recursive=True)}
        for o in todo:
            n = os.path.basename(o)
            s = '%s/harness/%s.cc' % (V, n[2:-2]) if n.startswith('h_') else w + '/repo/src/' + os.path.relpath(o, base + '/obj')[:-2] + '.cc'
            no = w + '/' + n
            r = sh('ulimit -t 200; %s -c -o %s %s' % (FLAGS.replace('/repo/src', w + '/repo/src'), no, s))
            if r.returncode: return 'nocompile', []
            objs[o] = no
        drv = w + '/drv'
        r = sh('g++ -fsanitize=address -Wl,--warn-unresolved-symbols -o %s %s -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmetis %s -lmpi -lm' % (drv, ' '.join(objs.values()), ' '.join(glob.glob('/usr/lib/x86_64-linux-gnu/libtrilinos_zoltan.so*'))))
        if r.returncode: return 'nolink', []
        diff = {}
        env = run.mpi_env(); env['TMPDIR'] = w; env['DRV_LIMIT'] = '10'
        pids = [p for p in PLANS if os.path.exists('%s/scen/%s.scen' % (MT, p))]
        if os.environ.get('ONLY'): pids = [p for p in pids if p in os.environ['ONLY'].split(',')]
        for pid in sorted(pids, key=lambda p: PRIO.index(p) if p in PRIO else 99):
            sc = '%s/scen/%s.scen' % (MT, pid)
            subs = PLANS[pid][0]['sub']
            if SUBS and subs not in SUBS: continue
            out = w + '/t'
            try: r = subprocess.run([drv, subs, sc, out, '1'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            except subprocess.TimeoutExpired: return 'timeout', []
            if r.returncode: return 'driver failed', []
            a, b = open('%s/scen/%s.trace' % (MT, pid)).read().splitlines(), open(out).read().splitlines()
            d = [q for q in range(len(a)) if a[q] != b[q]]
            if d:
                d = d[:25]; sl = open(sc).read().splitlines()
                open(w + '/v.scen', 'w').write('\n'.join(sl[q] for q in d) + '\n'); open(w + '/v.trace', 'w').write('\n'.join(b[q] for q in d) + '\n')
                run.WORKERS = '1'
                bad, _, _ = run.validate(w, PLANS[pid][0], pid, w + '/v.scen', w + '/v.trace')
                diff[pid] = len(bad)
                if bad: return 'killed', [pid]
        return ('accepted', sorted(diff)) if diff else ('same', [])
    except Exception as e:
        return 'error %s' % str(e)[:300], []

SUBS = None; PRIO = []
def main():
    global FLAGS, SUBS, PRIO
    if ARGS[0] == 'pack': return pack()
    rel = ARGS[1]; step = int(ARGS[2]) if len(ARGS) > 2 else 1; off = int(ARGS[3]) if len(ARGS) > 3 else 0
    mk = open(V + '/harness/Makefile').read()
    FLAGS = 'g++ ' + re.search(r'CXXFLAGS := (.*)', mk).group(1).replace('$(INC)', ' '.join('-I/repo/src/' + x for x in 'mesh geometry error_handling mesh/mesh_simple mesh/mesh_factory statemanager'.split()) +
      ' -I/usr/include/trilinos -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/lib/x86_64-linux-gnu/openmpi/include/openmpi')
    SUBS = os.environ['SUBS'].split(',') if os.environ.get('SUBS') else None
    PRIO = os.environ.get('PRIO', '').split(',')
    src, ms = mutants('/repo/src/' + rel)
    if os.environ.get('LINES'):
        a, b = os.environ['LINES'].split('-'); ms = [m for m in ms if int(a) <= m[0] + 1 <= int(b)]
    if os.environ.get('COVERED'):   # lines executed: FILE with "rel line" rows
        cov = set(int(l.split()[1]) for l in open(os.environ['COVERED']) if l.split()[0] == rel); ms = [m for m in ms if m[0] + 1 in cov]
    ms = ms[off::step]
    print('%d mutants of %s' % (len(ms), rel), flush=True)
    n = {}
    import queue, threading
    slots = queue.Queue(); J = int(os.environ.get('J', '8'))
    for k in range(J): slots.put(k)
    def job(m):
        k = slots.get()
        try: return m, one(rel, src, m, k)
        finally: slots.put(k)
    with cf.ThreadPoolExecutor(J) as ex:
        for m, (st, who) in ex.map(job, ms):
            n[st] = n.get(st, 0) + 1
            if st not in ('killed', 'nocompile'): print('%s %s:%d [%s] %s\n    - %s\n    + %s' % (st, rel, m[0] + 1, m[2], ' '.join(who), src[m[0]].strip(), m[1].strip()), flush=True)
    print('TOTAL', rel, n, flush=True)
    for d in glob.glob('%s/m*' % MT):
        if re.search(r'/m\d+$', d) and int(re.search(r'/m(\d+)$', d).group(1)) // 1000 == os.getpid() % 1000: shutil.rmtree(d, ignore_errors=True)
main()
