"""Driver for contract-based deductive verification of mstdlib with CBMC.

A property file (props/Pxx.py) lists Units.  Each unit is one goto-program made
from /repo's current sources (included textually by the harness, optionally with
loop contracts injected mechanically) and is decided by cbmc:
  dfcc    enforce a code contract on a real function, callees replaced by their
          contracts where listed, loops closed by inductive invariants (unbounded)
  plain   requires = vf_assume, ensures = vf_assert around the real code; complete
          when loops are bounded by operand width, otherwise labelled bounded.
"""
import os, re, sys, json, time, shutil, threading, subprocess, hashlib, tempfile, glob
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO  = os.environ.get('VF_REPO', '/repo')
NCPU  = int(os.environ.get('VF_JOBS', str(min(8, os.cpu_count() or 4))))
MEMKB = int(3.6 * 1024 * 1024)
CPP   = ['-D_GNU_SOURCE', '-DNDEBUG']


class Unit:
    def __init__(self, name, harness, entry, kind='plain', level='proof', funcs=(), bound=None,
                 enforce=None, replace=(), loops=(), unwind=None, unwindset=(), cbmc=(), defines=(),
                 solver=None, timeout=240, quick=True, witness=None, libs=('base',), fuzz=True,
                 fuzz_len=256, ignore=(), min_obl=3, assumes=(), srcdirs=(), instrument=(), stub=True,
                 preunwind=(), subst=(), runs=300000, seconds=25, dfcc=False, native=True, nobody=(), autolink=True, nolink=()):
        self.__dict__.update(locals())
        del self.__dict__['self']


# ------------------------------------------------------------------ sources
def strip_map(src):
    """same-length text with comments, strings and preprocessor lines blanked"""
    out = list(src); i = 0; n = len(src)
    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n': out[k] = ' '
    bol = True
    while i < n:
        c = src[i]
        if src.startswith('/*', i):
            j = src.find('*/', i + 2); j = n if j < 0 else j + 2; blank(i, j); i = j; continue
        if src.startswith('//', i):
            j = src.find('\n', i); j = n if j < 0 else j; blank(i, j); i = j; continue
        if c == '#' and bol:
            j = i
            while True:
                k = src.find('\n', j)
                if k < 0: k = n; break
                if src[k-1] == '\\': j = k + 1; continue
                break
            blank(i, k); i = k; continue
        if c in '"\'':
            j = i + 1
            while j < n and src[j] != c:
                j += 2 if src[j] == '\\' else 1
            j = min(n, j + 1); blank(i, j); bol = False; i = j; continue
        if c == '\n': bol = True
        elif not c.isspace(): bol = False
        i += 1
    return ''.join(out)


def match(s, i, o, c):
    d = 0
    while i < len(s):
        if s[i] == o: d += 1
        elif s[i] == c:
            d -= 1
            if d == 0: return i
        i += 1
    return -1


def find_function(s, name):
    """(body_start, body_end) of the definition of name in blanked text s"""
    for m in re.finditer(r'(?<![\w.>])' + re.escape(name) + r'\s*\(', s):
        p = s.index('(', m.end() - 1)
        e = match(s, p, '(', ')')
        if e < 0: continue
        k = e + 1
        while k < len(s) and s[k].isspace(): k += 1
        if k < len(s) and s[k] == '{':
            # file scope?
            if s.count('{', 0, m.start()) == s.count('}', 0, m.start()):
                return k, match(s, k, '{', '}')
    return None


def find_loops(s, a, b):
    """insertion offsets (just before the loop body) of for/while loops, in source order"""
    res = []
    dos = []
    for m in re.finditer(r'\b(for|while|do)\b', s[a:b]):
        pos = a + m.start(); kw = m.group(1)
        if kw == 'do':
            k = a + m.end()
            while s[k].isspace(): k += 1
            if s[k] == '{': dos.append(match(s, k, '{', '}'))
            continue
        p = s.index('(', pos); e = match(s, p, '(', ')')
        # the while of a do-while
        k = pos - 1
        while s[k].isspace(): k -= 1
        if kw == 'while' and k in dos: continue
        res.append(e + 1)
    return res


class Attach(Exception):
    pass


def annotate(path, specs):
    """specs: list of (kind, func, idx(1-based), total, text): LOOP contract before the body of a loop, GHOST statement
    at the start of the body of a loop, RENAME of a definition (its callers then meet the contract the harness defines
    under the old name). returns annotated source"""
    src = open(path, encoding='utf-8', errors='surrogateescape').read()
    s = strip_map(src)
    ins = []
    for kind, func, idx, total, text in specs:
        f = find_function(s, func)
        if kind == 'RENAME' and not f:
            md = re.search(r'^[ \t]*#[ \t]*define[ \t]+(%s)\(' % re.escape(func), src, re.M)
            if md: ins.append((md.start(1), len(func), text.strip())); continue
        if not f: raise Attach('function %s not found in %s' % (func, path))
        if kind == 'RENAME':
            ms = [m for m in re.finditer(r'(?<![\w.>])' + re.escape(func) + r'\s*\(', s[:f[0]])]
            ins.append((ms[-1].start(), len(func), text.strip())); continue
        L = find_loops(s, f[0], f[1])
        if len(L) != total: raise Attach('%s: %d loops, %d expected' % (func, len(L), total))
        o = L[idx - 1]
        if kind == 'GHOST':
            while s[o].isspace(): o += 1
            if s[o] != '{': raise Attach('%s: loop %d without braces' % (func, idx))
            o += 1
        ins.append((o, 0, '\n' + ' '.join(text.split('\n')) + '\n'))
    for off, cut, text in sorted(ins, key=lambda x: -x[0]):
        src = src[:off] + text + src[off + cut:]
    return src


LOOP_RE = re.compile(r'/\*@VF_(LOOP|GHOST)\s+(\S+)\s+(\w+)\s+(\d+)/(\d+)\s+(?:if\s+(\w+)\s+)?(.*?)@\*/', re.S)
RENAME_RE = re.compile(r'/\*@VF_RENAME\s+(\S+)\s+(\w+)\s+(?:if\s+(\w+)\s*)?@\*/')


def loop_specs(harness_text, defines):
    out = {}
    on = lambda d: not d or ('-D' + d) in defines or any(x.startswith('-D' + d + '=') for x in defines)
    for m in LOOP_RE.finditer(harness_text):
        if on(m.group(6)): out.setdefault(m.group(2), []).append((m.group(1), m.group(3), int(m.group(4)), int(m.group(5)), m.group(7)))
    for m in RENAME_RE.finditer(harness_text):
        if on(m.group(3)): out.setdefault(m.group(1), []).append(('RENAME', m.group(2), 0, 0, 'vf_real_' + m.group(2)))
    return out


def overlay(text, defs, d, plain):
    for rel, specs in loop_specs(text, defs).items():
        if plain: specs = [x for x in specs if x[0] == 'RENAME']
        if not specs: continue
        src = annotate(os.path.join(REPO, rel), specs)
        dst = os.path.join(d, 'ov', rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, 'w', encoding='utf-8', errors='surrogateescape') as f: f.write(src)


# ------------------------------------------------------------------ running
def run(cmd, timeout, cwd=None, mem=True, env=None):
    t = time.time()
    pre = ['bash', '-c', 'ulimit -v %d; exec "$@"' % MEMKB, 'x'] if mem else []
    try:
        p = subprocess.run(pre + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace'), time.time() - t
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b'').decode('utf-8', 'replace'), 'TIMEOUT', time.time() - t


MODULES = ['base', 'formats', 'text', 'thread', 'io', 'tls', 'sql', 'net', 'log']


def incs(u, work):
    r = ['-I' + os.path.join(work, 'ov'), '-I' + os.path.join(VERIF, 'vf'), '-I' + os.path.join(VERIF, 'harness'),
         '-I' + os.path.join(VERIF, 'include'), '-I' + os.path.join(REPO, 'include'), '-I' + REPO]
    for m in MODULES: r.append('-I' + os.path.join(REPO, m))
    for d in u.srcdirs: r.append('-I' + os.path.join(REPO, d))
    return r


class Result:
    def __init__(self, unit):
        self.unit = unit; self.status = None   # proved | failed | undecided | unattached | builderror
        self.obl = 0; self.ok = 0; self.failed = []; self.reach = 0; self.time = 0.0; self.msg = ''; self.cmd = ''
        self.gb = None; self.work = None; self.unreached = []; self.nobody = set()


_seen = set()


def shorten(m):
    if m in _seen: return m[:40] + '...'
    _seen.add(m)
    return m if len(m) < 500 else m[:200] + ' ... ' + m[-300:]


_blk = {}


def build_plain(u, work):
    """plain units of one harness and one set of defines share a goto binary"""
    root = os.path.dirname(work)
    key = hashlib.sha1(repr((u.harness, sorted(u.defines), u.autolink, sorted(u.nolink), u.subst)).encode()).hexdigest()[:12]
    with _ilock: ent = _blk.setdefault(key, [threading.Lock(), None, None])
    with ent[0]:
        if ent[1] is None and ent[2] is None:
            d = os.path.join(root, 'g_' + key); os.makedirs(d, exist_ok=True)
            try:
                entries = sorted({x.entry for x in ALL_UNITS if (x.harness, sorted(x.defines), x.subst) == (u.harness, sorted(u.defines), u.subst) and x.kind == 'plain'} | {u.entry})
                hpath = os.path.join(VERIF, 'harness', u.harness)
                al = os.path.join(d, 'all.c')
                with open(al, 'w') as f:
                    for e_ in entries: f.write('void %s(void);\n' % e_)
                    f.write('void vf_all(void) {\n' + ''.join('\t%s();\n' % e_ for e_ in entries) + '}\n')
                h = os.path.join(d, 'h.o'); overlay(open(hpath).read(), list(u.defines), d, True)
                rc, o, e, t = run(['goto-cc', '-DVF_CBMC'] + CPP + list(u.defines) + incs(u, d) + ['-c', hpath, '-o', h], 120)
                if rc != 0: raise Attach('goto-cc: ' + (e + o)[-1500:])
                ho = os.path.join(d, 'all.o')
                rc, o, e, t = run(['goto-cc', '-c', al, '-o', ho], 60)
                a = os.path.join(d, 'a.gb')
                link(u, work, [h, ho], a, 'vf_all')
                ent[1] = a
            except Attach as x:
                ent[2] = str(x)
        if ent[2]: raise Attach(ent[2])
        return ent[1]


def build_unit(u, work):
    """returns path of the goto binary to be handed to cbmc"""
    os.makedirs(os.path.join(work, 'ov'), exist_ok=True)
    if u.kind == 'plain': return build_plain(u, work)
    hpath = os.path.join(VERIF, 'harness', u.harness)
    text = open(hpath).read()
    defs = list(u.defines)
    overlay(text, defs, work, False)
    a = os.path.join(work, 'a.gb'); b = os.path.join(work, 'b.gb'); h = os.path.join(work, 'h.o')
    cmd = ['goto-cc', '-DVF_CBMC', '-DVF_DFCC'] + CPP + defs + incs(u, work) + ['-c', hpath, '-o', h]
    rc, o, e, t = run(cmd, 120)
    if rc != 0:
        raise Attach('goto-cc: ' + (e + o)[-1500:])
    link(u, work, [h], a, u.entry)
    if u.preunwind:
        cmd = ['goto-instrument']
        for x in u.preunwind: cmd += ['--unwindset', x]
        rc, o, e, t = run(cmd + ['--unwinding-assertions', a, a + '.u'], 120)
        if rc != 0: raise Attach('unwind: ' + (e + o)[-800:])
        a += '.u'
    # statics keep their initialisers (the harness is the program start and says what may vary)
    st = fn_names(['goto-instrument', '--show-symbol-table', a])
    ex = []
    for m in re.finditer(r'^Symbol\.*: (\S+)\nPretty name\.*: (\S*)\n(?:.*\n)*?Flags\.*: (.*)\nLocation\.*: (?:file (\S+) )?', st, re.M):
        if 'static_lifetime' in m.group(3) and m.group(4) and '<built' not in m.group(4): ex += ['--nondet-static-exclude', m.group(4) + ':' + m.group(2)]
    if not u.enforce and not u.replace and not u.dfcc:
        # loops only: pre/postconditions are those of the harness
        rc, o, e, t = run(['goto-instrument', '--drop-unused-functions', '--apply-loop-contracts', '--no-malloc-may-fail'] + list(u.instrument) + ex + [a, b], 120)
        if rc != 0: raise Attach('goto-instrument: ' + (e + o)[-1500:])
        return b
    cmd = ['goto-instrument', '--dfcc', u.entry]
    if u.enforce: cmd += ['--enforce-contract', u.enforce]
    for r in u.replace: cmd += ['--replace-call-with-contract', r]
    cmd += ['--apply-loop-contracts', '--no-malloc-may-fail'] + list(u.instrument) + ex + [a, b]
    rc, o, e, t = run(cmd, 120)
    if rc != 0:
        raise Attach('goto-instrument: ' + (e + o)[-1500:])
    return b


ALL_UNITS = []
SEARCHED = set()


# ---- automatic linking: every library function the harness reaches and does not define itself
#      is taken from the file of /repo that defines it
_index = {}
_ilock = threading.Lock()
_olocks = {}


def func_index():
    with _ilock:
        if not _index:
            rx = re.compile(r'^(?!static\b|typedef\b|struct\b[^(]*\{)[A-Za-z_][\w\s\*]*?[\s\*](\w+)\s*\(', re.M)
            for f in lib_sources(MODULES):
                try: s = strip_map(open(os.path.join(REPO, f), encoding='utf-8', errors='surrogateescape').read())
                except OSError: continue
                for m in rx.finditer(s):
                    e = match(s, m.end() - 1, '(', ')')
                    if e < 0: continue
                    k = e + 1
                    while k < len(s) and s[k].isspace(): k += 1
                    if k < len(s) and s[k] == '{': _index.setdefault(m.group(1), f)
    return _index


def subst_source(rel, u, root):
    """source file with compile-time constants reduced as the unit says (mechanical; the text is otherwise the repository's)"""
    path = os.path.join(REPO, rel)
    mine = [x for x in u.subst if x[0] == rel]
    if not mine: return path, ''
    t = open(path, encoding='utf-8', errors='surrogateescape').read()
    for _, rx, rp in mine: t = re.sub(rx, rp, t)
    h = hashlib.sha1(repr(mine).encode()).hexdigest()[:8]
    d = os.path.join(root, 'sub_' + h); os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, os.path.basename(rel))
    tmp = dst + '.%d' % threading.get_ident()
    with open(tmp, 'w', encoding='utf-8', errors='surrogateescape') as f: f.write(t)
    os.rename(tmp, dst)
    return dst, '_' + h


def repo_object(rel, u, work):
    root = os.path.join(os.path.dirname(work), 'obj'); os.makedirs(root, exist_ok=True)
    src, tag = subst_source(rel, u, root)
    o = os.path.join(root, rel.replace('/', '_') + tag + '.o')
    with _ilock: lk = _olocks.setdefault(o, threading.Lock())
    with lk:
        if not os.path.exists(o):
            cmd = ['goto-cc', '-DVF_CBMC'] + CPP + incs(u, os.path.join(work, 'none')) + ['-I' + os.path.dirname(os.path.join(REPO, rel)), '-c', src, '-o', o + '.t']
            rc, so, se, t = run(cmd, 120)
            if rc != 0: raise Attach('goto-cc %s: %s' % (rel, (se + so)[-800:]))
            os.rename(o + '.t', o)
    return o


def fn_names(cmd):
    rc, o, e, t = run(cmd, 120)
    return o


def link(u, work, inc, out, entry):
    inc = list(inc); have = set(); linked = set()
    for rnd in range(25):
        rc, o, e, t = run(['goto-cc', '--function', entry] + inc + ['-o', out], 120)
        if rc != 0: raise Attach('link: ' + (e + o)[-1500:])
        if not u.autolink: return
        fp = out + '.fp'
        run(['goto-instrument', '--remove-function-pointers', out, fp], 120)
        undef = set(fn_names(['goto-instrument', '--list-undefined-functions', fp]).split('\n'))
        calls = set(re.findall(r'^\S+ -> (\S+)$', fn_names(['goto-instrument', '--reachable-call-graph', fp]), re.M))
        idx = func_index()
        need = sorted({idx[f] for f in undef & calls if f in idx and f not in u.nolink} - linked)
        if not need: return
        # functions already defined: the program so far wins
        defined = set(re.findall(r'^(\w+) /\* ', fn_names(['goto-instrument', '--show-goto-functions', out]), re.M))
        for rel in need:
            ob = repo_object(rel, u, work)
            mine = set(re.findall(r'^(\w+) /\* ', fn_names(['goto-instrument', '--show-goto-functions', ob]), re.M))
            dup = sorted((mine & defined) | (mine & set(u.nolink)))
            dup = [d for d in dup if idx.get(d) == rel or d in u.nolink]
            if dup:
                o2 = os.path.join(os.path.dirname(out), os.path.basename(ob) + '.%d.o' % len(linked))
                args = []
                for d in dup: args += ['--remove-function-body', d]
                rc, o, e, t = run(['goto-instrument'] + args + [ob, o2], 120)
                if rc != 0: raise Attach('remove bodies %s: %s' % (rel, (e + o)[-500:]))
                ob = o2
            inc.append(ob); linked.add(rel); defined |= mine
    raise Attach('link: no fixpoint')


def cbmc_cmd(u, gb, extra=()):
    c = ['cbmc', gb] + (['--function', u.entry, '--drop-unused-functions'] if u.kind == 'plain' else []) + ['--no-malloc-may-fail', '--slice-formula', '--object-bits', '10']
    if u.unwind: c += ['--unwind', str(u.unwind)]
    for x in u.unwindset: c += ['--unwindset', x]
    if u.solver in ('cvc5', 'z3'): c += ['--' + u.solver]
    elif u.solver: c += ['--sat-solver', u.solver]
    c += list(u.cbmc)
    return c + list(extra)


def parse_results(out):
    try:
        j = json.loads(out)
    except Exception:
        return None, None
    res = None; err = ''
    for x in j:
        if isinstance(x, dict):
            if 'result' in x: res = x['result']
            mt = x.get('messageText', '')
            if x.get('messageType') == 'ERROR': err += x.get('messageText', '') + '\n'
    return res, err


def run_native(u, work):
    """functions out of the verifier's reach: a bounded, seeded run of the harness on the real code (never counted as proved)"""
    r = Result(u); r.work = work; t0 = time.time()
    os.makedirs(work, exist_ok=True)
    with _ilock: lk = _olocks.setdefault('lib', threading.Lock())
    with lk: build_lib(u.libs, os.path.dirname(work), *FUZZ_FLAGS)
    exe, err = build_native(u, work, 'fuzz')
    if exe is None: r.status = 'unattached'; r.msg = err; return r
    d = os.path.join(work, 'fz'); os.makedirs(d + '/c')
    rc, o, e, t = run([exe, '-seed=1', '-max_len=%d' % u.fuzz_len, '-len_control=0', '-timeout=20', '-rss_limit_mb=3000', '-max_total_time=%d' % u.seconds, '-runs=%d' % u.runs, '-artifact_prefix=' + d + '/', d + '/c'], u.seconds + 60, mem=False, env=NENV)
    r.time = time.time() - t0
    m = re.search(r'Done (\d+) runs', e); r.msg = 'bounded native run: %s inputs' % (m.group(1) if m else '?'); SEARCHED.add(u.name)
    art = glob.glob(d + '/crash-*') + glob.glob(d + '/timeout-*')
    r.status = 'searched'
    if art: r.status = 'failed'; r.hit = open(art[0], 'rb').read(); r.failed = [('(native)', 'harness assertion failed on the real code', {})]
    return r


def run_unit(u, work):
    if u.kind == 'native': return run_native(u, work)
    r = Result(u); r.work = work
    t0 = time.time()
    try:
        gb = build_unit(u, work)
    except Attach as e:
        r.status = 'unattached'; r.msg = str(e); r.time = time.time() - t0
        return r
    r.gb = gb
    if os.environ.get('VF_NORUN'): r.status = 'undecided'; return r
    cmd = cbmc_cmd(u, gb, ['--json-ui', '--verbosity', '4'])
    r.cmd = ' '.join(cmd[:1] + ['<goto-binary>'] + cmd[2:])
    rc, o, e, t = run(cmd, u.timeout)
    r.time = time.time() - t0
    if rc == -999:
        r.status = 'undecided'; r.msg = 'timeout after %ds' % u.timeout; return r
    res, err = parse_results(o)
    if res is None:
        r.status = 'undecided'; r.msg = 'cbmc rc=%s %s %s' % (rc, (err or '')[-500:], e[-500:] + o[-300:]); return r
    unknown = []
    for x in res:
        d = x.get('description', ''); st = x.get('status')
        if 'VF_REACH:' in d:
            r.reach += 1
            if st != 'FAILURE': r.unreached.append(d)
            continue
        if any(re.search(p, x['property'] + ' ' + d) for p in u.ignore): continue
        if '.no-body.' in x['property']:
            fn = x['property'].split('.no-body.')[1]
            r.nobody.add(fn)
            if fn not in u.nobody and st == 'FAILURE': unknown.append((x['property'], d, {}))
            continue
        r.obl += 1
        if st == 'SUCCESS': r.ok += 1
        elif st == 'FAILURE': r.failed.append((x['property'], d, x.get('sourceLocation', {})))
        else: unknown.append((x['property'], d, x.get('sourceLocation', {})))
    unw = [x for x in r.failed if '.unwind.' in x[0] or 'recursion' in x[0]]
    if unw and len(unw) == len(r.failed):
        r.status = 'undecided'; r.msg = 'loop bound not sufficient: %s' % [x[0] for x in unw][:4]
    elif r.failed: r.status = 'failed'
    elif unknown: r.status = 'undecided'; r.msg = 'unknown: %s' % unknown[:3]
    elif r.unreached or r.reach == 0: r.status = 'vacuous'; r.msg = 'precondition not reachable: %s' % r.unreached
    elif r.obl < u.min_obl: r.status = 'vacuous'; r.msg = 'only %d obligations' % r.obl
    else: r.status = 'proved'
    return r


# ------------------------------------------------------------------ witnesses
def trace_inputs(u, r, prop):
    cmd = cbmc_cmd(u, r.gb, ['--json-ui', '--verbosity', '4', '--trace', '--property', prop])
    rc, o, e, t = run(cmd, u.timeout)
    res, err = parse_results(o)
    for x in res or []:
        if x.get('property') == prop and x.get('status') == 'FAILURE' and 'trace' in x:
            bs = bytearray()
            for s in x['trace']:
                if s.get('stepType') != 'input': continue
                iid = s.get('inputID', '')
                if iid not in ('vf_in1', 'vf_in8'): continue
                b = s['values'][0].get('binary', '0')
                v = int(b, 2)
                if iid == 'vf_in1': bs.append(v & 255)
                else: bs.append(8); bs += (v & (2**64 - 1)).to_bytes(8, 'little')
            return bytes(bs)
    return None


FUZZ_FLAGS = (['-fsanitize=address,fuzzer-no-link', '-fno-omit-frame-pointer'], 'clang', 'fuzz')
EXCL = re.compile(r'(_win\b|_win\d|win32|_win_|_mac|android|_nslog|kqueue|_ios|_jni|_ble|bluetooth|notimpl|_coop|rwlock_emu|pollemu|_mfi|/test/|_serial_mac|w32|oracle|odbc|mysql|postgresql|_hid_linux)')


def lib_sources(libs):
    out = []
    for l in libs:
        for f in sorted(glob.glob(os.path.join(REPO, l, '**', '*.c'), recursive=True)):
            rel = os.path.relpath(f, REPO)
            if EXCL.search(rel): continue
            if rel.startswith('sql/sqlite'): continue
            out.append(rel)
    return out


_libs = {}


def build_lib(libs, work, flags, cc, tag):
    key = (tuple(libs), tag)
    if key in _libs: return _libs[key]
    d = os.path.join(work, 'lib_' + tag); os.makedirs(d, exist_ok=True)
    srcs = lib_sources(libs)
    inc = ['-I' + os.path.join(VERIF, 'include'), '-I' + os.path.join(REPO, 'include'), '-I' + REPO] + ['-I' + os.path.join(REPO, m) for m in MODULES]
    def one(rel):
        o = os.path.join(d, rel.replace('/', '_') + '.o')
        rc, so, se, t = run([cc, '-w', '-c', '-g', '-O1'] + flags + CPP + inc + ['-I' + os.path.dirname(os.path.join(REPO, rel)), os.path.join(REPO, rel), '-o', o], 120, mem=False)
        return (rc, rel, o, se)
    objs = []; bad = []
    with ThreadPoolExecutor(NCPU) as ex:
        for rc, rel, o, se in ex.map(one, srcs):
            if rc == 0: objs.append(o)
            else: bad.append((rel, se[-400:]))
    lib = os.path.join(d, 'lib.a')
    run(['ar', 'rcs', lib] + objs, 60, mem=False)
    _libs[key] = (lib, bad)
    return _libs[key]


def build_native(u, work, mode):
    """mode: replay | fuzz"""
    hpath = os.path.join(VERIF, 'harness', u.harness)
    exe = os.path.join(work, 'native_%s_%s' % (mode, u.name))
    if mode == 'replay':
        cc, fl, tag = 'gcc', ['-fsanitize=address', '-fno-omit-frame-pointer'], 'asan'
        xf = ['-DVF_REPLAY']
    else:
        cc, fl, tag = 'clang', ['-fsanitize=address,fuzzer-no-link', '-fno-omit-frame-pointer'], 'fuzz'
        xf = []
    lib, bad = build_lib(u.libs, work, fl, cc, tag)
    inc = incs(u, os.path.join(work, 'none'))
    defs = ['-DVF_NATIVE', '-DVF_ENTRY=' + u.entry] + list(u.defines)
    cmd = [cc, '-w', '-g', '-O1'] + fl + (['-fsanitize=fuzzer'] if mode == 'fuzz' else []) + xf + CPP + defs + inc + \
          [hpath, os.path.join(VERIF, 'vf', 'native.c')] + \
          sum([['-I' + os.path.dirname(os.path.join(REPO, r_)), subst_source(r_, u, work)[0]] for r_ in sorted({x[0] for x in u.subst})], []) + ['-Wl,--allow-multiple-definition', lib] + \
          ['-lpthread', '-lrt', '-ldl', '-lm'] + (['-lcares', '-lssl', '-lcrypto'] if ('tls' in u.libs or 'io' in u.libs) else []) + ['-o', exe]
    rc, o, e, t = run(cmd, 180, mem=False)
    if rc != 0: return None, (e + o)[-2000:]
    return exe, ''


NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='halt_on_error=1')


def replay(exe, data, path, times=1):
    with open(path, 'wb') as f: f.write(data)
    rc, o, e, t = run([exe, path], 60, mem=False, env=NENV, cwd=os.path.dirname(path))
    bad = rc not in (0, 77) and (('VF-ASSERT-FAILED' in e) or ('ERROR: AddressSanitizer' in e) or rc == -999)
    return bad, rc, e


def witness_trace(u, r, work, outdir, budget):
    """replay the verifier's counterexamples on the real code"""
    t0 = time.time(); notes = []
    os.makedirs(outdir, exist_ok=True)
    exe, err = build_native(u, work, 'replay')
    if exe is None: return None, ['native build failed: ' + err[-800:]]
    fl = sorted(r.failed, key=lambda x: 0 if 'VF:' in x[1] else 1)
    for prop, d, loc in fl[:3]:
        if time.time() - t0 > budget: break
        data = trace_inputs(u, r, prop)
        if data is None: continue
        p = os.path.join(outdir, '%s.bin' % u.name)
        bad, rc, e = replay(exe, data, p)
        notes.append('counterexample of %s (%s): replay rc=%s' % (prop, d, rc))
        if bad: return dict(file=p, prop=prop, desc=d, native=e[-3000:], how='verifier counterexample replayed on the real code', unit=u.name), notes
    return None, notes


def witness_search(u, work, outdir, budget):
    """search a failing input of the harness on the real code"""
    t0 = time.time(); notes = []
    os.makedirs(outdir, exist_ok=True)
    exe, err = build_native(u, work, 'replay')
    if exe is None: return None, ['native build failed: ' + err[-800:]]
    if True:
        fexe, err = build_native(u, work, 'fuzz')
        if fexe is None:
            notes.append('fuzz build failed: ' + err[-500:]); return None, notes
        left = max(10, budget - (time.time() - t0))
        SEARCHED.add(u.name)
        d = os.path.join(work, 'fz_' + u.name); shutil.rmtree(d, ignore_errors=True); os.makedirs(os.path.join(d, 'c'))
        seed = int(os.environ.get('VF_SEED', os.environ.get('VERIF_SEED', '1')) or 1)
        procs = []
        for k in range(max(1, NCPU - 1)):
            dd = os.path.join(d, 'w%d' % k); os.makedirs(os.path.join(dd, 'c'))
            procs.append((dd, subprocess.Popen([fexe, '-seed=%d' % (seed * 100 + k + 1), '-max_len=%d' % u.fuzz_len, '-len_control=%d' % (0 if k % 2 else 20), '-timeout=20', '-rss_limit_mb=3000', '-max_total_time=%d' % int(left), '-artifact_prefix=' + dd + '/', os.path.join(dd, 'c')],
                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=NENV, cwd=dd)))
        hit = None
        while time.time() - t0 < budget + 30:
            alive = [p for dd, p in procs if p.poll() is None]
            for dd, p in procs:
                for f in sorted(glob.glob(dd + '/crash-*') + glob.glob(dd + '/timeout-*')):
                    data = open(f, 'rb').read()
                    pp = os.path.join(outdir, '%s.bin' % u.name)
                    bad, rc, e = replay(exe, data, pp)
                    if bad: hit = (pp, e)
                    os.unlink(f)
                    if hit: break
                if hit: break
            if hit or not alive: break
            time.sleep(0.3)
        for dd, p in procs:
            if p.poll() is None: p.kill()
            p.wait()
        if hit:
            return dict(file=hit[0], prop='(search)', desc='failing input found by searching for the failed obligation', native=hit[1][-3000:], how='search on the real code', unit=u.name), notes
    return None, notes


# ------------------------------------------------------------------ a check
def scan_trusted(units):
    """mechanical scan of the harness texts for assumptions"""
    hs = sorted({u.harness for u in units}); tr = []
    for h in hs:
        t = open(os.path.join(VERIF, 'harness', h)).read()
        n = len(re.findall(r'__CPROVER_assume|vf_assume', t))
        for m in re.finditer(r'/\*@VF_TRUST\s+(.*?)@\*/', t, re.S): tr.append('%s: %s' % (h, ' '.join(m.group(1).split())))
        tr.append('%s: %d assume statements (preconditions and input domains of the harnesses)' % (h, n))
        for inc in re.findall(r'#include "(stubs/[^"]+)"', t):
            tt = open(os.path.join(VERIF, 'harness', inc)).read()
            for m in re.finditer(r'/\*@VF_TRUST\s+(.*?)@\*/', tt, re.S):
                s = '%s: %s' % (inc, ' '.join(m.group(1).split()))
                if s not in tr: tr.append(s)
    return tr


def check(pid, mod, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    units = [u for u in mod.UNITS if tier == 'thorough' or u.quick]
    only = os.environ.get('VF_ONLY')
    if only: units = [u for u in units if re.search(only, u.name)]
    work = tempfile.mkdtemp(prefix='vf_%s_' % pid, dir=os.environ.get('VF_TMP', '/tmp'))
    outdir = os.path.join(VERIF, 'evidence', 'replay', pid)
    if os.environ.get('VF_REPO'): outdir = os.path.join(work, 'replay')
    shutil.rmtree(outdir, ignore_errors=True)
    rc = 2
    try:
        rc = _check(pid, mod, tier, units, work, outdir, t0, seed)
    finally:
        if not os.environ.get('VF_KEEP'): shutil.rmtree(work, ignore_errors=True)
        else: print('work dir', work)
    return rc


def _check(pid, mod, tier, units, work, outdir, t0, seed):
    results = {}
    ALL_UNITS[:] = units
    with ThreadPoolExecutor(NCPU) as ex:
        order = sorted(units, key=lambda u: -u.timeout)
        fut = {ex.submit(run_unit, u, os.path.join(work, u.name)): u for u in order}
        for f in as_completed(fut):
            r = f.result(); results[r.unit.name] = r
            if os.environ.get('VF_V') or r.status not in ('proved', 'searched'):
                print('  unit %-34s %-10s %4d/%-4d %.1fs %s' % (r.unit.name, r.status, r.ok, r.obl, r.time, shorten(r.msg).replace('\n', ' ')), flush=True)
                for p, d, l in r.failed[:8]: print('      failed: %s: %s (%s:%s)' % (p, d, os.path.basename(l.get('file', '?')), l.get('line', '?')), flush=True)
    R = [results[u.name] for u in units]
    failed = [r for r in R if r.status == 'failed']
    vac = [r for r in R if r.status == 'vacuous']
    und = [r for r in R if r.status == 'undecided']
    una = [r for r in R if r.status == 'unattached']
    byname = {u.name: u for u in mod.UNITS}
    viol = None; vnotes = []; nofail = None
    budget_total = float(os.environ.get('VF_BUDGET', '840')) - (time.time() - t0)
    # witness search: plain failures first (they carry counterexamples), then the witness units of failed contracts
    for r in failed:
        if r.unit.kind == 'native' and not viol:
            os.makedirs(outdir, exist_ok=True)
            exe, err = build_native(r.unit, work, 'replay'); pp = os.path.join(outdir, r.unit.name + '.bin')
            bad, rc_, e = replay(exe, r.hit, pp) if exe else (False, 0, '')
            if bad: viol = dict(file=pp, prop='(native)', desc='failing input found by the bounded native run', native=e[-3000:], how='bounded run on the real code', unit=r.unit.name)
        if r.unit.kind == 'plain' and r.unit.native and not viol:
            viol, notes = witness_trace(r.unit, r, work, outdir, 120); vnotes += ['%s: %s' % (r.unit.name, n) for n in notes]
    todo = []
    for r in failed + vac + und + una:
        ws = r.unit.witness or ()
        for w in [r.unit.name] + ([ws] if isinstance(ws, str) else list(ws)):
            if w not in [x.name for x in todo] and byname[w].native and byname[w].fuzz: todo.append(byname[w])
    dead = time.time() + min(budget_total, 240 if failed or vac else 90)
    # same harness, defines and entry: one search
    for k, u in enumerate(todo):
        left = dead - time.time()
        if viol or left < 10: break
        viol, notes = witness_search(u, work, outdir, min(max(20, left / max(1, len(todo) - k)), 120)); vnotes += ['%s: %s' % (u.name, n) for n in notes]
    nviol = 0
    os.makedirs(outdir, exist_ok=True)
    line = None
    if viol:
        nviol = 1
        p = os.path.join(outdir, 'violation.json')
        viol['failed_obligations'] = [dict(unit=r.unit.name, obligation=p_, text=d, at=l) for r in failed for p_, d, l in r.failed][:50]
        viol['replay_cmd'] = 'python3 %s/check.py %s --replay %s' % (VERIF, pid, p)
        json.dump(viol, open(p, 'w'), indent=1)
        print('  failing input: %s (%s): %s' % (viol['file'], viol['how'], viol['desc']))
        for ln in viol['native'].splitlines():
            if 'VF-ASSERT' in ln or 'ERROR: Addr' in ln or ' #0 ' in ln or ' #1 ' in ln or ' #2 ' in ln: print('    ' + ln)
        line = 'VIOLATION property=%s replay=%s' % (pid, p)
        rc = 1
    elif failed or vac:
        nviol = 1
        p = os.path.join(outdir, 'failed_obligation.json')
        json.dump(dict(failed_obligations=[dict(unit=r.unit.name, obligation=p_, text=d, at=l) for r in failed for p_, d, l in r.failed][:50],
                       vacuous=[dict(unit=r.unit.name, why=r.msg) for r in vac], verifier=[dict(unit=r.unit.name, cmd=r.cmd) for r in failed], notes=vnotes), open(p, 'w'), indent=1)
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p)
        rc = 1
    else:
        # undecided or unattached obligations: nothing failed, and the search on the real code found nothing
        if und or una: print('UNDECIDED property=%s (searched natively, no failing input) units=%s' % (pid, ','.join(r.unit.name for r in und + una)))
        rc = 0
        if not [r for r in R if r.status == 'proved'] and not SEARCHED: rc = 2
    for kf in getattr(mod, 'KNOWN', []):
        print('KNOWN-FINDING: property=%s %s' % (pid, kf))
    proofs = [r for r in R if r.unit.level == 'proof']; bnd = [r for r in R if r.unit.level != 'proof']
    cov = dict(
        obligations=sum(r.obl for r in proofs), discharged=sum(r.ok for r in proofs),
        bounded_obligations=sum(r.obl for r in bnd), bounded_discharged=sum(r.ok for r in bnd),
        checker_cmd='cbmc 6.11.0 (goto-cc; goto-instrument --dfcc for contract units)',
        reachability_covers=sum(r.reach - len(r.unreached) for r in R),
        functions_under_contract=sorted({f for r in proofs if r.status == 'proved' for f in r.unit.funcs}),
        functions_bounded_only=sorted({f for r in bnd for f in r.unit.funcs} - {f for r in proofs for f in r.unit.funcs}),
        units=[dict(unit=r.unit.name, kind=r.unit.kind, level=r.unit.level, status=r.status, bound=r.unit.bound, obligations=r.obl, discharged=r.ok,
                    reach=r.reach, backend=r.unit.solver or 'sat(minisat/cadical built in)', seconds=round(r.time, 2), functions=list(r.unit.funcs),
                    external_without_body=sorted(r.nobody), note=r.msg[:300]) for r in R],
        units_not_attached=[dict(unit=r.unit.name, why=r.msg[:400]) for r in una],
        solver_seconds=round(sum(r.time for r in R), 1),
        trusted_base=scan_trusted(units) + list(getattr(mod, 'TRUST', [])))
    cov['explanation'] = getattr(mod, 'EXPLAIN', '')
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof') if proofs else 'other', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUME', [])) + COMMON_ASSUME, wall_s=round(time.time() - t0, 1), violations=nviol)
    if not os.environ.get('VF_REPO') and not os.environ.get('VF_ONLY'):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for n in vnotes: print('  note: ' + n[:1500])
    print('%s: %d/%d proof obligations, %d/%d bounded, %d units, %.1fs' % (pid, cov['discharged'], cov['obligations'], cov['bounded_discharged'], cov['bounded_obligations'], len(R), time.time() - t0))
    if line: print(line)
    return rc


COMMON_ASSUME = [
    'CBMC 6.11 C semantics, its built-in models of memcpy/memmove/memset/malloc/free, and the LP64 little-endian data model of this build',
    'M_malloc does not return NULL (the library default aborts on exhaustion)',
    'termination is shown only where a decreases clause or a complete unwinding is listed',
]
