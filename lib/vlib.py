"""Build the drivers from /repo's working tree, drive them, let TLC judge the traces."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
REPO = os.environ.get('BN_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = os.cpu_count() or 4


class CheckError(Exception):
    """the check itself failed: no verdict"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


# ---- building ---------------------------------------------------------------
ASAN = ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_SANITIZE_VECTOR']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:allocator_may_return_null=1',
           TSAN_OPTIONS='halt_on_error=0:report_signal_unsafe=0:exitcode=0:log_path=/dev/null')


def library_sources():
    d = os.path.join(REPO, 'src')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cpp'))


def build(work, name, units, flags, cxx='g++'):
    """units: list of (source, extra flags). Returns the path of the program."""
    out = os.path.join(work, name + '.o.d')
    os.makedirs(out)
    base = [cxx, '-std=gnu++11', '-w', '-I', os.path.join(REPO, 'include'), '-I', HARNESS] + flags

    def one(iu):
        i, (src, extra) = iu
        o = os.path.join(out, '%d.o' % i)
        p = sh(base + extra + ['-c', src, '-o', o])
        if p.returncode: raise CheckError('cannot compile %s:\n%s' % (src, p.stdout[-3000:]))
        return o
    with ThreadPoolExecutor(CORES) as ex: objs = list(ex.map(one, enumerate(units)))
    exe = os.path.join(work, name)
    p = sh([cxx] + [f for f in flags if 'sanitize' in f and not f.startswith('-D')] + objs + ['-o', exe, '-pthread'])
    if p.returncode: raise CheckError('cannot link %s:\n%s' % (name, p.stdout[-3000:]))
    return exe


def build_driver(work, types, name='driver', defines=(), flags=ASAN):
    units = [(os.path.join(HARNESS, 't.cpp'), ['-DTYPE_' + t]) for t in types]
    units += [(s, []) for s in library_sources()]
    units += [(os.path.join(HARNESS, 'rt.cpp'), [])]
    return build(work, name, units, list(flags) + list(defines))


# ---- TLC --------------------------------------------------------------------
class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        self.ok = 'Model checking completed. No error has been found.' in out
        self.deadlock = 'Deadlock reached' in out
        self.violated = re.search(r'(Invariant|Action property|Temporal properties|Property) ?(\S*) (is|were|was) violated', out)

    def last(self, var):
        m = re.findall(r'^/\\ %s = (.+)$' % var, out_states(self.out), re.M)
        return m[-1] if m else None


def out_states(s):
    return s


def tlc(work, module, cfg, env=None, workers=1, heap='3g', extra=(), timeout=850, tag=''):
    meta = tempfile.mkdtemp(prefix='meta', dir=work)
    cmd = ['java', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC', '-Xmx' + heap, '-Xss' + os.environ.get('BN_XSS', '1000m'), '-Djava.io.tmpdir=' + meta, '-cp', JARS,
           'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', meta, '-config', cfg] + list(extra) + [module]
    try:
        p = sh(cmd, env=dict(os.environ, **(env or {})), cwd=work, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC ran out of time on ' + module)
    shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(p.stdout, p.returncode)


def tla_set(xs):
    return '{' + ', '.join('"%s"' % x for x in sorted(xs)) + '}'


def schedules(work):
    """interleavings of calls, enumerated by TLC from Schedules.tla"""
    out = os.path.join(work, 'schedules.txt')
    r = tlc(work, os.path.join(SPEC, 'Schedules.tla'), os.path.join(SPEC, 'Schedules.cfg'), env={'SCHEDULES': out})
    if not r.ok: raise CheckError('no schedules\n' + r.out[-2000:])
    with open(out) as f: return sorted([int(x) for x in re.findall(r'\d+', line)] for line in f)


def transitions(work):
    """every transition of the small-scope state graph of MCBigNum.tla: the calls that lead to it"""
    out, cfg = os.path.join(work, 'transitions.txt'), os.path.join(work, 'transitions.cfg')
    with open(os.path.join(SPEC, 'MCBigNum.cfg')) as f: text = f.read()
    with open(cfg, 'w') as f: f.write(re.sub(r'^INVARIANTS.*$', '', text, flags=re.M))
    r = tlc(work, os.path.join(SPEC, 'MCBigNum.tla'), cfg, env={'EMIT': out})
    if not r.ok: raise CheckError('no transitions\n' + r.out[-2000:])
    with open(out) as f: lines = sorted(set(f))
    os.remove(out)
    return [re.findall(r'"([^"]*)"', l) for l in lines], r


# ---- traces -------------------------------------------------------------------
class Rejection:
    def __init__(self, line, trace, index, script):
        self.line, self.trace, self.index, self.script = line, trace, index, script
        self.event = trace['ev'][index - 1]


class Stats:
    def __init__(self):
        self.states = self.transitions = self.traces = self.events = 0
        self.ops, self.types, self.samples = {}, {}, []

    def add(self, o):
        for n in ('states', 'transitions', 'traces', 'events'): setattr(self, n, getattr(self, n) + getattr(o, n))
        for mine, theirs in ((self.ops, o.ops), (self.types, o.types)):
            for k in theirs: mine[k] = mine.get(k, 0) + theirs[k]

    def add_traces(self, path):
        n = k = 0
        with open(path) as f:
            for line in f:
                n += 1
                t = re.search(r'"t":"(\w+)"', line)
                if t: self.types[t.group(1)] = self.types.get(t.group(1), 0) + 1
                for op in re.findall(r'(?<!"got":.)(?<!"alone":.)"op":"(\w+)"', line):
                    self.ops[op] = self.ops.get(op, 0) + 1
                    k += 1
                if len(self.samples) < 3 and n % 7 == 3: self.samples.append(line[:900])
        self.traces += n
        self.events += k
        return n, k


def validate(work, module, obl, path, workers=1, heap='3g', key='Obl'):
    """None if every trace is a behaviour of the specification, else (line number, event number)"""
    cfg = path + '.cfg'
    with open(cfg, 'w') as f:
        f.write('SPECIFICATION TraceSpec\nALIAS Where\n')
        if isinstance(obl, int): f.write('CONSTANT Slack = %d\n' % obl)
        elif obl is not None: f.write('CONSTANT %s = %s\n' % (key, tla_set(obl)))
    r = tlc(work, os.path.join(SPEC, module), cfg, env={'TRACE': path}, workers=workers, heap=heap)
    if r.ok: return None, r
    if r.deadlock:
        tid, l = r.last('tid'), r.last('l')
        if tid and l: return (int(tid), int(l)), r
    raise CheckError('TLC: no verdict on %s\n%s' % (path, '\n'.join(x for x in r.out.splitlines() if 'rror' in x or 'xception' in x)[:3000] + r.out[-1500:]))


def nth_line(path, n):
    with open(path) as f:
        for i, line in enumerate(f, 1):
            if i == n: return json.loads(line)


def drive(exe, script, out, args=(), timeout=800):
    try:
        p = sh([exe, script, out] + list(args), env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('driver ran out of time')
    if p.returncode: raise CheckError('driver failed (%d)\n%s' % (p.returncode, p.stdout[-2000:]))
    return p.stdout


def mend(path):
    """a trace the driver could not write properly (its memory was overwritten) is one that ends in a crash"""
    with open(path, 'rb') as f: lines = f.read().split(b'\n')
    out, bad = [], 0
    for line in lines:
        if not line: continue
        try: json.loads(line.decode('utf-8'))
        except ValueError:
            bad += 1
            head = re.match(rb'\{"id":"[\w.-]*"[^\[\]{}]*"ev":\[', line)
            if not head: raise CheckError('unreadable trace')
            start = re.match(rb'\{"op":"start"[^{}]*\}, ', line[head.end():])
            line = head.group(0) + (start.group(0) if start else b'') + b'{"op":"crash","during":"the trace is damaged","ch":[]}]}'
        out.append(line)
    if bad:
        with open(path, 'wb') as f: f.write(b'\n'.join(out) + b'\n')


def run_shard(work, exe, module, obl, name, texts, stats, lock, drive_args=()):
    """texts: scripts, one per trace. Returns a Rejection or None."""
    script, out = os.path.join(work, name + '.s'), os.path.join(work, name + '.tr')
    with open(script, 'w') as f: f.writelines(texts)
    drive(exe, script, out, drive_args)
    mend(out)
    bad, r = validate(work, module, obl, out)
    with lock:
        n, k = stats.add_traces(out)
        stats.states += r.distinct
        stats.transitions += max(0, r.generated - n)
    if bad is None:
        if r.distinct != n + k:
            raise CheckError('%s: %d states for %d traces with %d events' % (name, r.distinct, n, k))
        if n != len(texts): raise CheckError('%s: %d traces for %d scripts' % (name, n, len(texts)))
        os.remove(out)
        return None
    return Rejection(bad[0], nth_line(out, bad[0]), bad[1], script)


def traces_stage(work, exe, module, obl, texts, stats, shards=None, drive_args=(), chance=False):
    """drive and validate; returns a confirmed rejection (dict) or None. chance: threads need not meet the same way twice"""
    import threading
    lock = threading.Lock()
    shards = shards or CORES
    parts = [texts[i::shards] for i in range(shards)]
    parts = [p for p in parts if p]
    with ThreadPoolExecutor(CORES) as ex:
        fs = [ex.submit(run_shard, work, exe, module, obl, '%s-%d' % (os.path.basename(exe), i), p, stats, lock, drive_args)
              for i, p in enumerate(parts)]
        rs = [f.result() for f in fs]
    for i, r in enumerate(rs):
        if r is None: continue
        # the same script alone, then the same run again
        for texts2 in ([parts[i][r.line - 1]], parts[i]) * (3 if chance else 1):
            s2 = Stats()
            again = run_shard(work, exe, module, obl, 'confirm', texts2, s2, lock, drive_args)
            if again is not None and (chance or again.trace['id'] == r.trace['id'] and again.event['op'] == r.event['op']):
                return {'trace': again.trace['id'], 'type': again.trace.get('t'), 'event_number': again.index,
                        'event': again.event, 'before': context(again), 'script': ''.join(texts2)}
        raise CheckError('a rejection did not repeat: %s event %d %s' % (r.trace['id'], r.index, json.dumps(r.event)[:500]))
    return None


def context(rej):
    """the numbers as last recorded before the rejected event"""
    pool = {}
    for e in rej.trace['ev'][:rej.index - 1]:
        for c in e.get('ch', []): pool[str(c[0])] = c[1:]
    return pool
