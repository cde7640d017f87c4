"""Model-checks the specification itself (nothing here touches /repo).
bin/models [name...]: all models, or the named ones."""
import os, re, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

# name -> (module, substitutions in its .cfg, what must be found: None or the violated property)
MODELS = {
    'naturals': ('MCBigNat', {}, None),
    'numbers': ('MCBigNum', {}, None),
    'loops': ('AlgBigNum', {}, None),
    'loops-binary': ('AlgBigNum', {'Base': '2', 'DW': '4', 'L': '4'}, None),
    'loops-ten': ('AlgBigNum', {'Base': '10', 'DW': '32'}, None),
    'digits': ('MCIntType', {}, None),
    'fourier': ('MCFourier', {}, None),
    'threads': ('MCThreads', {}, None),
    'threads-carry': ('MCThreads', {'Hidden': '"carry"'}, 'violated'),
    'threads-trim': ('MCThreads', {'Hidden': '"trim"'}, 'violated'),
    'threads-scratch': ('MCThreads', {'Hidden': '"scratch"'}, 'violated'),
}
WRONG_LOOPS = ['compare on', 'count zeros', 'negative zero', 'drop last carry', 'borrow from digit', 'trim once', 'narrow carry',
               'short table', 'zero without digits', 'divisor aliased', 'double keeps length', 'lose quotient']
for _v in WRONG_LOOPS: MODELS['loops: ' + _v] = ('AlgBigNum', {'Base': '2', 'DW': '4', 'L': '3', 'Variant': '"%s"' % _v}, 'violated|Evaluating invariant')
MODELS['loops: narrow word'] = ('AlgBigNum', {'DW': '3'}, 'violated')
# one operator at a time, for the checks of one operator
for _o in '+-*/':
    for _n in ('loops', 'loops-binary', 'loops-ten'): MODELS[_n + ' ' + _o] = (MODELS[_n][0], dict(MODELS[_n][1], OpsUsed='{"%s"}' % _o), None)
WRONG = {'+': ['compare on', 'count zeros', 'drop last carry', 'borrow from digit'], '-': ['compare on', 'count zeros', 'drop last carry', 'borrow from digit'],
         '*': ['narrow carry', 'short table'], '/': ['compare on', 'zero without digits', 'divisor aliased', 'double keeps length', 'lose quotient']}
# proofs (tlapm): name -> (module, textual change that must make the proof fail, or None)
PROOFS = {'proofs': ('LoopProofs', None), 'proofs: narrow word': ('LoopProofs', ('DW >= 2 * B', 'DW >= B'))}
LOOPS = ['loops', 'loops-binary', 'loops-ten'] + [m for m in MODELS if m.startswith('loops: ')]
ARITH = ['naturals', 'numbers', 'proofs', 'proofs: narrow word'] + LOOPS
FOR = {p: ['naturals', 'proofs'] + [n + ' ' + o for n in ('loops', 'loops-binary', 'loops-ten')] + ['loops: ' + v for v in WRONG[o]]
       for p, o in zip(('C01', 'C02', 'C03', 'C04'), '+-*/')}
FOR['C05'] = ['naturals', 'numbers', 'proofs', 'loops: compare on', 'loops: count zeros']
FOR.update({p: ARITH for p in ('C06', 'C07', 'C08', 'C11', 'C13', 'C16')})
FOR.update({'C09': ['numbers'], 'C10': ['numbers'], 'C14': ['numbers']})
FOR.update({'C12': ['digits'], 'C15': ['fourier'],
            'C17': ['threads', 'threads-carry', 'threads-trim', 'threads-scratch']})


def prove(work, name):
    module, change = PROOFS[name]
    with open(os.path.join(vlib.SPEC, module + '.tla')) as f: text = f.read()
    if change:
        if change[0] not in text: raise vlib.CheckError('nothing to change in %s' % module)
        text = text.replace(*change)
    d = tempfile.mkdtemp(prefix='prf', dir=work)
    with open(os.path.join(d, module + '.tla'), 'w') as f: f.write(text)
    t0 = time.time()
    p = vlib.sh(['tlapm', '--strict', '--threads', str(vlib.CORES), '--stretch', '1' if change else '5', module + '.tla'], cwd=d, timeout=1500)
    m = re.search(r'All (\d+) obligations proved', p.stdout)
    n = re.search(r'(\d+)/(\d+) obligations failed', p.stdout)
    if change and not n or not change and not (m and p.returncode == 0): raise vlib.CheckError('%s: not as expected\n%s' % (name, p.stdout[-3000:]))
    return {'model': name, 'module': module, 'constants': change and dict([change]) or {}, 'expected': 'an unproved step' if change else 'proved',
            'obligations': int(m.group(1)) if m else int(n.group(2)), 'unproved': 0 if m else int(n.group(1)), 'distinct_states': 0,
            'wall_s': round(time.time() - t0, 1)}


def run(work, name, timeout=3000):
    if name in PROOFS: return prove(work, name)
    module, subst, expect = MODELS[name]
    with open(os.path.join(vlib.SPEC, module + '.cfg')) as f: text = f.read()
    for k, v in subst.items():
        text, n = re.subn(r'(\b%s\s*=\s*)("[^"]*"|\{[^}]*\}|\S+)' % k, lambda m: m.group(1) + v, text)
        if n != 1: raise vlib.CheckError('no constant %s in %s.cfg' % (k, module))
    cfg = os.path.join(work, name.replace('/', 'div') + '.cfg')
    with open(cfg, 'w') as f: f.write(text)
    t0 = time.time()
    r = vlib.tlc(work, os.path.join(vlib.SPEC, module + '.tla'), cfg, workers=vlib.CORES, heap='8g', timeout=timeout)
    good = r.ok if expect is None else (not r.ok and re.search(expect, r.out) and 'Error: ' in r.out)
    if not good: raise vlib.CheckError('model %s: not as expected\n%s' % (name, r.out[-3000:]))
    return {'model': name, 'module': module, 'constants': subst, 'expected': 'holds' if expect is None else 'a counterexample',
            'distinct_states': r.distinct, 'generated': r.generated, 'wall_s': round(time.time() - t0, 1)}


def main():
    names = sys.argv[1:] or [m for m in MODELS if m[-2:-1] != ' ' or m[-1] not in '+-*/'] + list(PROOFS)
    work = tempfile.mkdtemp(prefix='bnm-')
    try:
        for n in names:
            x = run(work, n)
            print('%-26s %-16s %9d %-11s %6.1f s' % (n, x['expected'], x.get('obligations') or x['distinct_states'], 'obligations' if 'obligations' in x else 'states', x['wall_s']), flush=True)
    except vlib.CheckError as e:
        print('MODEL ERROR: %s' % e)
        sys.exit(2)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__': main()
