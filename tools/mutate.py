#!/usr/bin/env python3
"""Mutation campaign (not used by any check): tools/mutate.py LOG SEED COUNT [file-substring]
Makes small changes to the library in scratch copies and runs the checks meant for the changed file on them."""
import os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    'include/bignum/impl/bn_addition_impl.h': ['C01', 'C13', 'C02', 'C07', 'C11'],
    'include/bignum/impl/bn_subtraction_impl.h': ['C02', 'C13', 'C01', 'C07', 'C11'],
    'include/bignum/impl/bn_multiplication_impl.h': ['C03', 'C13', 'C07', 'C11'],
    'include/bignum/impl/bn_division_impl.h': ['C04', 'C13', 'C07', 'C11', 'C08'],
    'include/bignum/impl/bn_compare_impl.h': ['C05', 'C13', 'C04'],
    'include/bignum/impl/bn_type_impl.h': ['C16', 'C09', 'C06', 'C08', 'C14', 'C10', 'C11', 'C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C17'],
    'include/bignum/bn_type.h': ['C09', 'C08', 'C14', 'C16'],
    'include/bignum/impl/bn_int_type_impl.h': ['C12', 'C10', 'C16'],
    'include/bignum/bn_int_type.h': ['C12', 'C10', 'C16'],
    'include/bignum/impl/bn_limits_impl.h': ['C16', 'C01', 'C03', 'C04', 'C12', 'C13'],
    'include/bignum/impl/fourier_impl.h': ['C15', 'C03', 'C13'],
    'include/bignum/fourier.h': ['C15', 'C03'],
    'src/bn_except.cpp': ['C14'],
    'include/bignum/bn_except.h': ['C14', 'C11'],
    'include/bignum/bn_setup.h': ['C15', 'C16', 'C13'],
    'src/bn_type.cpp': ['C16', 'C10'], 'src/bn_int_type.cpp': ['C12'], 'src/bn_setup.cpp': ['C15'], 'src/bignum.cpp': ['C16'],
}
SWAPS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<\w>-])<(?![<=\w])', '<='), (r'(?<![->\w])>(?![>=])(?= )', '>='), (r'==', '!='), (r'!=', '=='),
         (r'&&', '||'), (r'\|\|', '&&'), (r'(?<!\+)\+(?![+=])', '-'), (r'(?<!-)-(?![->=])', '+'), (r'\+\+', '--'), (r'\+=', '-='), (r'-=', '+='),
         (r'\*=', '+='), (r'(?<=\w) \* (?=\w)', ' + '), (r' / ', ' * '), (r' % ', ' / '), (r'<<', '>>'), (r'>>', '<<'), (r'(?<= )& (?=\w)', '| '), (r'(?<= )\| (?=\w)', '& '), (r'\^', '&'),
         (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])2(?![\w.])', '3'),
         (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'BN_POS\b', 'BN_NEG'), (r'BN_NEG\b', 'BN_POS'), (r'BN_POS_INF', 'BN_NEG_INF'), (r'BN_NEG_INF', 'BN_POS_INF'), (r'BN_NAN', 'BN_POS_INF'),
         (r'\bbegin\(\)', 'end()'), (r'\.back\(\)', '.front()'), (r'push_back', 'push_front'), (r'!(?=[\w(])', ''), (r'std::move\((\w+)\)', r'\1'), (r'bn_max_limit', 'bn_min_limit'), (r'\bnum1\b', 'num2'), (r'\bnum2\b', 'num1'), (r'\bcontinue\b', 'break'), (r'\bbreak;', ';')]


def mutants(repo):
    out = []
    for f in FILES:
        p = os.path.join(repo, f)
        if not os.path.exists(p): continue
        lines = open(p).read().split('\n')
        comment = False
        for i, l in enumerate(lines):
            s = l.strip()
            if comment:
                comment = '*/' not in s; continue
            if s.startswith('/*'):
                comment = '*/' not in s; continue
            if not s or s.startswith(('//', '#', '*', 'template', 'typedef', 'using', 'public', 'private')) or 'static_assert' in s: continue
            code = l.split('//')[0]
            for pat, rep in SWAPS:
                for m in re.finditer(pat, code):
                    if code[:m.start()].count('"') % 2: continue
                    out.append((f, i, l, code[:m.start()] + m.expand(rep) + code[m.end():]))
            if s.endswith(';') and not s.startswith(('return', 'const', 'static', 'typename', 'bn_', 'auto', 'container_t', '}', 'friend', 'case')) and '(' in s or re.match(r'\s*[\w.\[\]>*-]+ [-+*/]?= .*;$', l):
                out.append((f, i, l, ';'))
            m = re.match(r'(\s*)(else )?if \((.*)\)( \{)?$', l)
            if m:
                for v in ('true', 'false'): out.append((f, i, l, '%s%sif (%s)%s' % (m.group(1), m.group(2) or '', v, m.group(4) or '')))
    return out


def main():
    log, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    sub = sys.argv[4] if len(sys.argv) > 4 else ''
    work = tempfile.mkdtemp(prefix='mut-')
    base = os.path.join(work, 'base')
    subprocess.check_call(['cp', '-a', '/repo', base]); shutil.rmtree(os.path.join(base, '_build'), ignore_errors=True)
    done = set()
    if os.path.exists(log):
        for l in open(log):
            if '|' in l: done.add(tuple(l.rstrip('\n').split(' | ')[1:4]))
    ms = [m for m in mutants(base) if sub in m[0]]
    r = random.Random(seed); r.shuffle(ms)
    per = {}
    n = 0
    for f, i, old, new in ms:
        if n >= count: break
        key = (f + ':%d' % (i + 1), old.strip(), new.strip())
        if key in done or per.get(f, 0) > count / 3 and not sub: continue
        d = os.path.join(work, 'm')
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(base, d, symlinks=True)
        p = os.path.join(d, f); lines = open(p).read().split('\n'); lines[i] = new
        open(p, 'w').write('\n'.join(lines))
        c = subprocess.run(['g++', '-std=gnu++11', '-w', '-fsyntax-only', '-I', d + '/include', '-x', 'c++', V + '/tools/mutate_probe.cpp'], capture_output=True)
        if c.returncode: continue
        n += 1; per[f] = per.get(f, 0) + 1
        res = []
        for c in FILES[f]:
            t0 = time.time()
            try:
                q = subprocess.run([V + '/bin/check', c, 'quick'], env=dict(os.environ, BN_REPO=d, VERIF_SEED='1', BN_EVIDENCE=work), capture_output=True, text=True, timeout=900)
                rc = q.returncode
            except subprocess.TimeoutExpired: rc = 'timeout'
            res.append('%s=%s' % (c, rc))
            if rc == 2: open(log + '.err', 'a').write('%s %s\n%s\n' % (key, c, q.stdout[-600:]))
            if rc == 1: break
        with open(log, 'a') as o:
            o.write('%s | %s | %s | %s | %s\n' % ('caught' if '=1' in res[-1] else 'SURVIVED', key[0], key[1], key[2], ' '.join(res)))
    shutil.rmtree(work)


main()
