"""Scripts for the Fourier helpers (C15)."""
import itertools, random
from gen import Trace

CONT = {'b2': 1, 'b10': 9, 'b16': 15, 'lowp': 255, 'medp': 65535, 'highp': 1000000, 'uint': 3000, 'uchar': 255, 'double': 500}


def generate(seed, tier):
    r = random.Random('C15/%d/%s' % (seed, tier))
    th = tier == 'thorough'
    out = []

    def new(typ, tag):
        t = Trace('%s%d' % (tag, len(out)), typ, 1)
        out.append(t)
        return t

    def fits(a, b, m, typ): return (len(a) + len(b)) * m * m <= (1 << 42 if typ == 'f64' else 1 << 15)

    def convolve(t, cont, a, b):
        t.c('pack', cont, len(a), *(a + [len(b)] + b)).c('conv').c('coef')

    # helpers: every 8 and 16-bit argument, every boundary of the wider ones
    for w in (8, 16):
        N = 1 << w
        t = new('f64', 'pow')
        step = 256
        for lo in range(0, N, step): t.c('pow', w, *range(lo, lo + step))
    for w in ('32', '64', 'size', 'int', 'long'):
        bits = {'32': 32, '64': 64, 'size': 64, 'int': 31, 'long': 63}[w]
        ns = {0, 1, 2, 3}
        for i in range(bits):
            for d in (-2, -1, 0, 1, 2): ns.add((1 << i) + d)
            for _ in range(20 if th else 4): ns.add((1 << i) + r.randrange(1 << i))
        ns = sorted(n for n in ns if 0 <= n < 1 << bits and (w in ('32', '64', 'size') or n <= 1 << bits - 1))
        t = new('f64', 'pow')
        for i in range(0, len(ns), 64): t.c('pow', w, *ns[i:i + 64])

    for typ in ('f64', 'f32'):
        # tables of every pair of short lengths
        for cont in CONT:
            m = CONT[cont]
            t = new(typ, 'table')
            for la in range(0, 8):
                for lb in range(0, 8):
                    a, b = [r.choice([m, r.randint(0, m)]) for _ in range(la)], [r.choice([m, r.randint(0, m)]) for _ in range(lb)]
                    if not fits(a, b, m, typ): a, b = [x % 50 for x in a], [x % 50 for x in b]
                    convolve(t, cont, a, b)
        # round trips
        for lg in range(0, 11 if typ == 'f64' else 7):
            n = 1 << lg
            for rep in range((12 if th else 4) if n <= 256 else (4 if th else 1)):
                t = new(typ, 'trip')
                m = r.choice([1, 9, 20, 100] if n <= 64 else [1, 9, 255])
                k = r.random()
                if k < .3: s = [r.choice([0, m, -m]) for _ in range(2 * n)]
                elif k < .5: s = [0] * (2 * n); s[r.randrange(2 * n)] = m
                else: s = [r.randint(-m, m) for _ in range(2 * n)]
                t.c('put', n, *s).c('fft').c('back').c('fft').c('back').c('inv').c('fback')
        for n in (1, 2, 4, 8, 16, 32, 64):             # each unit impulse
            t = new(typ, 'unit')
            for i in range(n if n <= 16 or th else 8):
                j = i if n <= 16 or th else r.randrange(n)
                s = [0] * (2 * n); s[2 * j + r.randint(0, 1)] = r.choice([1, -3, 7])
                t.c('put', n, *s).c('fft').c('back').c('inv').c('fback')
        # convolutions
        for cont in CONT:
            m = CONT[cont]
            for rep in range(60 if th else 12):
                t = new(typ, 'conv')
                for _ in range(3):
                    la, lb = r.choice([1, 2, 3, 5, 8, 13, 16, 20, 31, 32, 33]), r.choice([1, 2, 4, 7, 16, 17, 32])
                    mm = m if r.random() < .7 else min(m, 9)
                    a = [r.choice([mm, 0, r.randint(0, mm)]) for _ in range(la)]
                    b = [r.choice([mm, 0, r.randint(0, mm)]) for _ in range(lb)]
                    if r.random() < .3: a, b = [mm] * la, [mm] * lb
                    if not fits(a, b, max(a + b + [1]), typ): a, b = [x % 20 for x in a][:12], [x % 20 for x in b][:12]
                    convolve(t, cont, a, b)
    for cont, na, nb, m in [('b2', 500, 500, 1), ('b10', 700, 300, 9), ('lowp', 511, 513, 255), ('lowp', 1000, 1000, 255),
                            ('medp', 400, 500, 65535), ('medp', 512, 511, 65535), ('b16', 2048, 2048, 15), ('uint', 3000, 1, 3000),
                            ('uint', 65543, 3, 3000), ('b10', 40000, 30000, 9), ('uint', 131075, 5, 2000), ('lowp', 262141, 3, 255)]:       # beyond 2^16
        for rep in range(4 if th else 1):
            new('f64', 'long').c('packr', cont, na, nb, r.randrange(10**9), m).c('conv').c('coef')
    # column sums of up to 2^45, and long tables of middling ones: the errors of the twiddle factors must not add up
    for cont, na, nb, m in [('medp', 8192, 8192, 65535), ('medp', 4096, 4000, 65535), ('uint', 65536, 65536, 3000), ('lowp', 131072, 131072, 255)] + \
                           ([('medp', 8191, 3000, 65535), ('uint', 32768, 32768, 8000)] if th else []):
        new('f64', 'long').c('packr', cont, na, nb, r.randrange(10**9), m, 'all').c('conv').c('coef')
        if th: new('f64', 'long').c('packr', cont, na, nb, r.randrange(10**9), m).c('conv').c('coef')
    return out
