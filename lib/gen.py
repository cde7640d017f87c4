"""Command scripts for the drivers.  Nothing here knows what results are right:
the specification does.  Everything random comes from one seed."""
import random, itertools
from types_ import TYPES, ALL, PREDEF

SPECIALS = [('nan', []), ('+inf', []), ('-inf', [])]


class Trace:
    def __init__(self, ident, typ, nregs):
        self.id, self.type, self.n, self.cmds = ident, typ, nregs, []
        self.cost = 0

    def c(self, *words):
        self.cmds.append(' '.join(str(w) for w in words))
        return self

    def set(self, reg, num):
        d, ds = num
        return self.c('set', reg, d, len(ds), *ds)

    def text(self):
        return 'T %s %s %d\n' % (self.id, self.type, self.n) + '\n'.join(self.cmds) + '\n'


class Gen:
    def __init__(self, prop, seed, tier):
        self.r = random.Random('%s/%d/%s' % (prop, seed, tier))
        self.thorough = tier == 'thorough'
        self.traces = []
        self.k = 0

    def new(self, typ, nregs, tag='t'):
        self.k += 1
        t = Trace('%s%d' % (tag, self.k), typ, nregs)
        self.traces.append(t)
        return t

    def times(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick

    # ---- magnitudes --------------------------------------------------------
    def digit(self, B):
        r, M = self.r, B - 1
        x = r.random()
        if x < .18: return 0
        if x < .30: return min(1, M)
        if x < .48: return M
        if x < .56: return max(M - 1, 0)
        if x < .62: return B // 2
        if x < .66: return (B - 1) // 2
        if x < .74: return min(M, (1 << r.randrange(B.bit_length())) - r.randrange(2))
        return r.randrange(B)

    def mag(self, B, n):
        """n digits, the top one not zero (n > 0)"""
        r, M = self.r, B - 1
        if n == 0: return []
        x = r.random()
        if x < .25: ds = [self.digit(B) for _ in range(n)]
        elif x < .45: ds = [r.randrange(B) for _ in range(n)]
        elif x < .60: ds = [M] * n
        elif x < .68: ds = [0] * (n - 1) + [1]
        elif x < .74: ds = [0] * (n - 1) + [self.digit(B)]
        elif x < .84:                       # runs
            ds = []
            while len(ds) < n: ds += [r.choice([0, M, 1, B // 2])] * r.randint(1, max(1, n // 2))
            ds = ds[:n]
        elif x < .94:                       # maxima with one hole
            ds = [M] * n; ds[r.randrange(n)] = self.digit(B)
        else: ds = [1] + [0] * (n - 1)
        if ds[-1] == 0: ds[-1] = r.choice([1, M, r.randrange(1, B)])
        return ds

    def length(self, big=8):
        r = self.r
        x = r.random()
        if x < .06: return 0
        if x < .60: return r.randint(1, 3)
        if x < .92: return r.randint(2, big)
        return r.randint(1, 3 * big)

    def sign(self): return self.r.choice(['pos', 'pos', 'neg'])

    def pad(self, ds, p=.08):
        return ds + [0] * self.r.randint(1, 3) if self.r.random() < p else ds

    def number(self, B, big=8, p=.08):
        return (self.sign(), self.pad(self.mag(B, self.length(big)), p))

    def zero(self):
        return (self.r.choice(['pos', 'neg']), [0] * self.r.choice([0, 1, 1, 2, 3]))

    @staticmethod
    def of_int(B, x):
        ds = []
        while x: ds.append(x % B); x //= B
        return ds

    @staticmethod
    def to_int(B, ds):
        x = 0
        for d in reversed(ds): x = x * B + d
        return x

    def pair(self, B, big=8):
        """two magnitudes, often related"""
        r, M = self.r, B - 1
        x = r.random()
        n = max(1, self.length(big))
        a = self.mag(B, n)
        if x < .30: return a, self.mag(B, self.length(big))
        if x < .38:                         # a carry / borrow that runs a long way
            a = [M] * n
            b = [0] * r.randrange(n) + [r.choice([1, M])]
            return (a, b) if r.random() < .5 else (b, a)
        if x < .48:                         # near neighbours
            b = self.of_int(B, max(0, self.to_int(B, a) + r.choice([-1, 1, 0, -B, B, M])))
            return a, b
        if x < .56: return a, list(a)
        if x < .64:                         # equal but for one digit
            b = list(a); i = r.randrange(n); b[i] = self.digit(B)
            if b and b[-1] == 0: b[-1] = 1
            return a, b
        if x < .72:                         # complement: the sum is a power of the base
            b = self.of_int(B, B ** n - self.to_int(B, a))
            return a, b
        if x < .80:                         # power of the base minus something
            return [0] * n + [1], self.mag(B, r.randint(1, n))
        if x < .88:                         # very different lengths
            return self.mag(B, r.randint(1, 2)), self.mag(B, r.randint(8, 3 * big))
        if x < .94:                         # same top digits
            m = r.randint(1, n)
            b = self.mag(B, n)[:n - m] + a[n - m:]
            return a, b
        return a, []

    def signed_pair(self, B, big=8, p=.08):
        a, b = self.pair(B, big)
        if self.r.random() < .5: a, b = b, a
        return (self.sign(), self.pad(a, p)), (self.sign(), self.pad(b, p))

    # ---- value sets for exhaustive tables ------------------------------------
    @staticmethod
    def boundary(B, maxlen=2, signs=('pos', 'neg')):
        M = B - 1
        ds = sorted({0, 1, M - 1, M, B // 2}) if B > 3 else list(range(B))
        if maxlen >= 2 and B > 3: ds = sorted({0, 1, M, B // 2})
        seqs = []
        for n in range(maxlen + 1):
            seqs += [list(s) for s in itertools.product(ds, repeat=n)]
        return [(s, q) for q in seqs for s in signs]

    @staticmethod
    def full(B, maxlen, signs=('pos', 'neg')):
        seqs = []
        for n in range(maxlen + 1):
            seqs += [list(s) for s in itertools.product(range(B), repeat=n)]
        return [(s, q) for q in seqs for s in signs]

    def table(self, typ, values, per_left, chunks=4, tag='table', extra=2):
        """a pool holding all values; per_left(trace, i, n) issues the calls for left operand i"""
        n = len(values)
        order = list(range(1, n + 1))
        for c in range(chunks):
            t = self.new(typ, n + extra, tag)
            for i, v in enumerate(values): t.set(i + 1, v)
            for i in order[c::chunks]: per_left(t, i, n)

    # ---- histories ------------------------------------------------------------
    def history(self, typ, steps, nregs=5, cap=16, ops='+-*/', specials=.03, edits=.0,
                compare=.08, prints=.0, copies=.2, radix=.0, sets=.08):
        """a random walk over the public interface; len bounds keep numbers small"""
        r = self.r
        B = TYPES[typ][0]
        t = self.new(typ, nregs, 'hist')
        bound = [0] * (nregs + 1)

        def fresh(i):
            if r.random() < specials * 2: t.set(i, r.choice(SPECIALS)); bound[i] = 0
            else:
                v = self.zero() if r.random() < .06 else self.number(B, 6, .04)
                t.set(i, v); bound[i] = len(v[1])
        for i in range(1, nregs + 1): fresh(i)
        for _ in range(steps):
            a, b, c = (r.randint(1, nregs) for _ in range(3))
            x = r.random()
            if x < sets or bound[a] > cap: fresh(a)
            elif x < sets + copies:
                k = r.choice(['copy', 'copy', 'cctor', 'move', 'mctor'])
                if k in ('move', 'mctor'):
                    if a != b:
                        t.c(k, a, b); bound[a] = bound[b]
                else: t.c(k, a, b); bound[a] = bound[b]
            elif x < sets + copies + compare: t.c('cmp', a, b)
            elif x < sets + copies + compare + prints: t.c('print', a)
            elif x < sets + copies + compare + prints + edits: bound[a] = self.edit_cmd(t, a, B, bound[a])
            elif x < sets + copies + compare + prints + edits + radix and bound[a] <= 8:
                self.radix_cmd(t, typ, a, b, bound)
            else:
                op = r.choice(ops)
                if op == '*' and bound[a] + bound[b] > cap: op = '+' if '+' in ops else '/'
                if op in '+-': n = max(bound[a], bound[b]) + 1
                elif op == '*': n = bound[a] + bound[b]
                else: n = max(bound[a], 1)
                k = r.random()
                if k < .5: t.c('cmpd', op, a, b); bound[a] = n
                else:
                    t.c('bin' if k < .75 else 'sto', op, c, a, b); bound[c] = n
        return t

    def radix_cmd(self, t, typ, a, b, bound):
        o = self.r.choice(ALL)
        k = self.r.random()
        if k < .4: t.c('apart', a, o)
        elif k < .7: t.c('rebuild', a, o)
        elif a != b:
            t.c('round', a, b, o); bound[b] = bound[a] + 2

    def edit_cmd(self, t, a, B, bound):
        r = self.r
        k = r.choice(['resize', 'resize0', 'pushf', 'popf', 'pushb', 'popb', 'pushat', 'popat', 'clear',
                      'setk', 'setk', 'query', 'ctor', 'dctor', 'idx', 'idxc', 'idxw'])
        d = self.digit(B)
        if k == 'resize':
            n = r.choice([0, 1, 2, 3, 5, 8, bound, bound + 1, bound + 4]); t.c('resize', a, n, d); return n
        if k == 'resize0':
            n = r.choice([0, 1, 3, bound, bound + 2]); t.c('resize', a, n); return n
        if k in ('pushf', 'pushb'): t.c(k, a, d); return bound + 1
        if k in ('popf', 'popb'): t.c(k, a); return bound
        if k == 'pushat': t.c(k, a, r.choice([0, r.randrange(20), bound]), d); return bound + 1
        if k == 'popat': t.c(k, a, r.choice([0, r.randrange(20), max(bound - 1, 0)])); return bound
        if k == 'clear': t.c('clear', a); return 0
        if k == 'dctor': t.c('dctor', a); return 0
        if k == 'setk': t.c('setk', a, r.choice(['pos', 'neg', 'pos', 'neg', 'nan', '+inf', '-inf'])); return bound
        if k == 'query': t.c('query', a); return bound
        if k == 'ctor':
            n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 12, 20])
            z = r.choice([0, 0, 0, 1, 2, n])
            ds = [0] * min(z, n) + [self.digit(B) for _ in range(n - min(z, n))]
            t.c('ctor', a, r.choice(['pos', 'neg', 'pos']), n, *ds); return n
        if k == 'idxw': t.c('idxw', a, '-%d' % r.randrange(30), d); return bound
        t.c(k, a, '-%d' % r.randrange(30)); return bound


# =============================== per property ==================================
def arith_tables(g, ops, types=ALL, forms=('bin',)):
    def calls(t, i, n):
        for j in range(1, n + 1):
            for o in ops:
                for f in forms:
                    if f == 'bin': t.c('bin', o, n + 1, i, j)
                    else: t.c('copy', n + 1, i).c('cmpd', o, n + 1, j)
        if 'self' in forms or True:
            for o in ops: t.c('copy', n + 1, i).c('cmpd', o, n + 1, n + 1)
    for typ in types:
        B = TYPES[typ][0]
        vals = g.boundary(B, 2) if B > 3 else g.full(B, 3 if B == 2 else 2)
        if not g.thorough and len(vals) > 44: vals = vals[:44]
        g.table(typ, vals, calls)
    if g.thorough:
        g.table('b2', g.full(2, 5), calls, chunks=16)
        g.table('b3', g.full(3, 3), calls, chunks=16)
        g.table('b8', g.full(8, 2), calls, chunks=24)
        g.table('b10', g.full(10, 2), calls, chunks=32)


def pair_calls(g, t, op, a, b):
    """both operand orders, all three forms, aliases"""
    t.set(1, a).set(2, b)
    r = g.r
    t.c('bin', op, 3, 1, 2).c('bin', op, 4, 2, 1)
    k = r.random()
    if k < .35: t.c('cmpd', op, 1, 2)
    elif k < .5: t.c('sto', op, 1, 1, 2)
    elif k < .6: t.c('sto', op, 2, 1, 2)
    elif k < .75: t.c('cmpd', op, 2, 1).c('cmpd', op, 2, 2)
    elif k < .85: t.c('cmpd', op, 1, 1)
    elif k < .95: t.c('bin', op, 3, 1, 1)
    else: t.c('sto', op, 1, 1, 1)


EDGES = [n + d for n in (16, 32, 64, 128, 256) for d in (-1, 0, 1)]


def edge_lengths(g, typ, op, top):
    """operands whose lengths lie around powers of two"""
    B = TYPES[typ][0]
    for n in EDGES:
        if n > top: break
        t = g.new(typ, 3, 'edge')
        for m in (n, n - 1, n + 1, 1, 2):
            a = [B - 1] * n if g.r.random() < .5 else g.mag(B, n)
            t.set(1, (g.sign(), a)).set(2, (g.sign(), [B - 1] * m if g.r.random() < .4 else g.mag(B, m)))
            t.c('bin', op, 3, 1, 2)
            if g.r.random() < .3: t.c('cmpd', op, 2, 1)


def gen_addsub(g, op):
    arith_tables(g, op)
    for typ in ALL: edge_lengths(g, typ, op, 300)
    for typ in ALL:
        B = TYPES[typ][0]
        for _ in range(g.times(110, 1500)):
            t = g.new(typ, 4, 'pair')
            pair_calls(g, t, op, *g.signed_pair(B))
        for _ in range(g.times(8, 80)):                 # several steps on growing numbers
            t = g.new(typ, 3, 'walk')
            for i in (1, 2, 3): t.set(i, g.number(B))
            for _ in range(14):
                t.c('cmpd', op, g.r.randint(1, 3), g.r.randint(1, 3))
        for _ in range(g.times(6, 60)):
            t = g.new(typ, 4, 'long')
            n = g.r.randint(60, 300)
            a, b = g.mag(B, n), g.mag(B, g.r.choice([n, n, n - 1, g.r.randint(1, n)]))
            if g.r.random() < .4: b = g.of_int(B, abs(g.to_int(B, a) + g.r.choice([0, 1, -1, B ** (n // 2)])))
            pair_calls(g, t, op, (g.sign(), a), (g.sign(), b))
        for n in ([1024, 4096] if not g.thorough else [1000, 1024, 4095, 4096, 4097, 20000]):
            t = g.new(typ, 4, 'huge')
            t.c('setr', 1, g.sign(), g.r.randrange(10**9), n, 'max')
            t.c('setr', 2, g.sign(), g.r.randrange(10**9), n - g.r.randint(0, 3), g.r.choice(['near', 'rnd', 'mix']))
            t.c('bin', op, 3, 1, 2).c('bin', op, 4, 2, 1).c('cmpd', op, 1, 2)


def gen_C01(g): gen_addsub(g, '+')
def gen_C02(g): gen_addsub(g, '-')


def gen_C03(g):
    arith_tables(g, '*')
    for typ in ALL:
        edge_lengths(g, typ, '*', 300 // TYPES[typ][2])
        B = TYPES[typ][0]
        M = B - 1
        # every pair of short lengths, with the digits that carry most
        top = 10 if not g.thorough else 24
        for la in range(1, top + 1):
            t = g.new(typ, 3, 'sweep')
            t.set(1, ('pos', [M] * la))
            for lb in range(1, top + 1):
                t.set(2, (g.sign(), [M] * lb if g.r.random() < .6 else g.mag(B, lb)))
                t.c('bin', '*', 3, 1, 2)
        for _ in range(g.times(60, 900)):
            t = g.new(typ, 4, 'pair')
            pair_calls(g, t, '*', *g.signed_pair(B))
        for _ in range(g.times(5, 60)):
            t = g.new(typ, 3, 'long')
            n = g.r.randint(30, 200 // TYPES[typ][2])
            a, b = g.mag(B, n), g.mag(B, g.r.choice([n, n - 1, g.r.randint(1, n)]))
            t.set(1, (g.sign(), a)).set(2, (g.sign(), g.pad(b)))
            t.c('bin', '*', 3, 1, 2).c('cmpd', '*', 1, 1)
        sizes = [(511, 513), (1024, 1024), (2000, 97), (3000, 1), (2500, 2400)]
        if g.thorough: sizes += [(g.r.randint(1, 4000), g.r.randint(1, 4000)) for _ in range(12)] + [(8192, 8192), (16000, 300)]
        for i, (la, lb) in enumerate(sizes):
            t = g.new(typ, 3, 'huge')
            t.c('setr', 1, g.sign(), g.r.randrange(10**9), la, ['max', 'near', 'rnd', 'mix'][i % 4])
            t.c('setr', 2, g.sign(), g.r.randrange(10**9), lb, ['max', 'near', 'mix', 'rnd'][i % 4])
            t.c('bin', '*', 3, 1, 2)
        for _ in range(g.times(3, 20)):                 # powers
            t = g.new(typ, 3, 'power')
            t.set(1, (g.sign(), g.mag(B, g.r.randint(1, 2)))).set(2, ('pos', [1]))
            for _ in range(12): t.c('cmpd', '*', 2, 1)
            t.set(3, (g.sign(), g.mag(B, 2)))
            for _ in range(4): t.c('cmpd', '*', 3, 3)


def div_operands(g, B, big=6):
    r, M = g.r, B - 1
    x = r.random()
    if x < .45:                                          # a = q*d + rem
        d = g.to_int(B, g.mag(B, r.randint(1, big)))
        q = g.to_int(B, g.mag(B, r.randint(0, big)))
        rem = r.choice([0, 0, 1, d - 1, d - 1, r.randrange(d), d // 2]) % d
        return g.of_int(B, q * d + rem), g.of_int(B, d)
    if x < .60: return g.pair(B, big)
    if x < .68:
        d = g.mag(B, r.randint(1, big)); return list(d), d
    if x < .76:
        d = g.mag(B, r.randint(1, big)); return g.of_int(B, max(0, g.to_int(B, d) * r.choice([1, 2, M, B]) - 1)), d
    if x < .84: return g.mag(B, r.randint(1, 2 * big)), [r.choice([1, 2 % B or 1, M, B // 2 or 1])]
    if x < .92: return g.mag(B, r.randint(1, 2 * big)), [0] * r.randint(0, big - 1) + [1]
    return g.mag(B, r.randint(1, 2)), g.mag(B, r.randint(2, 2 * big))


def gen_C04(g):
    arith_tables(g, '/')
    for typ in ALL:
        B = TYPES[typ][0]
        for _ in range(g.times(130, 1800)):
            t = g.new(typ, 4, 'pair')
            a, b = div_operands(g, B)
            pair_calls(g, t, '/', (g.sign(), g.pad(a)), (g.sign(), g.pad(b)))
        for _ in range(g.times(12, 80)):
            t = g.new(typ, 3, 'zero')
            for i in range(3):
                t.set(1, g.number(B) if i else g.zero()).set(2, g.zero())
                t.c('bin', '/', 3, 1, 2).c('cmpd', '/', 1, 2)
            t.set(1, g.zero()).c('cmpd', '/', 1, 1)
        for _ in range(g.times(3, 30)):
            bits = B.bit_length() - 1
            n = g.r.randint(10, max(12, 260 // bits))
            a, b = div_operands(g, B, n // 2)
            t = g.new(typ, 3, 'long')
            t.set(1, (g.sign(), a)).set(2, (g.sign(), b)).c('bin', '/', 3, 1, 2).c('cmpd', '/', 1, 2)
        for _ in range(g.times(5, 60)):                 # long operands, short quotients
            n = g.r.choice([33, 65, 100, 129, 257, g.r.randint(30, 300)])
            d = g.to_int(B, g.mag(B, n))
            q = g.r.choice([0, 1, 2, 3, g.r.randrange(1, 64), B - 1])
            a = q * d + g.r.choice([0, 1, d - 1, d // 2, g.r.randrange(d)])
            t = g.new(typ, 3, 'close')
            t.set(1, (g.sign(), g.of_int(B, a))).set(2, (g.sign(), g.of_int(B, d))).c('bin', '/', 3, 1, 2).c('cmpd', '/', 2, 1)
        for bits_ in ([700, 500] if not g.thorough else [700, 1000, 1500, 2200]):   # long quotients
            n = max(2, int(bits_ / (B.bit_length() - (B & (B - 1) == 0))))
            m = g.r.randint(1, 4)
            t = g.new(typ, 3, 'longq')
            t.set(1, (g.sign(), [B - 1] * n if g.r.random() < .4 else g.mag(B, n))).set(2, (g.sign(), g.mag(B, m))).c('bin', '/', 3, 1, 2)
        for _ in range(g.times(4, 30)):                 # repeated division
            t = g.new(typ, 2, 'down')
            t.set(1, (g.sign(), g.mag(B, 6))).set(2, (g.sign(), g.mag(B, 1)))
            for _ in range(10): t.c('cmpd', '/', 1, 2)


def gen_C05(g):
    def calls(t, i, n):
        for j in range(1, n + 1): t.c('cmp', i, j)
    for typ in ALL:
        B = TYPES[typ][0]
        vals = (g.boundary(B, 2) if B > 3 else g.full(B, 3 if B == 2 else 2)) + SPECIALS
        vals += [('pos', [0] * 3), ('neg', [1, 0]), ('pos', [1, 0]), ('neg', [1, 0, 0])]
        g.table(typ, vals, calls)
        for _ in range(g.times(60, 600)):
            t = g.new(typ, 2, 'pair')
            for _ in range(3):
                a, b = g.signed_pair(B, 10, .15)
                if g.r.random() < .6: b = (a[0], b[1])
                t.set(1, a).set(2, b).c('cmp', 1, 2).c('cmp', 2, 1)
            t.c('cmp', 1, 1)
        for n in ([2, 3, 5, 9, 17] if not g.thorough else range(2, 40)):   # one digit differs, each position in turn
            t = g.new(typ, 2, 'digit')
            a = g.mag(B, n); s = g.sign()
            t.set(1, (s, a)).set(2, (s, a)).c('cmp', 1, 2)
            for i in range(n):
                b = list(a); b[i] = g.r.choice([d for d in {0, 1, B - 1, a[i] ^ 1, (a[i] + 1) % B} if d != a[i] and d < B])
                for j in range(i):                      # lower digits pull the other way
                    b[j] = (B - 1 if b[i] < a[i] else 0)
                t.set(2, (s, b)).c('cmp', 1, 2).c('cmp', 2, 1)
        t = g.new(typ, 2, 'long')
        n = 500
        t.c('setr', 1, 'neg', 7, n, 'rnd').c('copy', 2, 1).c('cmp', 1, 2).c('idxw', 2, 0, 0).c('idxw', 1, 0, 1).c('cmp', 1, 2).c('cmp', 2, 1)
        for n in (33, 65, 129, 257, 1025):              # long ones: a digit differs somewhere, or a length
            t = g.new(typ, 2, 'long')
            for kind in ('pos', 'neg'):
                t.c('setr', 1, kind, n, n, 'mix').c('copy', 2, 1).c('cmp', 1, 2)
                for p in sorted({0, 1, n // 2, n - 2, n - 1, 31, 32, g.r.randrange(n)}):
                    t.c('copy', 2, 1).c('idxw', 2, p, 0).c('cmp', 1, 2).c('cmp', 2, 1)
                for _ in range(3):                          # two digits change places
                    p, q = g.r.sample(range(n), 2)
                    t.c('copy', 2, 1).c('idxw', 1, p, 1).c('idxw', 1, q, 0).c('idxw', 2, p, 0).c('idxw', 2, q, 1).c('cmp', 1, 2).c('cmp', 2, 1)
                t.c('copy', 2, 1).c('popb', 2).c('cmp', 1, 2).c('cmp', 2, 1).c('pushb', 2, 0).c('cmp', 2, 1).c('copy', 2, 1).c('popf', 2).c('cmp', 1, 2)
                t.c('copy', 2, 1).c('pushb', 2, 0).c('cmp', 1, 2).c('cmp', 2, 1).c('pushb', 2, 1).c('cmp', 1, 2).c('cmp', 2, 1)
        t = g.history(typ, g.times(30, 300), specials=.2, compare=.5, copies=.05)


def gen_C06(g):
    for typ in ALL:
        B = TYPES[typ][0]
        vals = SPECIALS + [('pos', []), ('neg', [0]), ('pos', [0, 0]), ('pos', [1]), ('neg', [1]),
                           ('pos', [B - 1, B - 1]), ('neg', [0, 1]), ('neg', [1, 0])]

        def calls(t, i, n):
            for j in range(1, n + 1):
                if i > 3 and j > 3: continue
                for o in '+-*/':
                    t.c('bin', o, n + 1, i, j).c('copy', n + 1, i).c('cmpd', o, n + 1, j)
                    t.c('cctor', n + 2, j).c('sto', o, n + 2, i, n + 2)
            if i <= 3:
                for o in '+-*/': t.c('copy', n + 1, i).c('cmpd', o, n + 1, n + 1)
        g.table(typ, vals, calls, chunks=2)
        for _ in range(g.times(20, 200)):
            g.history(typ, 30, nregs=4, specials=.25, compare=0, sets=.12, copies=.08)
        t = g.new(typ, 4, 'long')                       # long finite operands
        for i, sp in enumerate(SPECIALS):
            t.c('setr', 1, g.sign(), i, g.r.choice([33, 65, 129, 300]), 'mix').set(2, sp)
            for o in '+-*/':
                t.c('bin', o, 3, 1, 2).c('bin', o, 3, 2, 1).c('cctor', 4, 1).c('cmpd', o, 4, 2).c('cctor', 4, 2).c('cmpd', o, 4, 1)
        for _ in range(g.times(6, 40)):                 # a NaN stays one
            t = g.new(typ, 3, 'nan')
            t.set(1, ('nan', [])).set(2, g.number(B)).set(3, g.r.choice(SPECIALS + [g.zero()]))
            for _ in range(25):
                o, b = g.r.choice('+-*/'), g.r.choice([1, 2, 3, 2])
                if g.r.random() < .6: t.c('cmpd', o, 1, b)
                else: t.c('sto', o, 1, *g.r.choice([(1, b), (b, 1)]))
        for _ in range(g.times(6, 40)):                 # infinities from division by zero, then on
            t = g.new(typ, 4, 'inf')
            t.set(1, g.number(B)).set(2, g.zero()).set(3, g.number(B)).set(4, g.number(B))
            t.c('cmpd', '/', 1, 2).c('cmpd', '/', 3, 2)
            for _ in range(12): t.c('bin', g.r.choice('+-*/'), 2, g.r.choice([1, 3]), g.r.randint(1, 4))


def gen_C07(g):
    arith_tables(g, '+-*/')
    for typ in ALL:
        B = TYPES[typ][0]
        for _ in range(g.times(60, 700)):
            t = g.new(typ, 4, 'pair')
            for o in g.r.sample('+-*/', 2):
                a, b = (div_operands(g, B) if o == '/' else g.pair(B))
                p = g.r.choice([0, 0, .2])
                pair_calls(g, t, o, (g.sign(), g.pad(a, p)), (g.sign(), g.pad(b, p)))
        for _ in range(g.times(16, 150)):
            g.history(typ, 30, specials=.08, compare=0, copies=.05)
        for _ in range(g.times(6, 60)):                 # cancellation, deep in long numbers
            t = g.new(typ, 4, 'cancel')
            n = g.r.choice([9, 17, 33, 65, 130])
            a = g.to_int(B, g.mag(B, n))
            b = a + g.r.choice([0, 1, -1, B, B ** (n // 2), -B ** (n - 1)])
            s = g.sign()
            t.set(1, (s, g.of_int(B, a))).set(2, (g.r.choice(['pos', 'neg']), g.of_int(B, abs(b))))
            t.c('bin', '-', 3, 1, 2).c('bin', '+', 4, 1, 2).c('bin', '-', 4, 2, 1).c('bin', '/', 4, 1, 2).c('cmpd', '-', 1, 1).c('cmpd', '/', 2, 2)
        for la, lb in [(300, 300), (130, 900), (1500, 1500)]:
            t = g.new(typ, 3, 'huge')
            t.c('setr', 1, g.sign(), g.r.randrange(10**9), la, 'max').c('setr', 2, g.sign(), g.r.randrange(10**9), lb, g.r.choice(['max', 'mix']))
            for o in '+-*': t.c('bin', o, 3, 1, 2)


def gen_C08(g):
    for typ in ALL:
        B = TYPES[typ][0]
        for _ in range(g.times(40, 500)):
            g.history(typ, 28, nregs=g.r.choice([2, 3, 4, 6]), specials=.06, copies=.45, compare=.03, prints=.02, edits=.03)
        for _ in range(g.times(40, 400)):               # the three forms agree, aliased or not
            t = g.new(typ, 6, 'forms')
            o = g.r.choice('+-*/')
            a, b = div_operands(g, B) if o == '/' else g.pair(B)
            p = .08
            t.set(1, (g.sign(), g.pad(a, p))).set(2, (g.sign(), g.pad(b, p)))
            if g.r.random() < .1: t.set(g.r.choice([1, 2]), g.r.choice(SPECIALS + [g.zero()]))
            t.c('cctor', 3, 1).c('cmpd', o, 3, 2).c('bin', o, 4, 1, 2).c('same', 3, 4)
            t.c('sto', o, 4, 1, 2).c('same', 3, 4)
            t.c('copy', 5, 1).c('sto', o, 5, 5, 2).c('same', 3, 5)
            t.c('copy', 5, 2).c('sto', o, 5, 1, 5).c('same', 3, 5)
            t.c('cctor', 6, 1).c('copy', 5, 1).c('cmpd', o, 5, 6).c('cmpd', o, 1, 1).c('same', 1, 5)
            t.c('bin', o, 4, 6, 6).c('same', 4, 5).c('copy', 4, 4).c('cmpd', o, 2, 2)
            # identity survives being moved around
            t.c('mctor', 3, 4).c('move', 4, 3).c('same', 4, 5).c('copy', 3, 5).c('same', 3, 4)
        for n in (33, 65, 129, 300):                    # long ones
            t = g.new(typ, 4, 'long')
            t.c('setr', 1, g.sign(), n, n, 'max').c('setr', 2, g.sign(), n + 1, g.r.choice([n, n - 1, 3]), 'mix').c('cctor', 4, 1)
            for o in '+-*' + ('/' if n == 33 and TYPES[typ][0] < 20 else ''):
                t.c('copy', 1, 4).c('cctor', 3, 1).c('cmpd', o, 3, 2).c('sto', o, 1, 1, 2).c('same', 1, 3).c('copy', 1, 4).c('cctor', 3, 1).c('bin', o, 3, 1, 3).c('cmpd', o, 1, 1).c('same', 1, 3)
            t.c('mctor', 3, 1).c('move', 1, 3).c('copy', 3, 1).c('same', 1, 3)
        for _ in range(g.times(12, 100)):               # moved-from objects are reusable
            t = g.new(typ, 4, 'moved')
            for i in (1, 2, 3): t.set(i, g.number(B) if g.r.random() < .8 else g.r.choice(SPECIALS))
            for _ in range(6):
                a, b, c = g.r.sample([1, 2, 3, 4], 3)
                t.c(g.r.choice(['move', 'mctor']), a, b)
                k = g.r.random()
                if k < .4: t.c('copy', b, c)
                elif k < .7: t.c('bin', g.r.choice('+-*/'), b, a, c)
                elif k < .85: t.c('ctor', b, 'neg', 2, 1, 1)
                else: t.c('clear', b).c('pushb', b, 1)
        t = g.new(typ, 3, 'big')
        t.c('setr', 1, 'neg', 3, 600, 'rnd').c('copy', 2, 1).c('move', 3, 1).c('copy', 1, 2).c('cmpd', '+', 1, 1).c('cctor', 2, 1).c('mctor', 3, 2)
        t.c('move', 1, 3).c('cmpd', '*', 1, 1).c('cmpd', '-', 1, 1)


def gen_C09(g):
    for typ in ALL:
        B = TYPES[typ][0]
        for _ in range(g.times(60, 600)):
            t = g.new(typ, 2, 'edit')
            bound = [0, 0, 0]
            for _ in range(30):
                a = g.r.choice([1, 1, 2])
                if bound[a] > 40: t.c('clear', a); bound[a] = 0
                bound[a] = g.edit_cmd(t, a, B, bound[a])
            t.c('query', 1).c('query', 2)
        # all lists of up to three boundary digits
        ds = sorted({0, 1, B - 1, B // 2})
        for s in ('pos', 'neg'):
            t = g.new(typ, 1, 'lists')
            for n in range(4):
                for q in itertools.product(ds[:3], repeat=n): t.c('ctor', 1, s, n, *q).c('query', 1)
        for kind in ('pos', 'neg', 'nan', '+inf', '-inf'):   # every kind to every kind
            t = g.new(typ, 1, 'kinds')
            for k2 in ('pos', 'neg', 'nan', '+inf', '-inf'):
                for n in (0, 1, 3):
                    t.set(1, (kind, g.mag(B, n) if kind in ('pos', 'neg') else []))
                    t.c('query', 1).c('setk', 1, k2).c('query', 1).c('pushb', 1, 1).c('setk', 1, kind).c('query', 1).c('clear', 1).c('query', 1)
        for n in (1, 2, 5):                                  # each operation at each position
            t = g.new(typ, 1, 'pos')
            for p in range(n + 1):
                base = [g.r.randrange(B) for _ in range(n)]
                for k in ('pushat', 'popat', 'idx', 'idxw', 'idxc', 'resize', 'pushf', 'popf', 'pushb', 'popb'):
                    t.set(1, (g.sign(), base))
                    if k == 'pushat': t.c(k, 1, p, g.digit(B))
                    elif k == 'popat': t.c(k, 1, min(p, n - 1))
                    elif k in ('idx', 'idxc'): t.c(k, 1, min(p, n - 1))
                    elif k == 'idxw': t.c(k, 1, min(p, n - 1), g.digit(B))
                    elif k == 'resize': t.c(k, 1, p).c(k, 1, n + p, g.digit(B))
                    elif k in ('pushf', 'pushb'): t.c(k, 1, g.digit(B))
                    else: t.c(k, 1)
        t = g.new(typ, 1, 'grow')
        for i in range(g.times(80, 400)):
            t.c(g.r.choice(['pushf', 'pushb']), 1, g.digit(B))
            if i % 8 == 0: t.c('pushat', 1, g.r.randrange(100), g.digit(B))
        for i in range(60): t.c(g.r.choice(['popf', 'popb']), 1)
        for n in (33, 64, 65, 129, 257, 1025):               # long sequences
            t = g.new(typ, 1, 'long')
            t.c('setr', 1, g.sign(), n, n, 'mix').c('query', 1)
            for p in sorted({0, 1, n // 2, n - 1, n, g.r.randrange(n)}):
                t.c('pushat', 1, p, g.digit(B)).c('popat', 1, g.r.choice([p, n])).c('idxw', 1, min(p, n - 1), g.digit(B))
            t.c('pushf', 1, g.digit(B)).c('pushb', 1, g.digit(B)).c('popf', 1).c('popb', 1).c('pushb', 1, 0).c('pushf', 1, 0)
            t.c('resize', 1, n + 40, g.digit(B)).c('resize', 1, n - 5).c('resize', 1, n).c('query', 1)
            for k in ('neg', 'nan', 'pos', '+inf', '-inf'):
                t.c('resize', 1, n, g.digit(B)).c('setk', 1, k).c('query', 1)
            t.c('setk', 1, 'neg').c('resize', 1, n, 1).c('clear', 1).c('query', 1)
        for _ in range(g.times(6, 60)):
            g.history(typ, 25, specials=.1, edits=.5, compare=.02, copies=.1)


def gen_C10(g):
    for typ in ALL:
        B = TYPES[typ][0]
        vals = (g.boundary(B, 2) if B > 3 else g.full(B, 4 if B == 2 else 3)) + SPECIALS + [('neg', [0, 0, 0]), ('pos', [1, 0, 0]), ('neg', [5 % B, 0])]
        t = g.new(typ, 1, 'print')
        for v in vals: t.set(1, v).c('print', 1)
        step = max(1, B // g.times(300, 3000))               # every digit value (a sample of them in big bases)
        t = g.new(typ, 1, 'digits')
        for d in sorted(set(list(range(0, B, step)) + [B - 1, min(B - 1, 10), min(B - 1, 32), min(B - 1, 255), min(B-1, 127), min(B-1, 128)] + [g.r.randrange(B) for _ in range(20)])):
            t.set(1, ('pos', [d])).c('print', 1)
        for _ in range(g.times(40, 400)):
            t = g.new(typ, 2, 'print')
            for _ in range(4):
                t.set(1, g.r.choice(SPECIALS) if g.r.random() < .12 else g.number(B, 10, .15)).c('print', 1)
            t.c('print', 2).c('print', 1, g.r.randrange(256)).c('prints', 1, 2).set(2, g.number(B, 10, .15)).c('prints', 1, 2).c('prints', 2, 1).c('print', 1)
        for n in (31, 32, 33, 64, 65, 100, 129, 257, 700, 1500):
            t = g.new(typ, 1, 'long')
            t.c('setr', 1, g.sign(), g.r.randrange(10**9), n, 'rnd').c('print', 1)
        for _ in range(g.times(8, 80)):
            g.history(typ, 25, specials=.15, prints=.4, compare=0, edits=.1, copies=.1)


def gen_C11(g):
    types = ALL
    for typ in types:
        B = TYPES[typ][0]
        wide = TYPES[typ][2]
        for rep in range(g.times(3, 24)):
            for o in '+-*/':
                a, b = div_operands(g, B, 3) if o == '/' else g.pair(B, 4)
                sa, sb = g.sign(), g.sign()
                t = g.new(typ, 3, 'fault')
                t.set(1, (sa, g.pad(a))).set(2, (sb, g.pad(b))).set(3, g.number(B))
                t.c('fenum', 'cmpd', o, 1, 2).c('fenum', 'bin', o, 3, 2, 1)
                t.set(1, (sa, a)).c('fenum', 'sto', o, 1, 1, 2)
                t.c('fenum', 'cmpd', o, 2, 2)
                t.c('end')
        for _ in range(g.times(4, 30)):
            t = g.new(typ, 3, 'copy')
            t.set(1, g.number(B)).set(2, g.number(B, 20)).set(3, g.r.choice(SPECIALS))
            t.c('fenum', 'copy', 1, 2).c('fenum', 'cctor', 3, 2).c('fenum', 'copy', 2, 2).c('fenum', 'copy', 3, 1).c('fenum', 'copy', 2, 1)
            t.set(1, g.number(B)).set(3, ('pos', g.mag(B, 30))).c('fenum', 'copy', 1, 3).c('end')
        for _ in range(g.times(2, 16)):
            t = g.new(typ, 3, 'edit')
            for n in (0, 1, 2, 3, 4, 8, 16):
                t.set(1, (g.sign(), [g.digit(B) for _ in range(n)])).set(2, g.number(B)).set(3, g.number(B))
                for e in g.r.sample(['pushf', 'pushb', 'pushat', 'resize', 'resized'], 3):
                    if e == 'pushat': t.c('fenum', e, 1, g.r.randrange(n + 1), g.digit(B))
                    elif e == 'resize': t.c('fenum', e, 1, n + g.r.choice([1, 2, 9, 40]))
                    elif e == 'resized': t.c('fenum', 'resize', 1, n + g.r.choice([1, 2, 9, 40]), g.digit(B))
                    else: t.c('fenum', e, 1, g.digit(B))
                if n and n != 16: t.c('fenum', 'ctor', g.r.choice([1, 3]), g.r.choice(['pos', 'neg']), n, *[g.digit(B) for _ in range(n)])
            t.c('fenum', 'ctor', 1, 'pos', 4, 0, 0, 0, 0).c('fenum', 'ctor', 2, 'neg', 5, 0, 0, 1, 0, B - 1).c('end')
            t = g.new(typ, 4, 'expr')
            for r in range(1, 4): t.set(r, (g.sign(), g.mag(B, 3) or [1]))
            for f in ('left', 'right', 'chain', 'temps', 'leftnew', 'rightnew'):
                a, b, c = (g.r.randint(1, 4) for _ in range(3))
                t.set(4, (g.sign(), g.mag(B, 2) or [1]))
                t.c('fenum', 'expr', f, g.r.choice('+-*/'), g.r.choice('+-*/'), 4, a, b, c)
                t.set(g.r.randint(1, 3), (g.sign(), g.mag(B, 3) or [1]))
            t.c('end')
        # the sum / difference / product needs more room than either operand has
        t = g.new(typ, 3, 'room')
        for n in (1, 2, 4, 8):
            t.set(1, ('pos', [B - 1] * n)).set(2, ('pos', [1])).c('fenum', 'cmpd', '+', 1, 2)
            t.set(1, ('neg', [B - 1] * n)).set(2, ('neg', [1])).c('fenum', 'cmpd', '+', 1, 2)
            t.set(1, ('pos', [1])).set(2, ('neg', [B - 1] * n)).c('fenum', 'cmpd', '-', 1, 2)
            t.set(1, ('pos', [1])).set(2, ('pos', [B - 1] * n)).c('fenum', 'cmpd', '-', 1, 2)
            t.set(1, ('neg', [1])).set(2, ('pos', [B - 1] * n)).c('fenum', 'cmpd', '+', 1, 2)
            t.set(1, ('neg', [B - 1] * n)).set(2, ('neg', [B - 1] * n)).c('fenum', 'cmpd', '*', 1, 2)
            t.set(1, ('neg', [B - 1] * n)).set(2, ('pos', [B - 1])).c('fenum', 'cmpd', '/', 1, 2)
        t.c('end')
        t = g.new(typ, 3, 'long')
        for n in (33, 65, 129, 300):
            for o in '+-' + ('*' if n < 100 else ''):
                t.c('setr', 1, g.sign(), n, n, 'max').c('setr', 2, g.sign(), n + 1, n, 'mix').c('fenum', 'cmpd', o, 1, 2)
                t.c('setr', 1, 'pos', n, 2, 'max').c('fenum', 'cmpd', o, 1, 2).c('fenum', 'bin', o, 3, 2, 1)
            t.c('fenum', 'copy', 1, 2).c('fenum', 'cctor', 3, 2).c('setr', 1, 'neg', 5, n, 'max').c('fenum', 'cmpd', '/', 1, 2)
        t.c('end')
        # ordinary histories leave nothing behind
        for _ in range(g.times(2, 20)):
            g.history(typ, 60, specials=.05).c('end')
    t = g.new('b10', 3, 'deep')
    t.set(1, ('pos', [9] * 40)).set(2, ('neg', [9] * 40)).c('fenum', 'cmpd', '*', 1, 2).c('end')
    t = g.new('b2', 3, 'deep')
    t.set(1, ('pos', [1] * 24)).set(2, ('neg', [1, 0, 1])).c('fenum', 'cmpd', '/', 1, 2).c('end')


def gen_C14(g):
    for typ in ALL:
        B = TYPES[typ][0]
        for s in range(0, g.times(6, 24)):
            t = g.new(typ, 2, 'index')
            kinds = ['pos', 'neg'] if s else ['pos', 'neg', 'nan', '+inf', '-inf']
            for kind in kinds:
                t.set(1, (kind, [g.digit(B) for _ in range(s)]))
                for p in range(s): t.c('idx', 1, p).c('idxc', 1, p).c('idxw', 1, p, g.digit(B)).c('idxc', 1, p)
                for p in ('+0', '+1', '+2', '+7', 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + s, 2**63, 2**64 - 1, 2**64 - s - 1):
                    if isinstance(p, int) and p < s: continue
                    t.c('idx', 1, p).c('idxc', 1, p).c('idxw', 1, p, 1)
        for n in (32, 64, 65, 127, 128, 255, 256, 257, 1000):
            t = g.new(typ, 1, 'long')
            t.c('setr', 1, g.sign(), n, n, 'mix')
            for p in sorted({0, 1, n // 2, n - 2, n - 1, n, n + 1, 2 * n, 127, 128, 255, 256, 65536 + n - 1, 2**32 + n - 1}):
                t.c('idx', 1, p).c('idxc', 1, p).c('idxw', 1, p, g.digit(B))
        for _ in range(g.times(12, 100)):
            t = g.new(typ, 2, 'mixed')
            t.set(1, g.number(B)).set(2, g.number(B))
            bound = [0, 8, 8]
            for _ in range(14):
                a = g.r.choice([1, 2])
                k = g.r.random()
                if k < .3: bound[a] = g.edit_cmd(t, a, B, bound[a])
                elif k < .45: t.c('cmpd', g.r.choice('+-'), a, 3 - a)
                t.c(g.r.choice(['idx', 'idxc']), a, g.r.choice(['+0', '+1', '-%d' % g.r.randrange(9), '+%d' % g.r.randrange(60)]))
                t.c('idxw', a, g.r.choice(['+0', '+3', '-%d' % g.r.randrange(9)]), g.digit(B))
    t = g.new('b10', 1, 'diag')
    for rep in range(3):
        for sev in ('alert', 'warning', 'error'):
            for cond in (0, 1):
                t.c('diag', sev, cond).c('diag', sev, cond, 'macro')
                for k in ('or', 'and', 'choice', 'else', 'loop'): t.c('diag', sev, cond, 'macro', k)
                for k in ('percent', 'long', 'empty', 'quote'): t.c('diag', sev, cond, 'text', k)
                t.c('diag', 'debug', cond, 'macro')
                for k in ('or', 'and', 'choice', 'else', 'loop'): t.c('diag', 'debug', cond, 'macro', k)


def gen_C16(g):
    for typ in ALL:
        B = TYPES[typ][0]
        for _ in range(g.times(5, 40)):
            g.history(typ, g.times(120, 400), nregs=6, cap=14, specials=.03, edits=.05, compare=.06, copies=.15, radix=.01)
        g.history(typ, g.times(120, 1000), nregs=4, cap=40, specials=.0, copies=.1, ops='+-*')
        for o in ALL:
            for _ in range(g.times(2, 12)):
                t = g.new(typ, 3, 'radix')
                n = max(1, int(g.r.choice([12, 40, 70]) / (B.bit_length() - (B & (B - 1) == 0))))
                t.set(1, (g.sign(), g.mag(B, n)))
                t.c('apart', 1, o).c('rebuild', 1, o).c('round', 1, 2, o).c('same', 1, 2)
        t = g.new(typ, 2, 'radix')
        for v in [('pos', []), ('neg', [0]), ('pos', [1]), ('neg', [B - 1]), ('pos', [0, 0, 1])]:
            t.set(1, v)
            for o in ('b2', 'b10', typ): t.c('apart', 1, o).c('rebuild', 1, o).c('round', 1, 2, o)
        for n in (33, 65, 130):
            t = g.new(typ, 5, 'longlaws')
            t.c('setr', 1, g.sign(), n, n, 'mix').c('setr', 2, g.sign(), n + 1, n - g.r.randint(0, 2), 'rnd').c('setr', 3, g.sign(), 9, 2, 'max')
            t.c('bin', '+', 4, 1, 2).c('cmpd', '*', 4, 3).c('bin', '*', 5, 1, 3).c('cmpd', '*', 2, 3).c('cmpd', '+', 5, 2).c('same', 4, 5)
            t.c('cmpd', '-', 5, 4).c('cmpd', '*', 3, 3).c('bin', '-', 5, 1, 2).c('bin', '-', 4, 2, 1).c('cmpd', '+', 4, 5)
        # (a + b) - b, (a * b) / b, (a / b) * b + rest
        for _ in range(g.times(20, 200)):
            t = g.new(typ, 5, 'laws')
            a, b = g.signed_pair(B, 6, .05)
            if g.to_int(B, b[1]) == 0: b = ('neg', [1])
            t.set(1, a).set(2, b)
            t.c('bin', '+', 3, 1, 2).c('cmpd', '-', 3, 2).c('same', 3, 1)
            t.c('bin', '*', 3, 1, 2).c('cmpd', '/', 3, 2).c('same', 3, 1)
            t.c('bin', '/', 3, 1, 2).c('bin', '*', 4, 3, 2).c('bin', '-', 5, 1, 4).c('cmpd', '+', 4, 5).c('same', 4, 1)


FNS = ['add', 'sub', 'div', 'mulfft', 'mulnaive']


def gen_C13(g, debug=False):
    """debug: a build with BN_DEBUG, where sub refuses a negative difference"""
    fns = ['add', 'subdebug', 'div', 'mulfft', 'mulnaive'] if debug else FNS
    pos = ('pos',)

    def calls(t, i, n):
        for j in range(1, n + 1):
            for f in fns: t.c('raw', f, n + 1, i, j)
            t.c('rawcmp', i, j)
        t.c('copy', n + 1, i)
        for f in ('add', fns[1]): t.c('raw', f, n + 1, n + 1, n + 1).c('copy', n + 1, i)
    for typ in ALL:
        B = TYPES[typ][0]
        vals = g.boundary(B, 2, pos) if B > 3 else g.full(B, 4 if B == 2 else 3, pos)
        vals += [('pos', [0, 0, 0]), ('pos', [B - 1, 1, 0]), ('pos', [0, 1, 0, 0]), ('pos', [1, 0, 0])]
        g.table(typ, vals, calls)

        def num(ds): return ('pos', g.pad(ds, .2))
        for _ in range(g.times(50 if debug else 110, 1200)):
            t = g.new(typ, 4, 'pair')
            for f in g.r.sample(fns, 3):
                a, b = div_operands(g, B) if f == 'div' else g.pair(B)
                t.set(1, num(a)).set(2, num(b)).c('rawcmp', 1, 2).c('rawcmp', 2, 1)
                t.c('raw', f, 3, 1, 2).c('raw', f, 4, 2, 1)
                if g.r.random() < .5: t.c('raw', f, 1, 1, 2)
                else: t.c('raw', f, 2, 2, 1)
                if g.r.random() < .3: t.c('raw', f, 4, 4, 4)
        for _ in range(g.times(8, 80)):              # one routine's output is the next one's input
            t = g.new(typ, 4, 'chain')
            for i in (1, 2, 3, 4): t.set(i, num(g.mag(B, g.length(5))))
            size = 0
            for _ in range(20):
                f = g.r.choice(fns)
                a, b, c = (g.r.randint(1, 4) for _ in range(3))
                if f.startswith('mul'):
                    t.set(a, num(g.mag(B, g.r.randint(1, 6)))).set(b, num(g.mag(B, g.r.randint(1, 6))))
                    t.c('raw', f, c, a, b)
                    if c not in (a, b): t.c('raw', 'div', c, c, b)
                else:
                    t.c('raw', f, c, a, b)
                t.c('rawcmp', a, c)
        for la in range(1, 9):                       # products, length by length
            t = g.new(typ, 3, 'sweep')
            t.set(1, ('pos', [B - 1] * la))
            for lb in range(0, 9):
                t.set(2, ('pos', [B - 1] * lb if g.r.random() < .6 else g.mag(B, lb)))
                t.c('raw', 'mulnaive', 3, 1, 2).c('raw', 'mulfft', 3, 1, 2).c('raw', 'mulnaive', 3, 2, 1)
        for la, lb, f in [(2000, 1999, 'add'), (3000, 2999, fns[1]), (600, 500, 'mulnaive'), (900, 800, 'mulfft'), (40, 20, 'div')]:
            t = g.new(typ, 3, 'huge')
            t.c('setr', 1, 'pos', g.r.randrange(10**9), la, g.r.choice(['max', 'rnd', 'mix']))
            t.c('setr', 2, 'pos', g.r.randrange(10**9), lb, g.r.choice(['near', 'rnd', 'mix']))
            t.c('raw', f, 3, 1, 2).c('rawcmp', 1, 2).c('rawcmp', 2, 1)


# ---- the state graph of the specification ---------------------------------------
ARITH = ('bin', 'sto', 'cmpd')
GRAPH = {
    'C01': lambda c: c[0] in ARITH and c[1] == '+', 'C02': lambda c: c[0] in ARITH and c[1] == '-',
    'C03': lambda c: c[0] in ARITH and c[1] == '*', 'C04': lambda c: c[0] in ARITH and c[1] == '/',
    'C05': lambda c: c[0] == 'cmp', 'C06': lambda c: c[0] in ARITH, 'C07': lambda c: c[0] in ARITH,
    'C08': lambda c: c[0] in ARITH or c[0] in ('copy', 'cctor', 'move', 'mctor', 'swap'),
    'C09': lambda c: c[0] in ('resize', 'pushf', 'pushb', 'popf', 'popb', 'pushat', 'popat', 'clear', 'setk', 'query', 'ctor', 'idxw', 'idx', 'idxc'),
    'C10': lambda c: c[0] == 'print', 'C11': lambda c: c[0] in ARITH or c[0] in ('copy', 'cctor'), 'C14': lambda c: c[0] in ('idx', 'idxc', 'idxw'), 'C16': lambda c: True,
}
DIGIT_AT = {'pushf': 2, 'pushb': 2, 'pushat': 3, 'resize': 3, 'idxw': 3}


def graph_traces(g, prop, paths, budget):
    """transitions TLC enumerated, replayed in every number type; the model's digit 1 stands for a digit > 0"""
    mine = [p for p in paths if GRAPH[prop](p[-1].split())]
    if prop == 'C06': mine = [p for p in mine if any(' nan' in c or 'inf' in c or ' / ' in c for c in p[:-1])]
    g.r.shuffle(mine)
    if not mine: return 0
    n = 0
    # several transitions with the same way in share one history
    for i in range(budget):
        p = mine[i % len(mine)]
        typ = ALL[(i + i // len(mine)) % len(ALL)]
        B = TYPES[typ][0]
        one = g.r.choice([1, B - 1, B - 1, g.r.randrange(1, B)])
        t = g.new(typ, 2, 'graph')
        for cmd in p:
            w = cmd.split()
            if w[0] == 'ctor': w[4:] = [one if d == '1' else d for d in w[4:]]
            elif w[0] in DIGIT_AT and w[DIGIT_AT[w[0]]] == '1': w[DIGIT_AT[w[0]]] = one
            if prop == 'C11' and cmd is p[-1]: t.c('fenum', *w).c('end')    # the call, with each of its allocations failing
            else: t.c(*w)
        n += 1
    return min(n, len(mine)), len(mine)


# ---- the same call on the same objects again, their contents edited in place ---------------
def again(g, prop):
    """results depend on what operands hold now, not on where they are or what they held before"""
    ops = {'C01': '+', 'C02': '-', 'C03': '*', 'C04': '/', 'C07': '+-*/', 'C08': '+-*/', 'C16': '+-*/', 'C13': '+', 'C05': '+', 'C10': '+'}.get(prop)
    if not ops: return
    for typ in ALL:
        B = TYPES[typ][0]
        for op in ops:
            for form in ['cmpd', 'bin', 'sto', 'all'] * g.times(1, 4):
                t = g.new(typ, 4, 'again')
                n, m = g.r.choice([(2, 2), (3, 2), (4, 4), (5, 3), (6, 6), (3, 5), (7, 1)])
                if prop == 'C13' and form == 'all': continue
                raw, raw1 = prop == 'C13', g.r.choice(FNS)
                t.set(1, ('pos' if raw else g.sign(), g.mag(B, n))).set(2, ('pos' if raw else g.sign(), g.mag(B, m)))
                t.set(3, ('pos', [])).set(4, ('pos', []))
                for _ in range(7):
                    if raw:
                        for f in FNS if form == 'bin' else [raw1]: t.c('raw', 'subdebug' if g.debug and f == 'sub' else f, 3, 1, 2)
                        t.c('copy', 4, 1).c('raw', 'add', 4, 4, 2).c('rawcmp', 1, 2)
                    elif prop == 'C05': t.c('cmp', 1, 2).c('cmp', 2, 1)
                    elif prop == 'C10': t.c('print', 1).c('prints', 1, 2)
                    elif form == 'cmpd': t.c('copy', 3, 1).c('cmpd', op, 3, 2)
                    elif form == 'all': t.c('copy', 3, 1).c('cmpd', op, 3, 2).c('bin', op, 4, 1, 2).c('copy', 4, 2).c('cmpd', op, 4, 1)
                    else: t.c(form, op, 4, 1, 2)
                    a, l = g.r.choice([(1, n), (2, m)])
                    i = g.r.choice([0, l - 1, g.r.randrange(l), g.r.randrange(l)])
                    d = g.digit(B)
                    if i == l - 1 and d == 0: d = 1
                    t.c('idxw', a, i, d)


# ---- expressions: temporaries as operands, references that operators return ---------------
def expressions(g, prop):
    ops = {'C01': '+', 'C02': '-', 'C03': '*', 'C04': '/', 'C06': '+-*/', 'C07': '+-*/', 'C08': '+-*/', 'C16': '+-*/'}.get(prop)
    if not ops: return
    for typ in ALL:
        B = TYPES[typ][0]
        for _ in range(g.times(12, 120)):
            t = g.new(typ, 4, 'expr')
            for _ in range(4):
                vs = [g.r.choice(SPECIALS) if g.r.random() < (.3 if prop == 'C06' else .03) else g.zero() if g.r.random() < .06 else g.number(B, 4) for _ in range(4)]
                if ops == '/':
                    for i in (0, 1, 2): vs[i] = (vs[i][0], g.mag(B, g.r.randint(1, 6)) if vs[i][0] in ('pos', 'neg') else [])
                for i in range(4): t.set(i + 1, vs[i])
                f = g.r.choice(['left', 'right', 'chain', 'leftnew', 'rightnew', 'temps', 'left', 'right', 'chain'])
                o1, o2 = g.r.choice(ops), g.r.choice(ops)
                w = [g.r.choice([4, 4, 1, 2, 3])] + [g.r.choice([1, 2, 3, 3, 4]) for _ in range(3)]
                if o1 == o2 == '*' and f == 'chain': w[1:3] = [1, 2]
                t.c('expr', f, o1, o2, *w)
                if prop in ('C08', 'C16'):           # the same in single steps
                    for i in range(4): t.set(i + 1, vs[i])
                    t.c('bin', o1, 4, 1, 2).c('cmpd', o2, 4, 3)
                    t.c('expr', g.r.choice(['left', 'leftnew']), o1, o2, g.r.choice([1, 2, 3]), 1, 2, 3).c('same', t.cmds[-1].split()[4], 4)
                if prop == 'C08': t.c('swap', g.r.randint(1, 4), g.r.randint(1, 4))


# ---- numbers of more than 2^16 digits -------------------------------------------------
def vlong(g, prop):
    """positions and lengths beyond 16 bits, for every property of numbers"""
    n = 65536
    kinds = {'C03': ['b10', 'highp'], 'C04': ['b16'], 'C13': ['b10', 'medp']}.get(prop, ['lowp', 'highp', 'b10'])
    if prop == 'C14' or g.thorough: kinds = ['lowp', 'medp', 'highp', 'b10', 'b2', 'b100'] if prop != 'C04' else kinds
    for typ in kinds:
        B = TYPES[typ][0]
        s = lambda: g.r.randrange(10**9)
        L = n + g.r.randint(1, 9)
        def new(k): return g.new(typ, k, 'vlong')
        if prop in ('C01', 'C02'):
            o = '+-'[prop == 'C02']; sg = g.sign()
            t = new(3)
            t.c('setr', 1, sg, s(), L, 'max').c('setr', 2, sg, s(), L - g.r.randint(0, 3), g.r.choice(['near', 'rnd', 'mix'])).c('bin', o, 3, 1, 2)
            t.set(2, (sg if o == '+' else 'pos' if sg == 'neg' else 'neg', [1])).c('cmpd', o, 1, 2)        # carries all the way up
            t.set(2, ('neg' if sg == 'pos' else 'pos', [1]) if o == '+' else (sg, [1])).c('cmpd', o, 1, 2)  # and back
        elif prop == 'C03':
            t = new(3)
            t.c('setr', 1, g.sign(), s(), L, g.r.choice(['max', 'rnd', 'near'])).set(2, (g.sign(), [g.r.randrange(1, B), 0, B - 1])).c('bin', '*', 3, 1, 2)
            if B == 10:
                t = new(3)
                t.c('setr', 1, g.sign(), s(), 40000, 'near').c('setr', 2, g.sign(), s(), 30000, 'rnd').c('bin', '*', 3, 1, 2)
                t = new(3)
                t.c('setr', 1, g.sign(), s(), 2 * L, 'max').set(2, (g.sign(), [B - 1, 0, 1, 1])).c('bin', '*', 3, 1, 2)
        elif prop == 'C04':
            t = new(3)
            t.c('setr', 1, g.sign(), s(), L + 1, 'max').c('setr', 2, g.sign(), s(), L, g.r.choice(['rnd', 'mix'])).c('bin', '/', 3, 1, 2)
            t.c('cmpd', '/', 2, 1)
        elif prop == 'C05':
            t = new(2)
            t.c('setr', 1, g.sign(), s(), L, 'mix').c('copy', 2, 1).c('cmp', 1, 2).c('idxw', 2, 1, 0).c('idxw', 1, 1, 1).c('cmp', 1, 2).c('cmp', 2, 1)
            t.c('idxw', 1, n, 0).c('idxw', 2, n, 1).c('cmp', 1, 2).c('cmp', 2, 1)
            t.c('resize', 2, L - n, 1).c('cmp', 1, 2).c('cmp', 2, 1).c('pushb', 1, 0).c('cmp', 1, 1)
        elif prop == 'C07':
            t = new(3)
            t.c('setr', 1, 'pos', s(), L, 'mix').set(2, ('pos', [1])).c('bin', '+', 2, 1, 2).c('bin', '-', 3, 2, 1).c('bin', '-', 3, 1, 2).c('cmpd', '-', 1, 1)
        elif prop == 'C08':
            t = new(3)
            t.c('setr', 1, 'neg', s(), L, 'max').c('copy', 2, 1).c('mctor', 3, 2).c('move', 2, 3).c('same', 1, 2).c('cctor', 3, 1).c('cmpd', '+', 1, 1)
            t.c('cmpd', '+', 3, 2).c('same', 1, 3).c('cmpd', '-', 1, 1).c('copy', 2, 1)
        elif prop == 'C09':
            t = new(1)
            t.c('resize', 1, L, 1).c('query', 1).c('pushat', 1, n, 0).c('popat', 1, n - 1).c('popat', 1, n + 1).c('pushf', 1, 0).c('pushb', 1, 1)
            t.c('resize', 1, L - n).c('query', 1).c('resize', 1, L, 1).c('setk', 1, 'neg').c('query', 1).c('setk', 1, '-inf').c('query', 1)
        elif prop == 'C10':
            t = new(1)
            t.c('setr', 1, 'neg', s(), L, 'mix').c('print', 1)
        elif prop == 'C11':
            t = new(3)
            t.c('setr', 1, 'neg', s(), L, 'max').set(2, ('neg', [1])).c('fenum', 'cmpd', '+', 1, 2).c('setr', 1, 'neg', s(), L, 'max').c('fenum', 'copy', 2, 1).c('end')
        elif prop == 'C13':
            t = new(3)
            t.c('setr', 1, 'pos', s(), L, 'max').c('setr', 2, 'pos', s(), L - 2, 'near').c('raw', 'add', 3, 1, 2).c('raw', 'subdebug' if g.debug else 'sub', 3, 1, 2).c('rawcmp', 1, 2)
            t.set(2, ('pos', [B - 1, 0, 1])).c('raw', 'mulnaive', 3, 1, 2).c('raw', 'mulnaive', 3, 2, 1)
        elif prop == 'C14':
            t = new(1)
            t.c('setr', 1, g.sign(), s(), L, 'mix')
            for p in (0, L - n - 1, L - n, n - 1, n, L - 1, L, L + 1, n + L, 2**32 + 1, 2**32 + n): t.c('idx', 1, p).c('idxc', 1, p).c('idxw', 1, p, g.digit(B))
        elif prop == 'C16':
            t = new(4)
            t.c('setr', 1, g.sign(), s(), L, 'mix').c('setr', 2, g.sign(), s(), L + 2, 'near').c('bin', '+', 3, 1, 2).c('cmpd', '-', 3, 2).c('same', 3, 1)


GENERATORS = {k[4:]: v for k, v in list(globals().items()) if k.startswith('gen_C')}


# ---- products at the limits of floating-point convolution --------------------------------
GIANT_TYPES = ['medp', 'b1000', 'lowp']
def generate_giants(prop, seed, tier):
    g = Gen(prop, seed, tier)
    raw = prop == 'C13'
    def product(typ, la, lb, k='max'):
        t = g.new(typ, 3, 'vlong')
        t.c('setr', 1, 'pos' if raw else 'neg', g.r.randrange(10**9), la, k).c('setr', 2, 'pos', 8, lb, 'max')
        if raw: t.c('raw', 'mulfft', 3, 1, 2)
        else: t.c('bin', '*', 3, 1, 2)
        return t
    for la, lb in [(171000, 170000)] + ([(135000, 135000), (262000, 90000), (200000, 200000)] if g.thorough else []): product('medp', la, lb)
    for typ in ('b1000', 'lowp'):                      # by convolution, whatever the length
        product(typ, 262100, 262100)
        if g.thorough:
            t = product(typ, 262000, 255000, 'rnd')
            if not raw: t.c('cmpd', '*', 2, 2)
    return g.traces


def generate(prop, seed, tier, **kw):
    g = Gen(prop, seed, tier)
    g.debug = kw.get('debug', False)
    GENERATORS[prop](g, **kw)
    again(g, prop)
    expressions(g, prop)
    vlong(g, prop)
    return g.traces


def generate_graph(prop, seed, tier, paths):
    g = Gen(prop + 'graph', seed, tier)
    done, of = graph_traces(g, prop, paths, (2700 if prop == 'C11' else 9000) * (1 if tier == 'quick' else 10))
    return g.traces, done, of
