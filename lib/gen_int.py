"""Scripts for the digit integer types (C12)."""
import random
from gen import Trace

W = {'u8': 8, 'u8_2': 8, 'u8_0': 8, 'u16': 16, 'u16_2': 16, 'u16_8': 16, 'u32': 32, 'u32_8': 32, 'u32_10': 32,
     'u32_16': 32, 'u64_10': 64, 'u64_16': 64, 'u64_0': 64}
ARITH = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
TESTS = ['==', '!=', '<', '<=', '>', '>=']
H = 3


def value(r, w):
    M = (1 << w) - 1
    x = r.random()
    if x < .3: return r.choice([0, 1, 2, 3, M, M - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1])
    if x < .5: return r.randrange(min(M, 300))
    if x < .6: return M - r.randrange(min(M, 300))
    if x < .75: return (1 << r.randrange(w)) + r.choice([-1, 0, 1]) & M
    if x < .85: return (1 << (w // 2)) + r.randrange(-2, 3) & M
    return r.randrange(M + 1)


def generate(seed, tier):
    r = random.Random('C12/%d/%s' % (seed, tier))
    th = tier == 'thorough'
    out = []
    k = [0]

    def new(typ, tag):
        k[0] += 1
        t = Trace('%s%d' % (tag, k[0]), typ, 2 * H)
        out.append(t)
        return t
    # one-byte words: complete rows of the operators' tables
    for typ in ('u8', 'u8_2', 'u8_0'):
        full = th or typ == 'u8'
        for x in range(256):
            t = None
            for form in ('dd', 'dn', 'nd', 'dd=', 'dn=', 'nd='):
                if not full and x not in (0, 1, 2, 127, 128, 254, 255) and r.random() > .1: continue
                # quick: every row of the plain digit form, a third of the others
                if not th and form != 'dd' and x not in (0, 1, 2, 127, 128, 254, 255) and r.random() > .25: continue
                t = t or new(typ, 'row')
                for o in ARITH:
                    lo, n = (1, 255) if o in '/%' else (0, 32) if o in ('<<', '>>') else (0, 256)
                    t.c('row', form, o, x, lo, n)
                if len(form) == 2:
                    for o in TESTS: t.c('row', form, o, x, 0, 256)
        t = new(typ, 'unary')
        for o in ('!', 'u+', 'u-', '~', '++x', '--x', 'x++', 'x--'): t.c('urow', o)
        for o in ('++x', '--x', 'x++', 'x--'): t.c('urow', o, 'stored')

    def operands(t, w, o):
        a, b = r.choice([(1, 2), (2, 1), (1, 1), (1, H + 1), (H + 2, 2), (H + 1, 3), (3, H + 2), (2, H + 3)])
        t.c('set', a, value(r, w))
        if a != b or o in ('<<', '>>', '/', '%'):
            v = value(r, w)
            if o in ('<<', '>>'):
                v = r.randrange(w) if r.random() < .9 or w > 32 else r.randrange(32)
            if o in '/%' and v == 0: v = r.choice([1, (1 << w) - 1, 7])
            if o in '/%' and r.random() < .4: v = max(1, value(r, w) >> r.randrange(w))
            t.c('set', b, v)
        return a, b
    for typ, w in W.items():
        for rep in range(60 if not th else 700):
            t = new(typ, 'ops')
            for o in r.sample(ARITH, 5):
                a, b = operands(t, w, o)
                t.c('plain', o, a, b)
                t.c('asg', o, a, b)
            for o in TESTS:
                a, b = operands(t, w, o)
                if r.random() < .4 and a != b: t.c('set', b, 0).c('store', 'copy', b, a) if (a <= H or b <= H) else None
                t.c('test', o, a, b)
            for o in r.sample(ARITH, 4):
                v = value(r, w)
                if o in '/%': v = v or 1
                if o in ('<<', '>>'): v = r.randrange(w)
                a = r.randint(1, H)
                t.c('set', a, v).c('own', r.choice(['plain-dn', 'plain-nd']), o, a).c('own', r.choice(['asg-dn', 'asg-nd']), o, a)
            a = r.randint(1, H)
            t.c('set', a, value(r, w)).c('own', r.choice(['test-dn', 'test-nd']), r.choice(TESTS), a)
            for o in '!+-~':
                a = r.randint(1, H); t.c('set', a, value(r, w)).c('un', o, a)
            for o in ('++', '--'):
                for q in ('pre', 'post'):
                    a = r.randint(1, H)
                    if r.random() < .8: t.c('set', a, r.choice([0, (1 << w) - 1, value(r, w), (1 << (w // 2)) - 1, 1 << (w // 2)]))
                    t.c('step', o, q, a)
            for how in ('copy', 'move', 'cctor', 'mctor'):
                a, b = r.choice([(1, 2), (2, 2), (1, H + 1), (3, H + 2)])
                t.c('set', b, value(r, w)).c('store', how, a, b)
            t.c('set', 3, value(r, w)).c('store', 'copy', H + 3, 3).c('clear', r.randint(1, H))
            a = r.randint(1, H)
            t.c('set', a, value(r, w)).c('write', a)
            v = value(r, w)
            if w == 8: v = r.choice([x for x in range(256) if x not in (32, 9, 10, 11, 12, 13)])
            t.c('writes', a, r.randint(1, H))
            us = [value(r, w), value(r, w)]
            if w == 8: us = [r.choice([x for x in range(256) if x not in (32, 9, 10, 11, 12, 13)]) for _ in us]
            two = [[u] if w == 8 else [ord(c) for c in str(u)] for u in us]
            t.c('reads', *r.sample(range(1, H + 1), 2), *(two[0] + [32] + two[1]))
            codes = [v] if w == 8 else [ord(c) for c in str(v)]
            t.c('read', r.randint(1, H), *([32] * r.choice([0, 0, 1, 3]) + codes))
            a = r.randint(1, H)
            t.c('writeh', a).c('nread', a, r.choice(['bad', 'eof', 'fail']))
            v = value(r, w)
            if w > 8:
                t.c('readh', a, *[ord(c) for c in '%x' % v])
                t.c('read', a, *[ord(c) for c in str((1 << w) + r.choice([-2, -1, 0, 1, 5, v, v << w]))])
                t.c('readh', a, *[ord(c) for c in '%x' % ((1 << w) + r.choice([-1, 0, v]))])
                t.c('read', a, *[ord(c) for c in r.choice(['x1', '', '   ', '.5', '   ', 'abc'])])
            else:
                t.c('readh', a, v if v not in (32, 9, 10, 11, 12, 13) else 49).c('read', a, *[32] * r.randrange(3))
            t.c('set', a, value(r, w))
        # long histories of assigning forms only
        for rep in range(4 if not th else 40):
            t = new(typ, 'hist')
            for i in range(1, 2 * H + 1): t.c('set', i, value(r, w) | 1)
            for _ in range(60):
                o = r.choice('+-*&|^')
                a, b = r.choice([(1, 2), (2, 1), (1, 1), (1, H + 1), (H + 2, 2), (H + 1, 3), (3, H + 2), (2, H + 3)])
                t.c(r.choice(['plain', 'asg', 'asg']), o, a, b)
                if r.random() < .2: t.c('step', r.choice(['++', '--']), r.choice(['pre', 'post']), r.randint(1, H))
    return out
