"""Scripts for several threads (C17)."""
from gen import Gen, Trace, SPECIALS, div_operands
from types_ import TYPES, ALL

S, P = 3, 3                                # shared and private numbers


def program(g, t, who, typ, calls, big, heavy=True):
    """the calls of one thread; registers 1..S shared, S+1..S+P its own"""
    r, B = g.r, TYPES[typ][0]
    own = list(range(S + 1, S + P + 1))
    every = list(range(1, S + P + 1))
    size = {i: big for i in every}
    say = lambda *w: t.c('at', who, *w)
    for i in own:
        kind, ds = g.number(B, 5)
        say('set', i, kind, len(ds), *ds); size[i] = len(ds)
    n = 0
    while n < calls:
        n += 1
        x = r.random()
        a, b, d = r.choice(own), r.choice(every), r.choice(own)
        if x < .62:
            o = r.choice('++--**//')
            c = r.choice(every)
            if o == '*' and size[b] + size[c] > 3 * big: o = '-'
            if o == '/' and size[c] > big + 4: o = '+'
            k = r.random()
            if k < .4:
                say('bin', o, d, b, c); size[d] = size[b] + size[c] if o == '*' else max(size[b], size[c]) + 1
            elif k < .7:
                say('sto', o, d, b, c); size[d] = size[b] + size[c] if o == '*' else max(size[b], size[c]) + 1
            else:
                if o == '*' and size[a] + size[c] > 3 * big: o = '+'
                say('cmpd', o, a, c); size[a] = size[a] + size[c] if o == '*' else max(size[a], size[c]) + 1
        elif x < .72: say('copy', d, b); size[d] = size[b]
        elif x < .77: say('cctor', d, b); size[d] = size[b]
        elif x < .85: say('cmp', b, r.choice(every))
        elif x < .90: say('print', b)
        elif x < .92: say('query', b)
        elif x < .94: say('peek', b, r.randrange(1000))
        elif x < .95 and a != d: say('move', d, a); size[d] = size[a]
        elif x < .955: say('swap', d, a); size[a] = size[d] = max(size[a], size[d])
        elif x < .96:
            o1, o2 = r.choice('+-'), r.choice('+-/')
            e = r.choice(every)
            say('expr', r.choice(['left', 'right', 'chain', 'temps', 'leftnew', 'rightnew']), o1, o2, d, a, b, e); size[d] = max(size[d], size[a], size[b], size[e]) + 2
        elif x < .965: say('beyond', b, r.choice([0, 1, 7, 2**32]))
        elif x < .97: say('beyond', a, r.choice([0, 1, 7, 2**32]), 1)
        elif x < .972: say('complain', r.choice(['alert', 'warning', 'error']))
        elif x < .98: say(r.choice(['pushb', 'pushf']), a, g.digit(B)); size[a] += 1
        elif x < .985:
            e = r.choice(['resize', 'clear', 'setk', 'setk', 'popf', 'popb', 'pushat', 'popat'])
            if e == 'resize': say(e, a, r.randint(0, 6), g.digit(B)); size[a] = 6
            elif e == 'setk': say(e, a, r.choice(['pos', 'neg', 'nan', '+inf', '-inf']))
            elif e == 'pushat': say(e, a, r.randrange(20), g.digit(B)); size[a] += 1
            elif e == 'popat': say(e, a, r.randrange(20))
            else: say(e, a)
        else: say('ctor', d, r.choice(['pos', 'neg']), 3, g.digit(B), g.digit(B), g.digit(B)); size[d] = 3


def generate(seed, tier, schedules):
    g = Gen('C17', seed, tier)
    r = g.r

    def team(typ, big, tag):
        t = g.new(typ, S + P, tag)
        B = TYPES[typ][0]
        t.c('shared', S)
        for i in range(1, S + 1):
            if r.random() < .08: t.set(i, r.choice(SPECIALS + [g.zero()]))
            else: t.set(i, (g.sign(), g.pad(g.mag(B, r.randint(1, big)), .15)))
        return t
    for k, sch in enumerate(schedules * (4 if g.thorough else 1)):
        typ = ALL[k % len(ALL)]
        t = team(typ, 6, 'turns')
        counts = [sch.count(i + 1) for i in range(max(sch))]
        # setting the private numbers up takes P calls of each thread first
        t.c('schedule', *([i + 1 for i in range(len(counts)) for _ in range(P)] + sch))
        for i, n in enumerate(counts): program(g, t, i + 1, typ, n, 6)
    for typ in ALL:
        for rep in range(g.times(6, 60)):
            big = r.choice([4, 12, 30])
            t = team(typ, big, 'free')
            for i in range(r.choice([2, 2, 3, 4, 6])): program(g, t, i + 1, typ, r.choice([8, 15, 30]), big)
        # long shared numbers
        for rep in range(g.times(2, 10)):
            t = g.new(typ, S + P, 'long')
            t.c('shared', S)
            n = r.choice([70, 130, 260])
            for i in range(1, S + 1): t.c('setr', i, g.sign(), r.randrange(10**9), r.choice([n, n - 1, n // 2]), r.choice(['max', 'mix', 'rnd']))
            for i in range(r.choice([2, 3])):
                for j in range(6):
                    a, b = r.randint(1, S), r.randint(1, S)
                    t.c('at', i + 1, 'bin', '+-*'[j % 3], S + 1, a, b).c('at', i + 1, 'cmp', a, b)
                    t.c('at', i + 1, 'print', r.choice([a, S + 1])).c('at', i + 1, 'peek', a, r.randrange(1000))
                    t.c('at', i + 1, 'copy', S + 2, a).c('at', i + 1, 'cmpd', r.choice('+-'), S + 2, b)
        # long quotients; products of every size of table, and those beyond tables
        for rep in range(g.times(1, 5)):
            t = g.new(typ, S + P, 'long')
            t.c('shared', S)
            n = r.choice([40, 70, 100])
            for i in range(1, S + 1): t.c('setr', i, g.sign(), r.randrange(10**9), n + i, r.choice(['max', 'mix', 'rnd']))
            for i in range(3):
                for j in range(6): t.c('at', i + 1, 'bin', '/', S + 1, r.choice([2, 3]), 1).c('at', i + 1, 'bin', '/', S + 2, 3, r.choice([1, 2]))
        if typ in ('medp', 'highp', 'b100'):
            t = g.new(typ, S + P, 'long')
            t.c('shared', S)
            for i in range(1, S + 1): t.c('setr', i, g.sign(), r.randrange(10**9), 520 + i, 'max')
            for i in range(2): t.c('at', i + 1, 'bin', '*', S + 1, 1 + i, 3).c('at', i + 1, 'bin', '*', S + 1, 3, 1)
        # larger tables and scratch areas; one short factor
        t = g.new(typ, S + P, 'long')
        t.c('shared', S)
        n = r.choice([1030, 1300, 2050])
        for i in (1, 2): t.c('setr', i, g.sign(), r.randrange(10**9), n + i, r.choice(['max', 'rnd']))
        t.c('setr', 3, g.sign(), r.randrange(10**9), r.choice([1, 2, 40]), 'rnd')
        for i in range(3): t.c('at', i + 1, 'bin', '*', S + 1, 1, 2 if i != 1 else 3).c('at', i + 1, 'bin', '*', S + 2, 3, 2).c('at', i + 1, 'cmpd', '*', S + 2, 3)
        if typ in ('b10', 'lowp', 'b100') or g.thorough:
            t = g.new(typ, S + P, 'long')
            t.c('shared', S)
            for i in (1, 2, 3): t.c('setr', i, g.sign(), r.randrange(10**9), 9000 if TYPES[typ][2] == 1 else 3000, r.choice(['max', 'rnd']))
            for i in range(2): t.c('at', i + 1, 'bin', '*', S + 1, 1 + i, 3)
        # the same calls in every thread
        for rep in range(g.times(3, 20)):
            t = team(typ, 8, 'same')
            o = '+-*/'[rep % 4] if rep < 4 else r.choice('+-*/')
            for i in (1, 2, 3):
                for j in range(6):
                    t.c('at', i, 'bin', o if j % 2 == 0 else r.choice('+-*/'), S + 1, r.randint(1, S), r.randint(1, S))
                    t.c('at', i, 'cmpd', o, S + 1, r.randint(1, S))
                    t.c('at', i, 'cmp', S + 1, r.randint(1, S)).c('at', i, 'print', r.randint(1, S))
                    t.c('at', i, 'copy', S + 1, 1)
    return g.traces
