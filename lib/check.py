"""bin/check <property>: decide one property on /repo's current working tree."""
import json, os, random, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
import vlib, gen, gen_int, gen_fft, gen_thr, models
from types_ import ALL

OBL = {
    'C01': {'value'}, 'C02': {'value'}, 'C03': {'value'}, 'C04': {'value', 'div0'},
    'C05': {'cmp'}, 'C06': {'special'}, 'C07': {'form'}, 'C08': {'frame', 'copy', 'law'},
    'C09': {'edit'}, 'C10': {'text'}, 'C11': {'alloc'}, 'C14': {'index', 'diag'},
    'C16': {'value', 'div0', 'special', 'law', 'copy', 'cmp', 'edit', 'frame'},
}


def shards_for(tier):
    return vlib.CORES if tier == 'quick' else vlib.CORES * 4


def giants(prop, work, seed, tier, stats):
    """products whose column sums are close to 2^50 and beyond: an optimised build, the quadratic path takes its time"""
    exe = vlib.build_driver(work, gen.GIANT_TYPES, 'plaindriver', ['-DRAW'] if prop == 'C13' else [], flags=['-O2'])
    texts = [t.text() for t in gen.generate_giants(prop, seed, tier)]
    return vlib.traces_stage(work, exe, 'TraceBigNum.tla', {'raw'} if prop == 'C13' else OBL[prop], texts, stats, len(texts), ('40',))


def with_giants(stage):
    def run(prop, work, seed, tier, stats, info):
        apart = vlib.Stats()
        with ThreadPoolExecutor(1) as ex:
            big = ex.submit(giants, prop, work, seed, tier, apart)
            bad = stage(prop, work, seed, tier, stats, info)
            bad = bad or big.result()
        stats.add(apart)
        return bad
    return run


DEBUG_TYPES = ['b10', 'lowp', 'highp', 'b1g']
def with_debug(stage):
    """the same in a BN_DEBUG build, for a few number types"""
    def run(prop, work, seed, tier, stats, info):
        with ThreadPoolExecutor(1) as ex:
            exe = ex.submit(vlib.build_driver, work, DEBUG_TYPES, 'debugdriver', ['-DBN_DEBUG'])
            bad = stage(prop, work, seed, tier, stats, info)
            exe = exe.result()
        if bad: return bad
        info['builds'] = ['default', 'BN_DEBUG']
        texts = [t.text() for t in gen.generate(prop, seed + 1000, tier) if t.type in DEBUG_TYPES]
        other = set(ALL) - set(DEBUG_TYPES)
        texts = [t for t in texts if not t.startswith('T vlong') and not other & set(t.split())]
        random.Random(seed).shuffle(texts)
        return vlib.traces_stage(work, exe, 'TraceBigNum.tla', OBL[prop], texts, stats, shards_for(tier))
    return run


def pool_check(prop, work, seed, tier, stats, info):
    with ThreadPoolExecutor(1) as ex:
        graph = ex.submit(vlib.transitions, work) if prop in gen.GRAPH else None
        exe = vlib.build_driver(work, ALL)
        traces = gen.generate(prop, seed, tier)
        if graph:
            paths, r = graph.result()
            more, done, of = gen.generate_graph(prop, seed, tier, paths)
            traces += more
            info['model'] = {'module': 'MCBigNum', 'distinct_states': r.distinct, 'transitions': len(paths),
                             'transitions_of_this_property': of, 'replayed_into_the_code': done}
    info['enforced_obligations'] = sorted(OBL[prop])
    texts = [t.text() for t in traces]
    random.Random(seed).shuffle(texts)
    texts.sort(key=lambda t: not t.startswith('T vlong'))      # spread over the shards
    return vlib.traces_stage(work, exe, 'TraceBigNum.tla', OBL[prop], texts, stats, shards_for(tier))


def int_check(prop, work, seed, tier, stats, info):
    units = [(s, []) for s in vlib.library_sources()]
    units += [(os.path.join(vlib.HARNESS, 'it.cpp'), ['-DPART=%d' % i]) for i in range(4)]
    units += [(os.path.join(vlib.HARNESS, 'rt.cpp'), [])]
    exe = vlib.build(work, 'intdriver', units, vlib.ASAN + ['-fsanitize=signed-integer-overflow', '-fno-sanitize-recover=all'])
    texts = [t.text() for t in gen_int.generate(seed, tier)]
    random.Random(seed).shuffle(texts)
    return vlib.traces_stage(work, exe, 'TraceIntType.tla', None, texts, stats, shards_for(tier))


def raw_check(prop, work, seed, tier, stats, info):
    """the magnitude routines, in a normal build and in a BN_DEBUG build"""
    info['enforced_obligations'] = ['raw']
    info['builds'] = ['default', 'BN_DEBUG']
    for name, debug in (('rawdriver', False), ('rawdebug', True)):
        texts = [t.text() for t in gen.generate('C13', seed, tier, debug=debug)]
        random.Random(seed).shuffle(texts)
        texts.sort(key=lambda t: not t.startswith('T vlong'))
        exe = vlib.build_driver(work, ALL, name, ['-DRAW'] + (['-DBN_DEBUG'] if debug else []))
        bad = vlib.traces_stage(work, exe, 'TraceBigNum.tla', {'raw'}, texts, stats, shards_for(tier))
        if bad: return bad


def fft_check(prop, work, seed, tier, stats, info):
    units = [(s, []) for s in vlib.library_sources()] + [(os.path.join(vlib.HARNESS, f), []) for f in ('fft.cpp', 'rt.cpp')]
    exe = vlib.build(work, 'fftdriver', units, vlib.ASAN)
    traces = gen_fft.generate(seed, tier)
    random.Random(seed).shuffle(traces)
    for typ, slack in (('f64', 1), ('f32', 1 << 17)):
        texts = [t.text() for t in traces if t.type == typ]
        bad = vlib.traces_stage(work, exe, 'TraceFourier.tla', slack, texts, stats, shards_for(tier))
        if bad: return bad


def thread_check(prop, work, seed, tier, stats, info):
    schedules = vlib.schedules(work)
    info['schedules_from_specification'] = len(schedules)
    traces = gen_thr.generate(seed, tier, schedules)
    types = sorted({t.type for t in traces})
    units = [(os.path.join(vlib.HARNESS, 't.cpp'), ['-DTYPE_' + t, '-DTHREADS']) for t in types]
    units += [(s, []) for s in vlib.library_sources()]
    units += [(os.path.join(vlib.HARNESS, 'rt.cpp'), ['-DPLAIN_MEMORY']), (os.path.join(vlib.HARNESS, 'tsan.cpp'), [])]
    exe = vlib.build(work, 'thrdriver', units, ['-O1', '-g', '-fsanitize=thread'])
    texts = [t.text() for t in traces]
    random.Random(seed).shuffle(texts)
    return vlib.traces_stage(work, exe, 'TraceThreads.tla', None, texts, stats, shards_for(tier), chance=True)


CHECKS = {p: pool_check for p in OBL}
CHECKS['C12'] = int_check
CHECKS['C03'] = with_giants(pool_check)
for p in ('C02', 'C14', 'C16'): CHECKS[p] = with_debug(CHECKS[p])
CHECKS['C13'] = with_giants(raw_check)
CHECKS['C15'] = fft_check
CHECKS['C17'] = thread_check


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='bnv-%s-' % prop)
    stats, info = vlib.Stats(), {}
    rc = 0
    try:
        if tier == 'thorough': info['specification_models'] = [models.run(work, m) for m in models.FOR.get(prop, [])]
        bad = CHECKS[prop](prop, work, seed, tier, stats, info)
        write_evidence(prop, tier, seed, stats, info, time.time() - t0, 1 if bad else 0)
        if bad:
            rc = 1
            rep = os.path.join(os.environ.get('BN_EVIDENCE') or os.path.join(vlib.VERIF, 'evidence'), 'replay')
            os.makedirs(rep, exist_ok=True)
            path = os.path.join(rep, prop + '.json')
            with open(path, 'w') as f: json.dump(dict(bad, property=prop), f, indent=1)
            print('rejected: %s' % json.dumps({k: bad[k] for k in bad if k in ('type', 'event', 'before', 'trace')})[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        else:
            print('%s: %d traces, %d events, %d states: all explained by the specification (%.0f s)' %
                  (prop, stats.traces, stats.events, stats.states, time.time() - t0))
    except vlib.CheckError as e:
        print('CHECK ERROR: %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if os.environ.get('BN_KEEP'): print('kept', work)
        else: shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def write_evidence(prop, tier, seed, stats, info, wall, violations):
    cov = {'states': stats.states, 'transitions': stats.transitions,
           'traces_validated_against_impl': stats.traces,
           'events': stats.events, 'events_by_call': stats.ops, 'traces_by_type': stats.types,
           'samples': stats.samples or ['none']}
    cov.update(info)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': ['the drivers log calls and results faithfully', 'TLC and the JVM are correct',
                          'executions outside the generated ones are not observed'],
          'wall_s': round(wall, 1), 'violations': violations}
    d = os.environ.get('BN_EVIDENCE') or os.path.join(vlib.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)


if __name__ == '__main__': main()
