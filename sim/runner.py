"""Seeded search, minimisation, replay and evidence.

  check PROP             run the tier's scenarios, exit 0 / 1 (violation) / 2 (harness trouble)
  replay FILE            execute a replay file, exit 1 if the violation in it is reproduced exactly
  determinism [N]        execute the same scenarios in different processes, orders and hash seeds
  one PROP SEED INDEX    execute one scenario verbosely
"""
import copy
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = sys.executable
FLAGS = ['--jit', 'off', '-W', 'ignore', '-B']     # compiled loops deliver trace events differently: off, for exact repetition

# runs per tier; on 8 cores quick takes well under a minute
QUICK = {'C01': 1600, 'C02': 3600, 'C03': 5400, 'C04': 4000, 'C05': 5600, 'C06': 13000, 'C07': 5000, 'C08': 11000, 'C09': 5000,
         'C10': 3200, 'C11': 4400, 'C12': 1800, 'C13': 2000, 'C14': 2800, 'C15': 3600, 'C16': 5200}
THOROUGH_FACTOR = 16
WALL = {'quick': 150, 'thorough': 1500}
STALL = 200         # seconds without a finished run before a worker counts as hung


def real_clock():
    from . import core
    return core.real_time()


# ----------------------------------------------------------------------------------------------------------- worker

def summarise(sim):
    return {'kinds': [v.kind for v in sim.violations], 'message': sim.violations[0].message if sim.violations else None,
            'log': sim.log.hexdigest(), 'sig': sim.sig.hexdigest(), 'steps': sim.steps, 'switches': sim.switches,
            'threads': len(sim.tasks), 'fired': sim.fired, 'probes': sim.probes}


def worker_main(prop, seed, first, stride, count, tier, deadline):
    """Executes scenarios first, first+stride, ... and reports on stdout, one JSON line per batch."""
    from . import worker, core
    ctx = worker.Ctx()
    out = sys.stdout
    agg = None
    done = []
    try:
        last = real_clock()
        index = first
        while index < count:
            out.write(json.dumps({'t': 'start', 'i': index}) + '\n')
            out.flush()
            if agg is None:
                agg = {'t': 'agg', 'runs': 0, 'steps': 0, 'switches': 0, 'fired': {}, 'probes': {}, 'logs': [], 'sigs': [], 'multi': 0,
                       'faulty': 0, 'digests': {}}
            scn = worker.scenario_for(prop, seed, index, tier)
            sim = worker.execute(scn, ctx)
            agg['runs'] += 1
            agg['steps'] += sim.steps
            agg['switches'] += sim.switches
            for k, v in sim.fired.items():
                agg['fired'][k] = agg['fired'].get(k, 0) + v
            for k, v in sim.probes.items():
                agg['probes'][k] = agg['probes'].get(k, 0) + v
            log = sim.log.hexdigest()
            nontrivial = bool(sim.switches or sim.fired or sum(len(t['ops']) for t in scn['tasks']) > 1)
            if nontrivial:
                agg['logs'].append(log[:12] + sim.sig.hexdigest()[:8])
            if sim.switches:
                agg['multi'] += 1
                agg['sigs'].append(sim.sig.hexdigest()[:12])
            if sim.fired:
                agg['faulty'] += 1
            if index < 16:
                agg['digests'][index] = log
            if sim.violations:
                v = sim.violations[0]
                out.write(json.dumps(agg) + '\n')
                out.write(json.dumps({'t': 'violation', 'i': index, 'kind': v.kind, 'message': v.message, 'prefix': done}) + '\n')
                out.flush()
                return
            done.append(index)
            now = real_clock()
            if now - last > 2:
                out.write(json.dumps(agg) + '\n')
                out.flush()
                agg = None
                last = now
                if now > deadline:
                    out.write(json.dumps({'t': 'deadline'}) + '\n')
                    break
            index += stride
        if agg is not None:
            out.write(json.dumps(agg) + '\n')
        out.write(json.dumps({'t': 'end'}) + '\n')
        out.flush()
    finally:
        ctx.close()


def digests_main(prop, seed, indices, tier):
    from . import worker
    ctx = worker.Ctx()
    try:
        print(json.dumps(dict((i, worker.execute(worker.scenario_for(prop, seed, i, tier), ctx).log.hexdigest()) for i in indices)))
    finally:
        ctx.close()


# ------------------------------------------------------------------------------------------------------- minimising

def attempt(scn, ctx, kind):
    """The run if it shows a violation of this kind, else None."""
    from . import worker
    try:
        sim = worker.execute(copy.deepcopy(scn), ctx)
    except Exception:
        return None
    if sim.violations and sim.violations[0].kind == kind:
        return sim
    return None


def variants(scn):
    """Simpler scenarios, most drastic first."""
    def edit(f):
        s = copy.deepcopy(scn)
        f(s)
        return s
    tasks = scn['tasks']
    if len(tasks) > 1:
        for t in range(len(tasks)):
            yield edit(lambda s: s['tasks'].pop(t))
    for t in range(len(tasks)):
        n = len(tasks[t]['ops'])
        size = n
        while size >= 1:
            for start in range(0, n, size):
                if size < n or len(tasks) > 1:
                    def cut(s):
                        del s['tasks'][t]['ops'][start:start + size]
                    yield edit(cut)
            size //= 2
    for t in range(len(tasks)):
        for i, op in enumerate(tasks[t]['ops']):
            if 'int' in op:
                yield edit(lambda s: s['tasks'][t]['ops'][i].pop('int'))
            if op.get('faults'):
                yield edit(lambda s: s['tasks'][t]['ops'][i].pop('faults'))
            if isinstance(op.get('kw'), dict):
                for k in sorted(op['kw']):
                    yield edit(lambda s: s['tasks'][t]['ops'][i]['kw'].pop(k))
        if 'prec' in tasks[t]:
            yield edit(lambda s: s['tasks'][t].pop('prec'))
    if isinstance(scn.get('faults'), list):
        for i in range(len(scn['faults'])):
            yield edit(lambda s: s['faults'].pop(i))
    if isinstance(scn.get('pre'), list):
        for i in range(len(scn['pre'])):
            yield edit(lambda s: s['pre'].pop(i))
    if isinstance(scn.get('files'), list):
        for i in range(len(scn['files'])):
            yield edit(lambda s: s['files'].pop(i))
    conf = scn.get('fs') or {}
    for k, v in (('chunk', None), ('buf', None), ('locale', 'utf-8'), ('listing', 'sorted')):
        if k in conf and conf[k] != v:
            yield edit(lambda s: s['fs'].__setitem__(k, v))
    if scn.get('gran') == 'opcode':
        yield edit(lambda s: s.__setitem__('gran', 'line'))


def shrink(scn, ctx, kind, budget):
    end = real_clock() + budget
    best = attempt(scn, ctx, kind)
    if best is None:
        return None, None
    tried = 0
    improved = True
    while improved and real_clock() < end:
        improved = False
        for cand in variants(scn):
            if real_clock() > end:
                break
            tried += 1
            sim = attempt(cand, ctx, kind)
            if sim is None and 'seed' in cand.get('sched', {}) and best.switches and len(cand['tasks']) > 1:
                # removing work shifts the schedule: try a few others for the smaller scenario
                for k in range(3):
                    alt = copy.deepcopy(cand)
                    alt['sched']['seed'] = cand['sched']['seed'] + k + 1
                    sim = attempt(alt, ctx, kind)
                    if sim is not None:
                        cand = alt
                        break
            if sim is not None:
                scn, best, improved = cand, sim, True
                break
    # the schedule as an explicit list of switches, then as few of them as possible
    if 'points' not in scn.get('sched', {}):
        cand = copy.deepcopy(scn)
        cand['sched'] = {'points': [list(p) for p in best.points]}
        sim = attempt(cand, ctx, kind)
        if sim is not None:
            scn, best = cand, sim
    if 'points' in scn.get('sched', {}):
        size = max(1, len(scn['sched']['points']))
        while size >= 1 and real_clock() < end:
            start, pts = 0, scn['sched']['points']
            while start < len(pts) and real_clock() < end:
                cand = copy.deepcopy(scn)
                cand['sched'] = {'points': pts[:start] + pts[start + size:]}
                sim = attempt(cand, ctx, kind)
                if sim is not None:
                    scn, best, pts = cand, sim, cand['sched']['points']
                else:
                    start += size
            size //= 2
    return scn, best


def minimise_main(prop, seed, index, tier, kind, prefix, path, budget):
    """Write the replay file; prints the outcome."""
    from . import worker
    ctx = worker.Ctx()
    try:
        scn = worker.scenario_for(prop, seed, index, tier)
        small, sim = shrink(scn, ctx, kind, budget)
        used = []
        if small is None:
            # depends on what ran earlier in the same process: find how much of it is needed
            n = 1
            while small is None and prefix:
                used = prefix[-n:]
                for i in used:
                    worker.execute(worker.scenario_for(prop, seed, i, tier), ctx)
                sim = attempt(scn, ctx, kind)
                if sim is not None:
                    small = scn
                if n >= len(prefix):
                    break
                n *= 4
        if small is None:
            print(json.dumps({'ok': False}))
            return
        v = sim.violations[0]
        with open(path, 'w') as f:
            json.dump({'property': prop, 'kind': v.kind, 'message': v.message, 'seed': seed, 'index': index, 'tier': tier,
                       'thread': v.task, 'operation': v.op, 'log': sim.log.hexdigest(), 'steps': sim.steps,
                       'switches': sim.points, 'faults': sim.fired,
                       'trace': [list(x) for x in sim.trail[-200:]], 'prefix': used, 'scenario': small,
                       'replay_command': 'bin/replay <this file>'}, f, indent=1, sort_keys=True)
            f.write('\n')
        print(json.dumps({'ok': True, 'kind': v.kind, 'message': v.message}))
    finally:
        ctx.close()


def replay_main(path, quiet=False):
    from . import worker
    with open(path) as f:
        rep = json.load(f)
    ctx = worker.Ctx()
    try:
        for i in rep.get('prefix', ()):
            worker.execute(worker.scenario_for(rep['property'], rep['seed'], i, rep['tier']), ctx)
        sim = worker.execute(rep['scenario'], ctx)
    finally:
        ctx.close()
    same = bool(sim.violations) and sim.violations[0].kind == rep['kind'] and sim.log.hexdigest() == rep['log']
    if not quiet:
        for task, op, text in sim.trail:
            print('  thread %s op %s: %s' % (task, op, text))
        for v in sim.violations:
            print('%s: %s' % (v.kind, v.message))
        print('reproduced exactly' if same else 'violation, but not the recorded one' if sim.violations else 'no violation')
    if same and quiet is False:
        print('VIOLATION property=%s replay=%s' % (rep['property'], os.path.abspath(path)))
    return 1 if same else 3 if sim.violations else 0


# ------------------------------------------------------------------------------------------------------------ check

def sub(args, env=None, **kw):
    e = dict(os.environ)
    e['LC_ALL'] = 'C.UTF-8'
    e.update(env or {})
    return subprocess.Popen([PYTHON] + FLAGS + [os.path.join(HERE, 'run.py')] + [str(a) for a in args], env=e,
                            stdin=subprocess.DEVNULL, universal_newlines=True, cwd=HERE, **kw)


def known_findings(prop):
    """Lines 'known: property=<id> kind=<violation kind> match=<regular expression>  # what fails'."""
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) kind=(\S+) match=(.*?)(?:\s+# (.*))?$', line.strip())
                if m and m.group(1) == prop:
                    out.append((m.group(2), re.compile(m.group(3)), m.group(4) or m.group(3)))
    except OSError:
        pass
    return out


def check(prop, tier, seed):
    import threading
    t0 = time.time()
    total = QUICK[prop] * (THOROUGH_FACTOR if tier == 'thorough' else 1)
    if os.environ.get('VERIF_RUNS'):
        total = int(os.environ['VERIF_RUNS'])
    try:
        cores = len(os.sched_getaffinity(0))
    except AttributeError:
        cores = os.cpu_count() or 2
    n = max(1, min(int(os.environ.get('VERIF_WORKERS', cores)), 16, total))
    deadline = t0 + WALL[tier]
    state = {'runs': 0, 'steps': 0, 'switches': 0, 'multi': 0, 'faulty': 0, 'fired': {}, 'probes': {}, 'logs': set(), 'sigs': set(),
             'digests': {}, 'violations': [], 'ended': 0, 'deadline': 0}
    lock = threading.Lock()
    procs = []

    def reader(k, p):
        for line in p.stdout:
            try:
                m = json.loads(line)
            except ValueError:
                continue
            with lock:
                state['beat%d' % k] = time.time()
                if m['t'] == 'start':
                    state['at%d' % k] = m['i']
                elif m['t'] == 'agg':
                    for key in ('runs', 'steps', 'switches', 'multi', 'faulty'):
                        state[key] += m[key]
                    for key in ('fired', 'probes'):
                        for a, b in m[key].items():
                            state[key][a] = state[key].get(a, 0) + b
                    state['logs'].update(m['logs'])
                    state['sigs'].update(m['sigs'])
                    state['digests'].update(m['digests'])
                elif m['t'] == 'violation':
                    state['violations'].append(m)
                elif m['t'] == 'deadline':
                    state['deadline'] += 1
                elif m['t'] == 'end':
                    state['ended'] += 1
        p.wait()

    errs = []
    threads = []
    for k in range(n):
        err = tempfile.TemporaryFile(mode='w+')
        p = sub(['worker', prop, seed, k, n, total, tier, deadline], stdout=subprocess.PIPE, stderr=err)
        procs.append(p)
        errs.append(err)
        state['beat%d' % k] = time.time()
        th = threading.Thread(target=reader, args=(k, p))
        th.daemon = True
        th.start()
        threads.append(th)
    hung = None
    seen = None
    while any(th.is_alive() for th in threads):
        time.sleep(0.05)
        now = time.time()
        with lock:
            if state['violations'] and seen is None:
                seen = now
            for k, th in enumerate(threads):
                if th.is_alive() and now - state['beat%d' % k] > STALL and hung is None:
                    hung = (k, state.get('at%d' % k))
        if hung is not None or (seen is not None and now - seen > 3):
            for p in procs:
                if p.poll() is None:
                    p.kill()
    for th in threads:
        th.join(5)
    wall_search = time.time() - t0
    trouble = []
    if not state['violations'] and hung is None:
        for k, p in enumerate(procs):
            if p.returncode != 0:
                errs[k].seek(0)
                trouble.append('worker %d ended with %s: %s' % (k, p.returncode, errs[k].read()[-3000:]))
    status = 0
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    reported = 0
    suppressed = 0
    known = known_findings(prop)
    for m in sorted(state['violations'], key=lambda m: m['i']):
        hit = [k for k in known if k[0] == m['kind'] and k[1].search(m['message'])]
        if hit:
            suppressed += 1
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][2]))
            continue
        if reported:
            continue
        path = os.path.join(HERE, 'replays', '%s-%s-%d.json' % (prop, seed, m['i']))
        p = sub(['minimise', prop, seed, m['i'], tier, m['kind'], json.dumps(m['prefix']), path, 40], stdout=subprocess.PIPE)
        try:
            text, _ = p.communicate(timeout=400)
            res = json.loads(text.strip().splitlines()[-1])
        except (subprocess.TimeoutExpired, ValueError, IndexError):
            p.kill()
            res = {'ok': False}
        if res.get('ok'):
            r = sub(['replay', path], stdout=subprocess.PIPE)
            try:
                text, _ = r.communicate(timeout=400)
                confirmed = r.returncode == 1
            except subprocess.TimeoutExpired:
                r.kill()
                confirmed = False
        else:
            confirmed = False
        print('seed %s index %d: %s: %s' % (seed, m['i'], m['kind'], m['message']))
        if res.get('ok'):
            print('minimised: %s' % res['message'])
        if not confirmed:
            # still a violation that was seen; the file says how to repeat the search that showed it
            if not res.get('ok'):
                with open(path, 'w') as f:
                    json.dump({'property': prop, 'kind': m['kind'], 'message': m['message'], 'seed': seed, 'index': m['i'], 'tier': tier,
                               'prefix': m['prefix'], 'log': None, 'scenario': scenario_json(prop, seed, m['i'], tier)}, f, indent=1)
            print('note: the violation did not repeat exactly in a fresh process')
        print('VIOLATION property=%s replay=%s' % (prop, path))
        reported += 1
        status = 1
    if hung is not None and not state['violations']:
        k, index = hung
        path = os.path.join(HERE, 'replays', '%s-%s-%s-hang.json' % (prop, seed, index))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'kind': 'hang', 'message': 'no result', 'seed': seed, 'index': index, 'tier': tier, 'prefix': [],
                       'log': None, 'scenario': scenario_json(prop, seed, index, tier)}, f, indent=1)
        r = sub(['replay', path], stdout=subprocess.DEVNULL)
        try:
            r.wait(timeout=STALL)
            trouble.append('worker %d made no progress for %d s at index %s, but the scenario ends alone' % (k, STALL, index))
        except subprocess.TimeoutExpired:
            r.kill()
            print('seed %s index %s: hang: a call never returned' % (seed, index))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            status, reported = 1, 1
    # the same seeds in another process, in the reverse order, under another hash seed
    determinism = None
    if status == 0 and not trouble:
        idx = sorted(int(i) for i in state['digests'])
        p = sub(['digests', prop, seed, json.dumps(idx[::-1]), tier], stdout=subprocess.PIPE, env={'PYTHONHASHSEED': '12345'})
        try:
            text, _ = p.communicate(timeout=300)
            again = json.loads(text.strip().splitlines()[-1])
            bad = [i for i in idx if again.get(str(i)) != state['digests'].get(str(i))]
            determinism = {'repeated': len(idx), 'different': len(bad)}
            if bad:
                print('note: scenarios %s of %s did not repeat exactly' % (bad, prop))
        except (subprocess.TimeoutExpired, ValueError, IndexError):
            p.kill()
            determinism = {'repeated': 0, 'different': 0}
    wall = time.time() - t0
    write_evidence(prop, tier, seed, state, wall, wall_search, n, total, reported, suppressed, determinism)
    for e in errs:
        e.close()
    if trouble and status == 0:
        for t in trouble:
            sys.stderr.write(t + '\n')
        return 2
    print('%s %s: %d runs (%d distinct), %d steps, %d switches, %d injected events, %.0f s: %s' % (
        prop, tier, state['runs'], len(state['logs']), state['steps'], state['switches'], sum(state['fired'].values()), wall,
        'held' if status == 0 else 'VIOLATED'))
    return status


def scenario_json(prop, seed, index, tier):
    from . import worker
    if not worker.PROPS:
        worker.register()
    return worker.scenario_for(prop, seed, index, tier)


RULE = ('a run = one scenario drawn from (seed, property, index): fresh process image of the package, 1-4 caller threads with their '
        'operations, a schedule seed and granularity, faults and their positions; every line or bytecode of the package is a '
        'scheduling point. Counted as non-trivial: more than one operation, or at least one thread switch, or at least one '
        'injected event; distinct by digest of (schedule decisions, operations with their outcomes and step numbers).')


def write_evidence(prop, tier, seed, state, wall, wall_search, workers, total, violations, suppressed, determinism):
    from .about import ABOUT
    samples = []
    for i in range(3):
        try:
            scn = scenario_json(prop, seed, i, tier)
            text = json.dumps(scn, sort_keys=True)
            samples.append(scn if len(text) < 3000 else text[:3000] + '...')
        except Exception as e:
            samples.append('scenario %d: %r' % (i, e))
    fault_kinds = dict(sorted(state['fired'].items()))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': state['runs'],
            'distinct_nontrivial': len(state['logs']),
            'rule': RULE,
            'samples': samples,
            'runs_planned': total,
            'runs_and_seeds_per_hour': int(state['runs'] * 3600 / max(wall_search, 0.001)),
            'simulated_steps': state['steps'],
            'simulated_seconds': round(state['steps'] * 0.001, 3),
            'simulated_time_note': 'the simulated clock advances 1 ms per executed line/bytecode or I/O transfer; the package has no timers',
            'thread_switches': state['switches'],
            'runs_with_thread_switches': state['multi'],
            'distinct_interleavings': len(state['sigs']),
            'distinct_interleavings_measure': 'distinct sequences of (running thread, operation, source line, next thread) over all runs with a switch',
            'runs_with_injected_events': state['faulty'],
            'injected': fault_kinds,
            'checked': dict(sorted(state['probes'].items())),
            'determinism': determinism,
            'workers': workers,
            'stopped_by_wall_clock': bool(state['deadline']),
            'known_findings_seen': suppressed,
            'real_code': ABOUT['real'],
            'stubs': ABOUT['stubs'],
        },
        'assumptions': ABOUT['assumptions'],
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(path + '.tmp', path)


def determinism_main(count):
    """Each property: the first scenarios, in two processes with different hash seeds and orders."""
    bad = 0
    for prop in sorted(QUICK):
        outs = []
        for order, hs in ((list(range(count)), '0'), (list(range(count))[::-1], '4242')):
            outs.append(sub(['digests', prop, 77, json.dumps(order), 'quick'], stdout=subprocess.PIPE, env={'PYTHONHASHSEED': hs}))
        a, b = [json.loads(p.communicate()[0].strip().splitlines()[-1]) for p in outs]
        diff = [i for i in a if a[i] != b[i]]
        print('%s: %d scenarios twice, %d different %s' % (prop, len(a), len(diff), diff[:5]))
        bad += len(diff)
    return 1 if bad else 0


def one_main(prop, seed, index, tier='quick'):
    from . import worker
    ctx = worker.Ctx()
    try:
        scn = worker.scenario_for(prop, seed, index, tier)
        print(json.dumps(scn, indent=1, sort_keys=True))
        sim = worker.execute(scn, ctx)
        for t in sim.trail:
            print(t)
        print(json.dumps(summarise(sim), indent=1, sort_keys=True))
    finally:
        ctx.close()
    return 0


def main(argv):
    cmd = argv[0]
    if cmd == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in argv:
            tier = argv[argv.index('--tier') + 1]
        if tier not in WALL:
            tier = 'quick'
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
        return check(argv[1], tier, seed)
    if cmd == 'worker':
        worker_main(argv[1], int(argv[2]), int(argv[3]), int(argv[4]), int(argv[5]), argv[6], float(argv[7]))
        return 0
    if cmd == 'minimise':
        minimise_main(argv[1], int(argv[2]), int(argv[3]), argv[4], argv[5], json.loads(argv[6]), argv[7], float(argv[8]))
        return 0
    if cmd == 'digests':
        digests_main(argv[1], int(argv[2]), json.loads(argv[3]), argv[4])
        return 0
    if cmd == 'replay':
        return replay_main(argv[1])
    if cmd == 'determinism':
        return determinism_main(int(argv[1]) if len(argv) > 1 else 40)
    if cmd == 'one':
        return one_main(argv[1], int(argv[2]), int(argv[3]), *argv[4:5])
    sys.stderr.write(__doc__)
    return 2
