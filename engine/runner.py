"""Runs the contract harnesses of one property and writes evidence."""
import os, sys, time, json, re, subprocess, tempfile, shutil, multiprocessing as mp, traceback, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import VERIF, REPO, BuildError

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
EVID = os.path.join(VERIF, 'evidence')
ASAN = {'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=0:handle_abort=0:exitcode=1'}

class Task:
    """one harness of one unit"""
    def __init__(self, unit, name, opts):
        self.unit = unit; self.name = name; self.opts = opts

def _limits(gb):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))

def run_bv(mod, name, opts):
    """SIMD mode"""
    import execb
    return run_mode(execb.Machine, (execb.ToolLimit,), mod, name, opts)

def run_int(mod, name, opts):
    """integer mode VC generation for one harness; returns a result dict"""
    import execi, sym
    return run_mode(execi.Machine, (sym.ToolLimit,), mod, name, opts)

def run_mode(Machine, limits, mod, name, opts):
    t = time.time()
    o = dict(opts)
    if o.get('time'): o['deadline'] = t + o['time']
    ex = Machine(mod, o)
    res = {'harness': name, 'status': 'proved', 'limit': None, 'bounded': o.get('bound') is not None}
    try:
        ends = ex.run_harness('@' + name)
        if getattr(ex, 'soft', None): res['status'] = 'limit'; res['limit'] = ex.soft
    except limits as e:
        res['status'] = 'limit'; res['limit'] = str(e)[:600]
    except RecursionError as e:
        res['status'] = 'limit'; res['limit'] = 'recursion'
    except MemoryError:
        res['status'] = 'limit'; res['limit'] = 'memory'
    except Exception as e:
        if o.get('debug'): raise
        res['status'] = 'limit'; res['limit'] = 'internal: ' + ''.join(traceback.format_exception_only(type(e), e))[:300]
        res['trace'] = traceback.format_exc()[-1500:]
    how = {}
    ref = []; unk = []
    labels = {}
    for ob in ex.obls:
        labels.setdefault(ob.label, [0, 0])
        labels[ob.label][0] += 1
        if ob.status == 'discharged':
            how[ob.how] = how.get(ob.how, 0) + 1; labels[ob.label][1] += 1
        elif ob.status == 'refuted':
            ref.append({'label': ob.label, 'kind': ob.kind, 'inputs': [[a, b, c] for a, b, c in ob.inputs], 'goal': ob.goal, 'path': ob.pc})
        else: unk.append(ob.label)
    if res['status'] != 'limit' or ref:
        if ref: res['status'] = 'refuted'
        elif unk and res['status'] == 'proved': res['status'] = 'limit'; res['limit'] = 'solver gave no answer: ' + unk[0]
    res.update(obligations=len(ex.obls), discharged=sum(how.values()), how=how, refuted=ref[:6], unknown=unk, labels=labels,
               paths=ex.stats['paths'], queries=ex.stats['queries'], solver_s=round(ex.stats['time'], 3), loops=ex.stats['loops'],
               covers=sorted(ex.covers), assumed=sorted(ex.assumed), wall=round(time.time() - t, 2), steps=ex.steps,
               bounded_cuts=ex.stats.get('bounded', 0))
    if o.get('dump') is not None: res['dump'] = o['dump']
    return res

def _worker(fn, args, conn, gb):
    try:
        _limits(gb)
        sys.setrecursionlimit(20000)
        r = fn(*args)
    except BaseException as e:
        r = {'status': 'limit', 'limit': 'crash: %r' % (e,), 'trace': traceback.format_exc()[-1500:]}
    try:
        conn.send(r)
    except Exception as e:
        conn.send({'status': 'limit', 'limit': 'result: %r' % (e,)})
    conn.close()
    os._exit(0)

def parallel(jobs, jobs_max=JOBS, gb=12, until=None):
    """jobs: [(key, fn, args, timeout)] -> {key: result}; each in its own process; what is not finished at time until is given up"""
    ctx = mp.get_context('fork')
    out = {}; run = {}
    todo = list(jobs)
    while todo or run:
        if until and time.time() > until:
            for key, (p, a, t0, to) in run.items():
                p.kill(); p.join(); out[key] = {'status': 'limit', 'limit': 'time'}
            for key, fn, args, to in todo: out[key] = {'status': 'limit', 'limit': 'time (not started)'}
            return out
        while todo and len(run) < jobs_max:
            key, fn, args, to = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(fn, args, b, gb))
            p.start(); b.close()
            run[key] = (p, a, time.time(), to)
        done = []
        for key, (p, a, t0, to) in run.items():
            if a.poll(0.01):
                try: out[key] = a.recv()
                except EOFError: out[key] = {'status': 'limit', 'limit': 'worker died'}
                p.join(); done.append(key)
            elif not p.is_alive():
                out[key] = {'status': 'limit', 'limit': 'worker died'}; done.append(key)
            elif to and time.time() - t0 > to + 30:
                p.kill(); p.join(); out[key] = {'status': 'limit', 'limit': 'time'}; done.append(key)
        for k in done: run.pop(k)
        if not done: time.sleep(0.01)
    return out
