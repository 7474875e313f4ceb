#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current working tree.

Every harness of the property is compiled together with the real library
headers, turned into verification conditions and discharged (see DESIGN.md).
exit 0: every obligation discharged (or, for harnesses outside the prover's
reach on this tree, the bounded stand-in found nothing); exit 1: VIOLATION
line(s); exit 2: no answer (build failure, internal error)."""
import os, sys, time, json, re, subprocess, shutil, tempfile, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, ir, runner, props
from build import VERIF, REPO, BuildError
from runner import SEED, JOBS, EVID

T0 = time.time()
def left(total): return total - (time.time() - T0)

def covers_of(src, name):
    """cover labels in the harness's own body (those of helpers it shares with others are not required)"""
    txt = open(src).read()
    m = re.search(r'^VC_HARNESS\(%s\)' % name, txt, re.M)
    if not m: return set()
    i = txt.index('{', m.end()); d = 0; j = i
    while True:
        if txt[j] == '{': d += 1
        elif txt[j] == '}':
            d -= 1
            if d == 0: break
        j += 1
    return set(re.findall(r'vc_cover\("([^"]*)"\)', txt[i:j]))

def build_text(src, name):
    """text of the harness, or of the template it instantiates"""
    txt = open(src).read()
    for n, a, b in build.bodies(txt):
        if n == name: return txt[a:b]
    f = re.sub(r'_(float|double|int)_\d+$', '', name)
    m = re.search(r'^void %s\(\)' % f, txt, re.M)
    if not m: return ''
    return txt[m.start():txt.index('\n}', m.end())]

def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^known: property=(\S+) harness=(\S+) obligation="([^"]*)" (.*)', l)
            if m: out.append(m.groups())
    return out

class Check:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier
        self.cfg = props.PROPS[prop]
        self.total = 820 if tier == 'quick' else 6 * 3600
        self.work = tempfile.mkdtemp(prefix='vc_%s_' % prop)
        self.units = []
        for u in self.cfg['units']:
            if u.get('thorough') and tier != 'thorough': continue
            self.units.append(dict(u))
        self.results = []
        self.viol = []
        self.known = []
        self.native = {}
        self.log = []

    # ---- build
    def prepare(self, i):
        u = self.units[i]
        u['path'] = os.path.join(build.HARNESS, u['src'])
        names = build.harness_names(u['path'])
        u['all'] = names
        u['names'] = [n for n in names if u.get('only') is None or n in u['only']]
        if u.get('prefix'): u['names'] = [n for n in u['names'] if n.startswith(u['prefix'])]
        if self.tier == 'quick': u['names'] = [n for n in u['names'] if n not in u.get('thorough_only', ())]
        out = os.path.join(self.work, 'u%d' % i)
        u['source'] = u['path']
        fl = u.get('flags', ('-march=x86-64-v2',))
        try: self.to_ir(u, out, names)
        except BuildError as e:
            names = self.compiling(u, out, names, fl)
            if not names: raise e
            u['all'] = names; u['names'] = [n for n in u['names'] if n in names]
            self.to_ir(u, out, names)
        return
    def compiling(self, u, out, names, fl):
        """the harnesses which compile one by one; the others are reported"""
        txt = open(u['path']).read()
        def one(n):
            f = '%s.%s.cpp' % (out, n)
            open(f, 'w').write(build.slice_unit(txt, [n]))
            try:
                ok, err = build.compiles(f, fl)
                if ok: return n, True, ''
                ok, err2 = build.compiles(f, [x for x in fl if x != '-DVC_GNUC'], gcc=True)
                return n, False, None if ok else err[-3000:]
            except subprocess.TimeoutExpired: return n, False, None
            finally: os.unlink(f)
        with ThreadPoolExecutor(JOBS) as ex: rs = list(ex.map(one, names))
        good = [n for n, ok, e in rs if ok]
        u['broken'] = [(n, e) for n, ok, e in rs if not ok and n in u['names']]
        u['path'] = out + '.slice.cpp'
        open(u['path'], 'w').write(build.slice_unit(txt, good))
        return good
    def not_compiling(self):
        """a harness uses the documented interface only: client code like it no longer compiles"""
        rep = 0
        for i, u in enumerate(self.units):
            for n, err in u.get('broken', ()):
                r = {'status': 'refuted', 'harness': n, 'unit': u['src'], 'flags': ' '.join(u.get('flags', ('-march=x86-64-v2',))), 'limit': 'does not compile', 'refuted': []}
                if err is None or re.search(r'detail::', build_text(u['source'], n)):
                    r['status'] = 'bounded'; r['limit'] = 'not compiled: ' + ('clang only' if err is None else 'uses internals of the library')
                elif self.viol and not rep: self.log.append('does not compile: %s (%s)' % (n, r['flags']))
                elif rep < 3:
                    rep += 1
                    self.report(i, n, r, [{'label': 'client code compiles', 'kind': 'build', 'inputs': [], 'goal': err}], None, [])
                self.results.append((i, n, r))

    def to_ir(self, u, out, names):
        opt, raw = build.ir_for(u['path'], out, flags=u.get('flags', ('-march=x86-64-v2',)), names=names,
                                keep_alloc=u.get('keep_alloc', True), passes=u.get('passes'))
        u['opt'] = opt
        u['functions'] = build.contract_functions(raw, u['names'])

    def run(self):
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(self.prepare, range(len(self.units))))
        jobs = []
        dump = self.tier == 'thorough'
        lim = self.cfg.get('time', 300) if self.tier == 'quick' else 3000
        for i, u in enumerate(self.units):
            u['mod'] = ir.parse_module(u['opt'])
            for n in u['names']:
                o = dict(u.get('opts', {}))
                o['time'] = lim
                if dump: o['dump'] = []; o['dumpmax'] = 300
                fn = runner.run_bv if u.get('mode') == 'bv' else runner.run_int
                jobs.append(((i, n), fn, (u['mod'], n, o), lim))
        slow = self.cfg.get('slow', [])
        jobs.sort(key=lambda j: (0 if j[0][1] in slow else 1))
        res = runner.parallel(jobs, until=T0 + 0.68 * self.total)
        self.tbuild = time.time() - T0
        for key, r in res.items():
            i, n = key
            u = self.units[i]
            r['unit'] = u['src']; r['flags'] = ' '.join(u.get('flags', ('-march=x86-64-v2',))); r['harness'] = n
            if r['status'] == 'proved':
                missing = covers_of(u['path'], n) - set(r.get('covers', ()))
                if missing: r['status'] = 'limit'; r['limit'] = 'not reached on any path: ' + ', '.join(sorted(missing))
                if not r.get('covers'): r['status'] = 'limit'; r['limit'] = 'no end of the harness reached on any path'
                if not r.get('obligations'): r['status'] = 'limit'; r['limit'] = 'no obligation generated'
            self.results.append((i, n, r))
        self.results.sort(key=lambda x: (x[0], x[1]))
        bad = [x for x in self.results if x[2]['status'] != 'proved']
        ref = [x for x in bad if x[2]['status'] == 'refuted']
        lims = [x for x in bad if x[2]['status'] == 'limit']
        for i, n, r in ref[:6]: self.refuted(i, n, r)
        if len(ref) > 6: self.log.append('%d more harnesses with refuted obligations' % (len(ref) - 6))
        if lims: self.limits(lims)
        self.not_compiling()
        if self.tier == 'thorough': self.deeper()
        return self.finish()

    # ---- counterexamples
    def exe(self, i):
        if i not in self.native:
            u = self.units[i]
            out = os.path.join(self.work, 'native%d' % i)
            fl = u.get('native_flags', u.get('flags', ('-march=x86-64-v2',)))
            try: self.native[i] = build.native(u['path'], out, u['all'], flags=fl)
            except (BuildError, subprocess.TimeoutExpired) as e:
                self.log.append('native build: %s' % str(e)[-400:]); self.native[i] = None
        return self.native[i]
    def nat(self, i, args, to):
        x = self.exe(i)
        if x is None or not runnable(self.units[i].get('flags', ())): return 3, 'native run not possible'
        try:
            p = subprocess.run([x] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to, env=dict(os.environ, **runner.ASAN), cwd=self.work)
            return p.returncode, p.stdout.decode('utf8', 'replace')[-2000:]
        except subprocess.TimeoutExpired: return 3, 'timeout'
    def refuted(self, i, n, r):
        hit = None
        tried = []
        for ob in r['refuted']:
            vals = ['%s=%d' % (a, b) for a, b, c in ob['inputs']]
            if tried and left(self.total) < 90: break
            for seed in ((1, 77) if len(r['refuted']) < 4 else (1,)):
                rc, out = self.nat(i, [n, str(seed)] + vals, 60)
                tried.append('replay %s seed %d: %s' % (' '.join(vals), seed, out.strip()[:300]))
                if rc == 1: hit = (ob, vals, seed, out.strip()); break
            if hit: break
        if not hit and not self.units[i].get('nosweep') and left(self.total) > 90:
            rc, out = self.nat(i, [n, '--sweep', str(SEED), '20'], 60)
            tried.append('sweep: ' + out.strip()[:600])
            if rc == 1: hit = (r['refuted'][0], [], SEED, out.strip())
        self.report(i, n, r, r['refuted'], hit, tried)
    def report(self, i, n, r, obls, hit, tried):
        lab = obls[0]['label'] if obls else (hit[3] if hit else '?')
        for (p, h, o, what) in known_findings():
            if p == self.prop and h == n and all(x['label'] == o for x in obls):
                self.known.append(what); print('KNOWN-FINDING: property=%s %s' % (p, what)); return
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d.txt' % (self.prop, n, i))
        with open(path, 'w') as f:
            f.write('property %s, contract harness %s in harness/%s (%s)\n' % (self.prop, n, self.units[i]['src'], r.get('flags')))
            f.write('prover status: %s %s\n' % (r['status'], r.get('limit') or ''))
            if hit:
                f.write('\nfailing input reproduced on the real code: %s\n%s\n' % (' '.join(hit[1]), hit[3]))
                f.write('rerun: python3-vt %s/engine/replay.py %s %s %s %s\n' % (VERIF, self.prop, n, hit[2], ' '.join(hit[1])))
            else: f.write('\nno failing input found: the counterexample of the prover did not reproduce natively\n')
            for ob in obls:
                f.write('\nfailed obligation: %s (%s)\n  counterexample: %s\n  goal: %s\n  path condition:\n' % (
                    ob['label'], ob['kind'], ' '.join('%s=%s' % (a, b) for a, b, c in ob['inputs']), ob['goal']))
                for x in ob.get('path', ()): f.write('    %s\n' % x)
            f.write('\nnative runs:\n' + '\n'.join(tried) + '\n')
        self.viol.append((n, lab))
        print('failed obligation: %s / %s' % (n, lab))
        print('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if hit else ' no-failing-input-found'))
    # ---- outside the prover's reach on this tree: bounded stand-in
    def limits(self, lims):
        jobs = []
        rem = left(self.total) - 60
        for i, n, r in lims:
            u = self.units[i]
            if u.get('mode') == 'bv': continue
            o = dict(u.get('opts', {}))
            o['bound'] = u.get('bound', 3); o['time'] = max(20, min(120, rem / 3))
            jobs.append(((i, n), runner.run_int, (u['mod'], n, o), o['time']))
        res = runner.parallel(jobs, until=time.time() + max(10, min(160, left(self.total) - 130)))
        todo = []
        for i, n, r in lims:
            b = res.get((i, n))
            r['standin'] = {}
            if b is not None:
                r['standin']['bounded_prover'] = {k: b.get(k) for k in ('status', 'limit', 'obligations', 'discharged', 'bounded_cuts')}
                if b['status'] == 'refuted':
                    r['status'] = 'refuted'; r['refuted'] = b['refuted']; r['flags'] = r.get('flags')
                    self.refuted(i, n, r)
                    continue
            todo.append((i, n, r))
        for i in sorted({x[0] for x in todo}): self.exe(i)
        secs = max(5, min(60, (left(self.total) - 40) / max(1, (len(todo) + JOBS - 1) // JOBS) - 10))
        with ThreadPoolExecutor(JOBS) as ex:
            outs = list(ex.map(lambda x: self.nat(x[0], [x[1], '--sweep', str(SEED), str(int(secs))], secs + 60), todo))
        for (i, n, r), (rc, out) in zip(todo, outs):
            r['standin']['native_sweep'] = out.strip()[:400]
            if rc == 1:
                r['status'] = 'refuted'
                self.report(i, n, r, r.get('refuted') or [], (None, [], SEED, out.strip()), [out.strip()])
            else: r['status'] = 'bounded'
    # ---- thorough: second solver on the discharged obligations, native cross-check
    def deeper(self):
        dumps = []
        for i, n, r in self.results:
            for lab, txt in r.pop('dump', None) or (): dumps.append((i, n, lab, txt))
        self.cvc5 = {'obligations': len(dumps), 'confirmed': 0, 'unknown': 0, 'skipped (time)': 0, 'disagree': 0}
        t1 = time.time() + 1200
        def one(k):
            i, n, lab, txt = dumps[k]
            if time.time() > t1: return 'skipped'
            f = os.path.join(self.work, 'q%d.smt2' % k)
            open(f, 'w').write('(set-logic ALL)\n' + txt)
            try:
                p = subprocess.run(['cvc5', '--tlimit=10000', f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=30)
                o = p.stdout.decode().strip().split('\n')[0]
            except subprocess.TimeoutExpired: o = 'timeout'
            os.unlink(f)
            return o
        with ThreadPoolExecutor(JOBS) as ex: rs = list(ex.map(one, range(len(dumps))))
        for k, o in enumerate(rs):
            if o == 'unsat': self.cvc5['confirmed'] += 1
            elif o == 'sat':
                self.cvc5['disagree'] += 1
                self.log.append('cvc5 disagrees on %s / %s' % (dumps[k][1], dumps[k][2]))
            elif o == 'skipped': self.cvc5['skipped (time)'] += 1
            else: self.cvc5['unknown'] += 1
        todo = [(i, n, r) for i, n, r in self.results if r['status'] == 'proved' and not self.units[i].get('nosweep')]
        for i in sorted({x[0] for x in todo}): self.exe(i)
        with ThreadPoolExecutor(JOBS) as ex:
            outs = list(ex.map(lambda x: self.nat(x[0], [x[1], '--sweep', str(SEED), '20'], 90), todo))
        for (i, n, r), (rc, out) in zip(todo, outs):
            r['native_crosscheck'] = out.strip()[:200]
            if rc == 1:
                r['status'] = 'refuted'
                self.report(i, n, r, [], (None, [], SEED, out.strip()), [out.strip()])
    # ---- evidence
    def finish(self):
        proved = [r for _, _, r in self.results if r['status'] == 'proved']
        bounded = [r for _, _, r in self.results if r['status'] == 'bounded']
        how = {}
        for r in proved:
            for k, v in (r.get('how') or {}).items(): how[k] = how.get(k, 0) + v
        fns = sorted({f for u in self.units for f in u.get('functions', ())})
        assumed = sorted({a for _, _, r in self.results for a in r.get('assumed', ())})
        allproved = len(proved) == len(self.results)
        cov = {
            'obligations': sum(r.get('obligations', 0) for _, _, r in self.results),
            'discharged': sum(r.get('discharged', 0) for r in proved),
            'checker_cmd': 'python3-vt engine/check.py %s %s' % (self.prop, self.tier),
            'back_ends': how, 'solver_s': round(sum(r.get('solver_s', 0) for _, _, r in self.results), 2),
            'contract_harnesses': len(self.results), 'harnesses_proved': len(proved),
            'harnesses_bounded_not_proved': [{'harness': r['harness'], 'unit': r['unit'], 'why': r.get('limit'), 'standin': r.get('standin')} for r in bounded],
            'loops_by_induction': sum(r.get('loops', 0) for r in proved), 'paths': sum(r.get('paths', 0) for r in proved),
            'functions_under_contract': fns, 'n_functions_under_contract': len(fns),
            'harnesses': [{'harness': r['harness'], 'unit': r['unit'], 'flags': r['flags'], 'status': r['status'], 'obligations': r.get('obligations', 0),
                           'discharged': r.get('discharged', 0), 'wall_s': r.get('wall'), 'solver_s': r.get('solver_s')} for _, _, r in self.results],
            'trusted_base': self.cfg.get('base', props.TRUSTED) + self.cfg.get('trusted', []),
        }
        if self.tier == 'thorough': cov['cvc5_recheck'] = getattr(self, 'cvc5', None); cov['native_crosscheck'] = {r['harness']: r.get('native_crosscheck') for r in proved}
        if not allproved: cov['explanation'] = 'not every harness was proved on this tree; those listed under harnesses_bounded_not_proved were only checked within the stated bounds'
        ev = {'property': self.prop, 'tier': self.tier, 'seed': SEED, 'level': 'proof' if allproved else 'other', 'coverage': cov,
              'assumptions': assumed + self.cfg.get('assumptions', []), 'wall_s': round(time.time() - T0, 2), 'violations': len(self.viol)}
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.prop + '.json'), 'w'), indent=1)
        for l in self.log: print('note:', l)
        print('%s %s: %d harnesses, %d proved, %d bounded only, %d obligations (%d discharged), %d violation(s), %.1f s' % (
            self.prop, self.tier, len(self.results), len(proved), len(bounded), cov['obligations'], cov['discharged'], len(self.viol), time.time() - T0))
        for r in bounded: print('  bounded, not proved: %s (%s): %s' % (r['harness'], r['unit'], r.get('limit')))
        return 1 if self.viol else 0
    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

def runnable(flags):
    """can this machine execute code built with these flags?"""
    cpu = open('/proc/cpuinfo').read()
    need = {'-march=x86-64-v3': 'avx2', '-march=x86-64-v4': 'avx512f', '-mavx': ' avx ', '-mavx2': 'avx2', '-mavx512f': 'avx512f'}
    return all(need[f] in cpu for f in flags if f in need)

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    os.makedirs(EVID, exist_ok=True)
    c = Check(prop, tier)
    try:
        rc = c.run()
    except BuildError as e:
        print('no answer: %s' % e); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    finally:
        c.cleanup()
    sys.stdout.flush()
    os._exit(rc)

if __name__ == '__main__': main()
