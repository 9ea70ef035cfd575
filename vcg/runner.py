"""Runs one property's check: contracts (deductive) + concrete harness (replay and bounded stand-in)."""
import os, re, sys, time, json, importlib, subprocess, multiprocessing, signal, shutil, tempfile, threading, pickle, traceback, hashlib
import z3
from . import astload, prove as P
from . import contract as K

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('VERIF_SRC', '/repo/src')
NCPU = max(2, min(8, os.cpu_count() or 2))

TRUSTED = [
    'vcg: the verification condition generator of /verif/vcg (C++ semantics of the clang AST, loop summaries, polynomial normaliser)',
    'clang 18 front end (AST of /repo/src read on this run)',
    'z3 5.3.2, cvc5 1.1.2 (back ends)',
    'machine doubles treated as real numbers; sqrt, sin, cos, acos uninterpreted with their defining identities',
    'integers are mathematical in the value obligations; signed arithmetic and conversions carry range obligations of their own (kind range), under size limits; the sites not covered are listed; unsigned additions and products are assumed not to wrap',
    'std::vector, std::string, iostream modelled by their standard semantics (sequences, token streams)',
]


# ------------------------------------------------------------------ harness
class Harness:
    """concrete executable built from /repo's sources with sanitizers"""

    def __init__(self, prop, work):
        self.prop, self.work = prop, work
        self.src = os.path.join(ROOT, 'harness', prop + '.cpp')
        self.bin = os.path.join(work, 'harness')
        self.error = None
        self.build_s = 0
        self.defs, self.dropped = [], []

    def build(self):
        t0 = time.time()
        try:
            self._build()
        except Exception as e:
            self.error = '%s: %s' % (type(e).__name__, e)
        self.build_s = time.time() - t0

    def _build(self):
        srcs = sorted(f for f in os.listdir(SRC) if f.endswith('.cpp'))
        first = open(self.src).readline()
        if first.startswith('//@srcs'):
            want = [w for w in first.split()[1:] if w in srcs]
            try:
                return self._build_with(want)
            except RuntimeError:
                pass
        self._build_with(srcs)

    def _build_with(self, srcs):
        flags = ['-std=c++17', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                 '-fno-sanitize=vptr', '-D_GLIBCXX_ASSERTIONS', '-UNDEBUG', '-w', '-I' + SRC, '-I' + os.path.join(ROOT, 'harness')]
        procs, objs = [], []
        jobs = [(os.path.join(SRC, f), os.path.join(self.work, f[:-4] + '.o')) for f in srcs]
        jobs.insert(0, (self.src, os.path.join(self.work, 'main_harness.o')))
        sem = threading.Semaphore(NCPU)
        fails = []

        def one(s, o):
            with sem:
                p = subprocess.run(['g++'] + flags + (self.defs if s == self.src else []) + ['-c', s, '-o', o], capture_output=True, text=True)
                if p.returncode and s == self.src and self.salvage:
                    p = self.without_failing_cases(flags + self.defs, p, o)
                if p.returncode:
                    fails.append((s, p.stderr[-2000:]))
        ts = [threading.Thread(target=one, args=j) for j in jobs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if fails:
            raise RuntimeError('compile %s: %s' % fails[0])
        p = subprocess.run(['g++', '-fsanitize=address,undefined', '-o', self.bin] + [o for _, o in jobs], capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError('link: ' + p.stderr[-2000:])

    salvage, ncases = False, 1

    def without_failing_cases(self, flags, p, o):
        """the harness uses members that changed: leave out the definitions that no longer compile"""
        lines = open(self.src, errors='replace').read().split('\n')
        tops = [i for i, l in enumerate(lines) if l and not l[0].isspace() and l[0] not in '}{#/']
        cut = os.path.join(self.work, 'partial_harness.cpp')
        self.ncases = sum(l.startswith('CASE(') for l in lines)
        for _ in range(6):
            bad = {int(m.group(1)) - 1 for m in re.finditer(r'(?:partial_harness|%s)\.cpp:(\d+):\d+: (?:fatal )?error' % self.prop, p.stderr)}
            hit = False
            for k, a in enumerate(tops):
                b = tops[k + 1] if k + 1 < len(tops) else len(lines)
                if any(a <= i < b for i in bad):
                    hit = True
                    m = re.match(r'CASE\((\w+)', lines[a])
                    if m:
                        self.dropped.append(m.group(1))
                    for i in range(a, b):
                        if not lines[i].startswith('#'):
                            lines[i] = ''
            if not hit:
                return p
            open(cut, 'w').write('\n'.join(lines))
            p = subprocess.run(['g++'] + flags + ['-c', cut, '-o', o], capture_output=True, text=True)
            if p.returncode == 0:
                return p
        return p

    def rebuild(self, aliases):
        """once the plain harness does not compile: with renamed members under their new names, then without the cases concerned"""
        al = ['-D%s=%s' % (was, now.split('::')[-1]) for now, was in sorted(aliases.items())]
        for defs, salvage in ([(al, False), (al, True)] if al else []) + [([], True)]:
            self.defs, self.salvage, self.error, self.dropped = defs, salvage, None, []
            self.build()
            if self.error is None and len(self.dropped) < self.ncases:
                return

    def run(self, seed, budget, known, extra=()):
        """-> dict(cases, distinct, samples, fails=[{case,seed,msg,inputs}], known=set())"""
        out = {'evaluations': 0, 'distinct': 0, 'samples': [], 'fails': [], 'known': {}, 'cases': {}}
        scratch = os.path.join(self.work, 'scratch')
        os.makedirs(scratch, exist_ok=True)
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:hard_rss_limit_mb=2500'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1:exitcode=99'
        lst = subprocess.run([self.bin, '--list'], capture_output=True, text=True, env=env).stdout.split()
        per = budget * min(1.0, NCPU / max(1, len(lst)))
        lock = threading.Lock()
        sem = threading.Semaphore(NCPU)

        def one(case):
            with sem:
                d = os.path.join(scratch, case)
                os.makedirs(d, exist_ok=True)
                state = os.path.join(d, 'state')
                cmd = [self.bin, '--case', case, '--seed', str(seed), '--time', '%.2f' % per, '--state', state]
                if known:
                    cmd += ['--known', ','.join(sorted(known))]
                cmd += list(extra)
                try:
                    p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=env, cwd=d, timeout=per + 90)
                    rc, so, se = p.returncode, p.stdout, p.stderr
                except subprocess.TimeoutExpired as e:
                    rc, so, se = 98, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'no answer within the time limit'
                n = 0
                with lock:
                    for l in so.splitlines():
                        if l.startswith('@COUNT '):
                            _, a, b = l.split()
                            n = int(a)
                            out['evaluations'] += int(a)
                            out['distinct'] += int(b)
                            out['cases'][case] = int(a)
                        elif l.startswith('@SAMPLE '):
                            out['samples'].append(case + ': ' + l[8:][:400])
                        elif l.startswith('@KNOWN '):
                            k, _, m = l[7:].partition(' ')
                            out['known'][k] = m
                    if rc != 0:
                        msg, inputs = '', ''
                        sd = '?'
                        try:
                            st_ = open(state, errors='replace').read().replace('\0', '')
                            sd, _, inputs = st_.partition('\n')
                        except OSError:
                            pass
                        for l in so.splitlines():
                            if l.startswith('@FAIL '):
                                msg = l[6:]
                            if l.startswith('@INPUTS '):
                                inputs = l[8:]
                        if not msg:
                            tail = [l for l in se.splitlines() if 'rror' in l or 'ssert' in l or 'limit' in l or 'SUMMARY' in l]
                            msg = 'process died (exit %s): %s' % (rc, ' | '.join(tail[:4])[:800])
                        out['fails'].append({'case': case, 'seed': sd, 'msg': msg, 'inputs': inputs, 'exit': rc, 'stderr': se[-1500:]})
        ts = [threading.Thread(target=one, args=(c,)) for c in lst]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out


# ------------------------------------------------------------------ contracts
def _prove_chunk(obs, idxs, timeout, conn, deadline):
    for i in idxs:
        o = obs[i]
        left = deadline - time.time()
        if left < 1:
            conn.send((i, 'unknown', '-', 0.0, 'time budget of the check used up', None))
            continue
        try:
            r = P.prove(o.pc, o.goal, min(o.opt.get('timeout', timeout) if isinstance(o.opt, dict) else timeout, left))
            m = None
            if r.model:
                m = {('%s%s' % (k[0], list(k[1:]) if len(k) > 1 else '')) if isinstance(k, tuple) else str(k): (str(v)) for k, v in list(r.model.items())[:200]}
            conn.send((i, r.status, r.backend, r.time, str(r.why)[:300], m))
        except Exception as e:
            conn.send((i, 'unknown', '-', 0.0, '%s: %s' % (type(e).__name__, str(e)[:200]), None))
    conn.send(None)
    conn.close()


def _contract_job(prog, c, timeout, gen_limit, deadline, conn, sem):
    """in a child: generate, then discharge with forked helpers"""
    try:
        with sem:
            obs, info = K.run_contract(prog, c, gen_limit)
        # vacuity: the hypotheses of the last obligations must not be contradictory
        vac = None
        recs = [{'label': o.label, 'kind': o.kind, 'where': str(o.where), 'status': 'unknown', 'backend': '-', 'time': 0, 'why': 'not reached', 'model': None} for o in obs]
        todo = []
        cache = {}
        for i, o in enumerate(obs):
            key = (tuple(t.get_id() for t in o.pc), o.goal.get_id())
            if key in cache:
                cache[key].append(i)
            else:
                cache[key] = [i]
                todo.append(i)
        dup = {v[0]: v[1:] for v in cache.values()}
        for o in obs:
            if getattr(o, 'opt', None) is None:
                o.opt = {}
        nw = 1 if len(todo) <= 4 else min(8, (len(todo) + 3) // 4)
        pipes = []
        for w in range(nw):
            a, b = multiprocessing.Pipe(False)
            pid = os.fork()
            if pid == 0:
                a.close()
                try:
                    with sem:
                        _prove_chunk(obs, todo[w::nw], timeout, b, deadline)
                finally:
                    os._exit(0)
            b.close()
            pipes.append((a, pid))
        for a, pid in pipes:
            while True:
                try:
                    if not a.poll(max(1, deadline + 20 - time.time())):
                        os.kill(pid, signal.SIGKILL)
                        break
                    m = a.recv()
                except (EOFError, OSError):
                    break
                if m is None:
                    break
                i, st, be, t, why, model = m
                for j in [i] + dup.get(i, []):
                    recs[j].update(status=st, backend=be, time=t if j == i else 0.0, why=why, model=model)
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        ens = [o for o in obs if o.kind == 'ensures']
        if ens:
            with sem:
                seen = []
                for o in (ens[0], ens[-1]):
                    try:
                        s = z3.Solver()
                        s.set('timeout', 1500)
                        for t in o.pc:
                            s.add(t)
                        for t in P.axioms(list(o.pc)):
                            s.add(t)
                        if s.check() == z3.unsat:
                            vac = 'hypotheses of "%s" are contradictory' % o.label
                    except z3.Z3Exception:
                        pass
        info['vacuous'] = vac
        conn.send((recs, info))
    except BaseException as e:
        try:
            conn.send(([], {'name': c.name, 'functions': [], 'assumptions': [], 'used_contracts': [], 'bounded': None,
                            'error': 'engine: %s: %s' % (type(e).__name__, str(e)[:300]), 'vacuous': None, 'gen_time': 0}))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_contracts(prog, cs, timeout, gen_limit, deadline, only=None):
    ctx = multiprocessing.get_context('fork')
    sem = ctx.Semaphore(NCPU)
    jobs = []
    for c in cs:
        a, b = multiprocessing.Pipe(False)
        pid = os.fork()
        if pid == 0:
            a.close()
            os.setpgid(0, 0)
            _contract_job(prog, c, timeout, gen_limit, deadline, b, sem)
            os._exit(0)
        b.close()
        jobs.append((c, a, pid))
    res = []
    for c, a, pid in jobs:
        r = None
        try:
            if a.poll(max(1, deadline + 30 - time.time())):
                r = a.recv()
        except (EOFError, OSError):
            pass
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
        if r is None:
            r = ([], {'name': c.name, 'functions': [], 'assumptions': [], 'used_contracts': [], 'bounded': None,
                      'error': 'engine: no answer within the time limit', 'vacuous': None, 'gen_time': 0})
        res.append((c, r[0], r[1]))
    return res


def load_known():
    """known-findings.txt: 'known: property=<id> key=<key> <text>' and 'fixed: property=<id> <commit> <text>'"""
    known = {}
    try:
        for l in open(os.path.join(ROOT, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('known:'):
                w = l.split(None, 3)
                p = w[1].split('=', 1)[1]
                k = w[2].split('=', 1)[1]
                known.setdefault(p, {})[k] = w[3] if len(w) > 3 else ''
    except OSError:
        pass
    return known


def main(argv):
    t0 = time.time()
    args = [a for a in argv if not a.startswith('-')]
    prop = args[0]
    tier = 'thorough' if ('--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough') else 'quick'
    verbose = '-v' in argv
    only = None
    for a in argv:
        if a.startswith('--only='):
            only = a[7:]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    except ValueError:
        seed = 1
    quick = tier == 'quick'
    timeout = 15 if quick else 120
    gen_limit = 60 if quick else 400
    hbudget = (5 if quick else 120)
    deadline = t0 + (150 if quick else 800)
    known = load_known().get(prop, {})
    evdir = os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        # contracts first (engine errors are never violations)
        K.REG.clear()
        cerr = None
        try:
            importlib.import_module('contracts.' + prop)
        except ModuleNotFoundError as e:
            cerr = 'no contract module: %s' % e
        cs = [c for c in K.REG.get(prop, []) if (only is None or only in c.name) and (not quick or not c.opts.get('thorough_only'))]
        H = None
        th = None
        if os.path.exists(os.path.join(ROOT, 'harness', prop + '.cpp')) and '--no-harness' not in argv:
            H = Harness(prop, work)
            th = threading.Thread(target=H.build)
            th.start()
        prog, results = None, []
        if cs:
            try:
                srcs = sorted({s for c in cs for s in c.srcs})
                have = set(os.listdir(SRC))
                prog = astload.load([s for s in srcs if s in have])
            except Exception as e:
                cerr = 'extraction: %s: %s' % (type(e).__name__, e)
        if th:
            th.join()
        if H is not None and H.error is not None:
            H.rebuild(prog.aliases if prog is not None else {})
        if prog is not None:
            results = run_contracts(prog, cs, timeout, gen_limit, deadline)
        hres = None
        if H is not None and H.error is None:
            hres = H.run(seed, hbudget, set(known))
        # ---------------------------------------------------------- verdict
        nob = ndis = 0
        backends, under, ftab, assumptions, used = {}, [], {}, set(), set()
        stated = set()
        refuted, open_, cerrs, tsolve = [], [], [], 0.0
        bounded_contracts, proved_contracts = [], []
        samples = []
        for c, recs, info in results:
            b = info.get('bounded')
            if info['error'] or info.get('vacuous'):
                cerrs.append({'contract': c.name, 'reason': info['error'] or info['vacuous']})
            ok = True
            for r in recs:
                tsolve += r['time']
                if not b:
                    nob += 1
                if r['status'] == 'proved' and not info.get('vacuous'):
                    if not b:
                        ndis += 1
                        backends[r['backend']] = backends.get(r['backend'], 0) + 1
                else:
                    ok = False
                    item = {'contract': c.name, 'obligation': r['label'], 'kind': r['kind'], 'where': r['where'], 'status': r['status'], 'why': r['why'], 'model': r['model']}
                    (refuted if r['status'] == 'refuted' and not info['used_contracts'] and not info.get('stated') and not prog.aliases else open_).append(item)
                if verbose and (r['status'] != 'proved' or '-vv' in argv):
                    print('   [%s] %s: %s @%s  %s %.1fs %s' % (r['status'], c.name, r['label'], r['where'], r['backend'], r['time'], r['why'] if r['status'] != 'proved' else ''))
                    if r['model'] and '-vv' in argv:
                        print('      ', r['model'])
            for f in info['functions']:
                ftab.setdefault(f, []).append(c.name)
            assumptions |= set(info['assumptions'])
            used |= set(info['used_contracts'])
            stated |= set(info.get('stated', []))
            if not info['error'] and not info.get('vacuous') and ok and recs:
                (bounded_contracts if b else proved_contracts).append(c.name if not b else {'contract': c.name, 'bound': b, 'obligations': len(recs)})
            if verbose:
                print('%-45s obs %3d proved %3d gen %.1fs %s' % (c.name, len(recs), sum(r['status'] == 'proved' for r in recs), info.get('gen_time', 0), info['error'] or info.get('vacuous') or ''))
            samples += ['%s: %s' % (c.name, r['label']) for r in recs if r['kind'] == 'ensures'][:2]
        viol = []
        if hres:
            for f in hres['fails']:
                viol.append(('concrete', f))
        if not viol:
            for r in refuted:
                if r['kind'] == 'ensures' or r['kind'] in ('bounds', 'assert'):
                    viol.append(('refuted', r))
        rc = 0
        if viol:
            kind, v = viol[0]
            rp = os.path.join(evdir, '%s.replay.json' % prop)
            with open(rp, 'w') as f:
                json.dump({'property': prop, 'seed': seed, 'kind': kind, 'violation': v, 'all': [x for _, x in viol][:20],
                           'failed_obligations': (refuted + open_)[:20],
                           'replay': './tools/replay %s' % os.path.relpath(rp, ROOT) if kind == 'concrete' else 'no failing input found: the obligation above was refuted by the verifier (counterexample evaluated numerically)'}, f, indent=1, default=str)
            print('%s: %s' % (prop, (v.get('msg') or v.get('obligation')) + (' [inputs: %s]' % v['inputs'][:600] if v.get('inputs') else '')))
            for r in (refuted + open_)[:8]:
                print('  failed obligation: %s / %s (%s): %s' % (r['contract'], r['obligation'], r['where'], r['status']))
            print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if kind == 'concrete' else ' no-failing-input-found'))
            rc = 1
        else:
            for k, txt in sorted(known.items()):
                print('KNOWN-FINDING: property=%s %s' % (prop, txt))
        cov = {
            'obligations': nob, 'discharged': ndis,
            'checker_cmd': './check %s%s' % (prop, '' if quick else ' --thorough'),
            'trusted_base': TRUSTED + sorted('assumed: ' + a for a in assumptions),
            'backends': backends, 'solver_time_s': round(tsolve, 2),
            'functions_under_contract': sorted(ftab), 'n_functions': len(ftab),
            'contracts': {'proved': proved_contracts, 'bounded': bounded_contracts,
                          'not_discharged': cerrs, 'open_obligations': open_[:40], 'refuted_obligations': refuted[:40]},
            'callee_contracts_used': sorted(used), 'loops_with_stated_invariant': sorted(stated),
            'samples': samples[:20],
        }
        if cerr:
            cov['extraction_error'] = cerr
        if H is not None:
            cov['bounded_harness'] = {'what': 'concrete runs of the real code (ASan, UBSan, asserts) on generated inputs: replay engine and bounded stand-in, never counted as proved',
                                      'build_error': H.error, 'cases_left_out': H.dropped, 'evaluations': hres['evaluations'] if hres else 0,
                                      'distinct_inputs': hres['distinct'] if hres else 0, 'cases': hres['cases'] if hres else {},
                                      'samples': (hres['samples'] if hres else [])[:10], 'known_findings_seen': hres['known'] if hres else {}}
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
              'assumptions': sorted(assumptions) + TRUSTED[3:], 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
        with open(os.path.join(evdir, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d/%d obligations discharged over %d functions (%d contracts proved, %d bounded, %d not decided); harness %s runs%s; %.1fs' % (
            prop, ndis, nob, len(ftab), len(proved_contracts), len(bounded_contracts), len(cerrs) + len({o['contract'] for o in open_}),
            hres['evaluations'] if hres else 0, '' if not (H and H.error) else ' BUILD ERROR ' + H.error[:500], time.time() - t0))
        if H is not None and H.dropped and rc == 0:
            print('%s: harness cases left out, they no longer compile: %s' % (prop, ' '.join(H.dropped)))
        if rc == 0 and H is not None and (hres is None or not hres['cases']) and ndis < nob + len(cerrs):
            # neither the proof nor the stand-in could be completed: say so, undecided is not a violation
            print('%s: undecided: harness could not be built (%s)' % (prop, H.error))
            rc = 2
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)
