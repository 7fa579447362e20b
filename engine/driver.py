#!/usr/bin/env python3-vt
"""check driver:  driver.py <property> <quick|thorough> [unit]

Compiles /repo's current sources to LLVM IR, verifies every contract unit of
the property, replays counterexamples natively, writes evidence/<id>.json.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, multiprocessing as mp, signal, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VF_REPO', '/repo')
import llir

CORE = ['buzzasm', 'buzzdarray', 'buzzdebug', 'buzzdict', 'buzzheap', 'buzzinmsg', 'buzzio', 'buzzmath', 'buzzmsg', 'buzzneighbors',
        'buzzoutmsg', 'buzzset', 'buzzstring', 'buzzstrman', 'buzzswarm', 'buzztype', 'buzzvm', 'buzzvstig', 'buzzlex']
SKIP = {'buzzasm_main', 'buzzdeasm_main', 'buzzparse', 'buzzrun', 'buzzparser'}
CLANG = next((c for c in ('/usr/bin/clang-18', '/usr/bin/clang', 'clang') if shutil.which(c)), 'clang')
CFLAGS = ['-w', '-std=gnu99', '-D_GNU_SOURCE', '-DNDEBUG', '-ffp-contract=off']


def incs(tmp):
    return ['-I' + VERIF + '/contracts', '-I' + REPO + '/src', '-I' + tmp + '/inc']


def parse_meta(path):
    units = []
    for l in open(path):
        m = re.match(r'//@ unit (\w+)(.*)$', l)
        if m:
            u = dict(name=m.group(1), fn='', tier='quick', mode='proof', companion='yes', budget='120', note='')
            for k, v in re.findall(r'(\w+)=("[^"]*"|\S+)', m.group(2)):
                u[k] = v.strip('"')
            units.append(u)
    return units


def searches(path):
    return [l.split()[2] for l in open(path) if l.startswith('//@ search ')]


def to_ir(src, tmp):
    out = os.path.join(tmp, os.path.basename(src)[:-2] + '.ll')
    r = subprocess.run([CLANG] + CFLAGS + incs(tmp) + ['-S', '-emit-llvm', '-O0', '-fno-discard-value-names', '-Xclang',
                        '-disable-O0-optnone', src, '-o', out], capture_output=True, text=True)
    if r.returncode:
        return (src, None, r.stderr)
    return (src, out, None)


def load(src, out):
    return llir.Module(src, open(out).read())


def sources():
    d = REPO + '/src/buzz'
    names = sorted(f[:-2] for f in os.listdir(d) if f.endswith('.c'))
    return [d + '/' + n + '.c' for n in names if n not in SKIP]


def config_inc(tmp):
    """generated config header (buzz/config.h), if the build makes one"""
    os.makedirs(tmp + '/inc/buzz', exist_ok=True)
    for c in (REPO + '/_build/buzz/config.h', REPO + '/_build/src/buzz/config.h'):
        if os.path.exists(c):
            shutil.copy(c, tmp + '/inc/buzz/config.h')
            return


MODS = None
FRESH = False         # after a crash of the solver: a new solver for each query
SPEC = None
DEADLINE = 0          # a check must answer: what is not decided by then is left undecided


def run_unit(args):
    unit, bounded, budget, force = args
    import vfe
    t0 = time.time()
    r = dict(unit=unit, bounded=bounded, error=None, fails=[], obl={}, incomplete=[], unknowns=[], covers=[], stat={}, entered=[],
             stubs=[], loops=[], timedout=False)
    try:
        E = vfe.Engine(MODS, SPEC, dict(bounded=bounded, force=force, fresh=FRESH))
        if bounded:
            E.stubs = {n[len('vf_always__'):]: n for n in E.funcs if n.startswith('vf_always__')}
            E.recs = {}
        else:
            E.stubs.update({n[len('vf_always__'):]: n for n in E.funcs if n.startswith('vf_always__')})
        E.run('vfu_' + unit, max(5, min(budget, DEADLINE - time.time())))
        lost = [x for x in list(E.stubs) + list(E.recs) if x not in E.funcs and x.startswith('buzz')]
        if E.fails and lost and not bounded:
            E.incomplete.append('contract of %s no longer applies: there is no such function' % lost[0])
        if E.fails and E.absmul:
            E.incomplete.append('products and quotients are abstract')
        r.update(fails=E.fails, obl=E.obl, incomplete=sorted(set(E.incomplete)), unknowns=E.unknowns[:10], covers=sorted(E.covers),
                 stat=E.stat, entered=sorted(E.entered), stubs=sorted(E.used_stubs), loops=sorted('%s#%d' % k for k in E.used_loops),
                 timedout=E.timedout)
    except vfe.Unsupported as e:
        r['error'] = 'unsupported: %s' % e
        try:
            r.update(fails=E.fails, obl=E.obl, stat=E.stat)
        except Exception:
            pass
    except Exception as e:
        import traceback
        r['error'] = traceback.format_exc()[-1500:]
    r['wall'] = time.time() - t0
    return r


def worker(args, q):
    q.put(run_unit(args))


def pool(jobs, nproc):
    """fork one process per job, at most nproc at a time"""
    res = []
    running = []
    retried = []
    jobs = list(jobs)
    ctx = mp.get_context('fork')
    while jobs or running:
        while jobs and len(running) < nproc:
            j = jobs.pop(0)
            rd, wr = ctx.Pipe(False)
            def tgt(j=j, wr=wr, again=j in retried):
                global FRESH
                FRESH = again
                try:
                    wr.send(run_unit(j))
                except Exception as e:
                    wr.send(dict(unit=j[0], bounded=j[1], error='crash %s' % e, fails=[], obl={}, incomplete=[], unknowns=[], covers=[],
                                 stat={}, entered=[], stubs=[], loops=[], timedout=False, wall=0))
            p = ctx.Process(target=tgt)
            p.start()
            wr.close()
            running.append((p, rd, j, time.time()))
        still = []
        for p, rd, j, t in running:
            if rd.poll(0.02):
                try:
                    res.append(rd.recv())
                except EOFError:
                    if j not in retried:
                        retried.append(j)
                        jobs.insert(0, j)
                        p.join()
                        continue
                    res.append(dict(unit=j[0], bounded=j[1], error='worker died', fails=[], obl={}, incomplete=[], unknowns=[], covers=[],
                                    stat={}, entered=[], stubs=[], loops=[], timedout=False, wall=0))
                p.join()
            elif time.time() - t > j[2] + 60:
                p.kill()
                p.join()
                res.append(dict(unit=j[0], bounded=j[1], error='solver did not return in time', fails=[], obl={}, incomplete=[],
                                unknowns=[], covers=[], stat={}, entered=[], stubs=[], loops=[], timedout=True, wall=time.time() - t))
            else:
                still.append((p, rd, j, t))
        running = still
    return res


def merge(rs):
    out = {}
    for r in rs:
        o = out.get(r['unit'])
        if o is None:
            out[r['unit']] = r
            continue
        o['error'] = o['error'] or r['error']
        o['fails'] += r['fails']
        for k, v in r['obl'].items():
            if k in o['obl']:
                w = o['obl'][k]
                st = v[1] if w[1] == 'proved' else w[1]
                o['obl'][k] = [w[0] + v[0], st, v[2]]
            else:
                o['obl'][k] = v
        for k in ('incomplete', 'unknowns', 'covers', 'entered', 'stubs', 'loops'):
            o[k] = sorted(set(o[k]) | set(r[k]))
        o['timedout'] = o['timedout'] or r['timedout']
        o['wall'] = max(o['wall'], r['wall'])
        o['allcov'] = o.get('allcov', True) and bool(r['covers'])
        for k, v in r['stat'].items():
            o['stat'][k] = o['stat'].get(k, 0) + v
    return list(out.values())


# ---- native replay -----------------------------------------------------------------
class Native:
    def __init__(self, tmp, harness):
        self.tmp = tmp
        self.h = harness
        self.exe = {}
        self.err = {}

    def build(self, fl):
        if fl in self.exe or fl in self.err:
            return
        exe = self.tmp + '/replay_' + fl
        san = ['-fsanitize=address'] if fl == 'asan' else []
        flags = ['-g', '-O0', '-DVF_NATIVE', '-fno-omit-frame-pointer'] + san + CFLAGS + incs(self.tmp)
        gen = self.tmp + '/vf_units.c'
        us = [u['name'] for u in parse_meta(self.h)]
        with open(gen, 'w') as f:
            for u in us:
                f.write('void vfu_%s(void);\n' % u)
            for u in searches(self.h):
                f.write('void vfs_%s(void);\n' % u)
            f.write('struct vf_ent { const char* n; void (*f)(void); } vf_ents[] = {\n')
            for u in us:
                f.write('{"%s", vfu_%s},\n' % (u, u))
            for u in searches(self.h):
                f.write('{"%s", vfs_%s},\n' % (u, u))
            f.write('{0,0}};\n')
        objs = []
        procs = []
        for s in sources() + [self.h, VERIF + '/contracts/vf_native.c', gen]:
            o = self.tmp + '/n_' + fl + os.path.basename(s)[:-2] + '.o'
            objs.append(o)
            procs.append(subprocess.Popen([CLANG] + flags + ['-c', s, '-o', o], stderr=subprocess.PIPE, text=True))
        for p in procs:
            _, e = p.communicate()
            if p.returncode:
                self.err[fl] = e
        if fl in self.err:
            return
        r = subprocess.run([CLANG] + san + objs + ['-lm', '-o', exe], capture_output=True, text=True)
        if r.returncode:
            self.err[fl] = r.stderr
            return
        self.exe[fl] = exe

    def replay(self, unit, fail, bounded, path):
        """replay the counterexample on the real code, with and without ASan"""
        with open(path, 'w') as f:
            f.write('# unit %s bounded %d\n' % (unit, bounded))
            f.write('# failed obligation: %s   (%s)\n# at: %s\n' % (fail['id'], fail['kind'], fail['where']))
            for lab, k, v in fail['values']:
                f.write('%s %s %s\n' % (lab, k, v))
        msgs = []
        for fl in ('asan', 'plain'):
            ok, m = self.replay1(fl, unit, bounded, path)
            if ok:
                return True, m
            msgs.append(m)
        return False, '\n'.join(msgs)

    def search(self, path, seed):
        """concrete histories on the real code, after an obligation failed without a replayable input"""
        tried = []
        for u in searches(self.h):
            for fl in ('plain', 'asan'):
                self.build(fl)
                if fl not in self.exe:
                    continue
                cmd = [self.exe[fl], '--search', u, str(seed), '4000', '12']
                try:
                    r = subprocess.run(cmd, capture_output=True, text=True, timeout=120, cwd=self.tmp, errors='replace',
                                       env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0'))
                except subprocess.TimeoutExpired:
                    continue
                tried.append('%s (%s): %s' % (u, fl, r.stdout.strip().split('\n')[-1]))
                if r.returncode == 1:
                    with open(path, 'w') as f:
                        f.write('# failing history: %s build, search %s, %s\n' % (fl, u, r.stdout.strip().split('\n')[-1]))
                        f.write('\n'.join('# ' + x for x in (r.stdout[-1500:] + r.stderr[-2500:]).split('\n')) + '\n')
                    return True, tried
        return False, tried

    def replay1(self, fl, unit, bounded, path):
        self.build(fl)
        if fl not in self.exe:
            return False, 'native build failed: %s' % self.err.get(fl)
        try:
            r = subprocess.run([self.exe[fl], unit, path, str(int(bounded))], capture_output=True, text=True, timeout=60, cwd=self.tmp,
                               errors='replace', env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0'))
            out = (r.stdout[-1500:] + r.stderr[-2500:])
            rc = r.returncode
        except subprocess.TimeoutExpired:
            return False, 'native run did not terminate within 60 s'
        ok = 'VF-FAIL' in out or 'AddressSanitizer' in out or rc < 0
        if 'VF-ASSUME' in out and 'VF-FAIL' not in out and 'AddressSanitizer' not in out:
            ok = False
        return ok, '%s build: exit %s\n%s' % (fl, rc, out)


def main():
    global MODS, SPEC, DEADLINE
    prop, tier = sys.argv[1], sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfile = [f for f in os.listdir(VERIF + '/contracts') if f.lower().startswith(prop.lower() + '_') and f.endswith('.c')]
    assert len(cfile) == 1, cfile
    harness = VERIF + '/contracts/' + cfile[0]
    units = parse_meta(harness)
    if only:
        units = [u for u in units if u['name'] in only.split(',')]
    elif tier == 'quick':
        units = [u for u in units if u['tier'] == 'quick']
    evdir = os.environ.get('VF_EVIDENCE', VERIF + '/evidence')
    os.makedirs(evdir + '/replay', exist_ok=True)
    known = load_known(prop)
    tmp = tempfile.mkdtemp(prefix='vf_' + prop)
    try:
        rc = go(prop, tier, seed, harness, units, tmp, evdir, known, t0, only)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def load_known(prop):
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\w+) unit=(\w+) obligation="([^"]*)" (.*)$', l)
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def go(prop, tier, seed, harness, units, tmp, evdir, known, t0, only):
    global MODS, SPEC, DEADLINE
    config_inc(tmp)
    libc = VERIF + '/contracts/vf_libc.c'
    common = VERIF + '/contracts/vf_common.c'
    spec = [harness, libc]
    srcs = sources()
    with mp.get_context('fork').Pool(8) as p:
        irs = p.starmap(to_ir, [(s, tmp) for s in spec + srcs])
    bad = [(s, e) for s, o, e in irs if o is None]
    if any(s in spec for s, e in bad):
        print('cannot compile the contracts against the current headers:\n' + '\n'.join(e for s, e in bad))
        return 2
    if bad:
        print('cannot compile /repo:\n' + '\n'.join(e for s, e in bad))
        return 2
    MODS = [load(s, o) for s, o, e in irs]
    SPEC = spec
    mult = 1 if tier == 'quick' else 3
    jobs = []
    def expand(u, b):
        bud = int(u['budget']) * mult
        forces = [{}]
        for sp in u.get('split', '').split(','):
            if sp:
                lab, k = sp.split(':')
                forces = [dict(f, **{lab: i}) for f in forces for i in range(int(k))]
        return [(u['name'], b, bud, f) for f in forces]
    for u in units:
        jobs += expand(u, u['mode'] == 'bounded')
    jobs.sort(key=lambda j: not j[1])      # the bounded ones first: they arbitrate
    byname = {u['name']: u for u in units}
    nproc = int(os.environ.get('VF_JOBS', '8'))
    DEADLINE = time.time() + (360 if tier == 'quick' else 3600)
    res = merge(pool(jobs, nproc))
    results = {r['unit']: r for r in res}
    # companions for proofs that did not close
    again = []
    for r in res:
        if not clean(r) and not r['bounded'] and byname[r['unit']]['companion'] == 'yes':
            again += expand(byname[r['unit']], True)
    DEADLINE = max(DEADLINE, time.time() + 120)
    comp = {r['unit']: r for r in merge(pool(again, nproc))} if again else {}
    nat = Native(tmp, harness)
    violations, knownhit, degraded, errors = [], [], [], []
    for u in units:
        n = u['name']
        r = results[n]
        c = comp.get(n) or (results.get(u['companion']) if not r['bounded'] else None)
        if clean(r):
            continue
        found = []
        for rr in (r, c):
            if rr is None or rr['unit'] != n:
                continue      # a companion unit of its own reports for itself
            for fl in rr['fails']:
                found.append((rr, fl))
        hit = None
        done = False
        seen = set()
        unrep = []
        for rr, fl in found:
            k = [x for x in known if x[0] == n and x[1] == fl['id']]
            if k:
                knownhit.append((n, fl['id'], k[0][2]))
                done = True
                continue
            path = '%s/replay/%s-%s-%d.txt' % (evdir, prop, n, len(seen))
            key = (fl['id'], rr['bounded'])
            if key in seen and hit:
                continue
            seen.add(key)
            ok, out = nat.replay(n, fl, rr['bounded'], path)
            if ok and fl['abs'] and not rr['bounded']:
                # the failing path went through a callee contract, a loop contract or an opaque value: the native
                # state built from it need not satisfy what those assume, so the run shows nothing by itself
                ok, out = False, 'the failing path is abstract; a native run fails too, but from a state that is only partly determined:\n' + out
            with open(path, 'a') as f:
                f.write('\n'.join('# ' + x for x in ('native replay: %s\n%s' % ('REPRODUCED' if ok else 'not reproduced', out)).split('\n')) + '\n')
            if ok:
                if hit is None:
                    hit = (path, fl, True, rr)
            else:
                unrep.append((path, fl, False, rr))
        if hit:
            violations.append((n, hit))
            continue
        if unrep:
            # no replay.  The bounded companion (real callees, no invariants) arbitrates.
            bfail = [x for x in unrep if x[3]['bounded']]
            if bfail:
                violations.append((n, bfail[0]))
                continue
            soft = [x for x in unrep if x[1]['kind'] == 'loop invariant' or x[1]['inloop'] or x[1]['unrolled'] or x[3]['incomplete'] or u.get('soft')]
            if c is not None and not c['error'] and not c['fails'] and len(soft) == len(unrep):
                degraded.append((n, 'inductive argument no longer applies (%s); bounded companion passes' % unrep[0][1]['id']))
                continue
            hard = [x for x in unrep if x not in soft]
            violations.append((n, (hard or unrep)[0]))
            continue
        if done:
            continue
        why = r['error'] or ('timeout' if r['timedout'] else '') or '; '.join(r['incomplete'][:2]) or \
            ('solver undecided: %s' % r['unknowns'][:1] if r['unknowns'] else 'cover not reached')
        if r['bounded']:
            if r['error'] or (not r['covers'] and not r['timedout']):
                errors.append((n, why))
            continue      # bounded units may be cut by their bound
        if c is not None and not c['error'] and not c['fails'] and c['covers']:
            degraded.append((n, why + '; bounded companion passes'))
        else:
            errors.append((n, why + (' / companion: %s' % c['error'] if c else '')))
    # an obligation failed or no longer applies and no input shows it: look for one on the real code
    if searches(harness) and (degraded or errors or (violations and not any(v[1][2] for v in violations))):
        path = '%s/replay/%s-search.txt' % (evdir, prop)
        ok, tried = nat.search(path, seed)
        if ok:
            if violations:
                n, h = violations[0]
                with open(path, 'a') as f:
                    f.write('# failed obligation in unit %s: %s at %s\n' % (n, h[1]['id'], h[1]['where']))
            else:
                n, why = (degraded + errors)[0]
                h = (None, dict(id=why, where=''), False, None)
            violations.insert(0, (n, (path, h[1], True, h[3])))
        else:
            for x in tried:
                print('  search for a failing history: ' + x)
    obs = dis = 0
    unitrep = []
    fns, stubs, entered = set(), set(), set()
    solver = 0.0
    for u in units:
        r = results[u['name']]
        no = len(r['obl'])
        nd = sum(1 for v in r['obl'].values() if v[1] == 'proved')
        isproof = clean(r) and not r['bounded']
        solver += r['stat'].get('qtime', 0)
        if isproof:
            fns |= set(x for x in u['fn'].split(',') if x)
        if not r['bounded']:
            obs += no
            dis += nd
        stubs |= set(r['stubs'])
        entered |= set(r['entered'])
        unitrep.append(dict(unit=u['name'], functions=u['fn'], result='proved' if isproof else
                            ('bounded: no violation within the bound' if r['bounded'] and not r['fails'] and not r['error'] else 'see notes'),
                            obligations=no, discharged=nd, obligation_instances=sum(v[0] for v in r['obl'].values()),
                            paths=r['stat'].get('paths', 0), queries=r['stat'].get('queries', 0),
                            solver_s=round(r['stat'].get('qtime', 0), 2), wall_s=round(r['wall'], 2), loop_contracts=r['loops'],
                            callee_contracts=r['stubs'], note=u['note']))
    nb = sum(1 for u in units if u['mode'] == 'bounded')
    lev = 'proof' if nb < len(units) else 'bounded'
    man = {}
    try:
        for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']:
            if c['property'] == prop:
                lev = c['level']
    except Exception:
        pass
    ev = dict(property=prop, tier=tier, seed=seed, level=lev,
              coverage=dict(obligations=obs, discharged=dis,
                            checker_cmd='python3-vt engine/driver.py %s %s' % (prop, tier),
                            trusted_base=TRUST,
                            functions_under_contract=sorted(fns), functions_executed=sorted(entered), backend='Z3 (python z3-solver)',
                            solver_s=round(solver, 2), units=unitrep, bounded_units=[u['name'] for u in units if u['mode'] == 'bounded'],
                            degraded=[list(d) for d in degraded], undecided=[list(e) for e in errors],
                            callee_contracts_assumed_here=sorted(stubs)),
              assumptions=ASSUME + file_assumptions(harness), wall_s=round(time.time() - t0, 2),
              violations=[dict(unit=n, obligation=h[1]['id'], where=h[1]['where'], replay=h[0], reproduced=h[2]) for n, h in violations])
    if not only:
        with open('%s/%s.json' % (evdir, prop), 'w') as f:
            json.dump(ev, f, indent=1)
    for u in unitrep:
        print('%-28s %-40s obl %3d/%3d  paths %5d  q %5d  %6.1fs' % (u['unit'], u['result'], u['discharged'], u['obligations'], u['paths'],
                                                                 u['queries'], u['wall_s']))
    for n, why in degraded:
        print('DEGRADED unit=%s %s' % (n, why))
    for n, why in errors:
        print('UNDECIDED unit=%s %s' % (n, why))
    for n, oid, txt in knownhit:
        print('KNOWN-FINDING: property=%s unit=%s %s: %s' % (prop, n, oid, txt))
    if only:
        for n, r in list(results.items()) + list(comp.items()):
            print(n, 'bounded' if r['bounded'] else '', r['stat'], r['error'] or '', r['incomplete'], r['unknowns'][:3], r['timedout'], r['covers'])
            for f in r['fails']:
                print('   FAIL', f['id'], '|', f['where'])
    if violations:
        violations.sort(key=lambda v: not v[1][2])
        for n, (path, fl, rep, rr) in violations:
            print('  failed obligation in unit %s: %s  at %s' % (n, fl['id'], fl['where']))
            if not rep and violations[0][1][2]:
                print('  (no failing input for this obligation; see %s)' % path)
                continue
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if rep else ' no-failing-input-found'))
        return 1
    good = sum(1 for u in units if clean(results[u['name']]) or (results[u['name']]['bounded'] and not results[u['name']]['error']))
    if errors and good + len(degraded) + len(knownhit) == 0:
        return 2
    return 0


def file_assumptions(h):
    return [l[len('//@ assume '):].strip() for l in open(h) if l.startswith('//@ assume ')]


TRUST = ['clang 18 C-to-IR translation (the project is built with gcc -Os from the same text)',
         'engine/llir.py + engine/vfe.py (IR semantics and obligation generation)', 'Z3', 'models of libc functions in engine/builtins_c.py and contracts/vf_libc.c']
ASSUME = ['malloc/calloc/realloc never fail', 'signed integer overflow wraps', 'strict aliasing is ignored',
          'objects are smaller than 2^47 bytes', 'distinct heap blocks never compare equal']


def clean(r):
    return not r['error'] and not r['fails'] and not r['incomplete'] and not r['unknowns'] and not r['timedout'] and r['covers'] \
        and len(r['obl']) > 0


if __name__ == '__main__':
    main()
