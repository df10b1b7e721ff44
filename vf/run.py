"""Check driver: python3-vt -m vf.run <PROPERTY> [--tier quick|thorough]

exit 0  every obligation discharged (or only listed known findings fail)
exit 1  VIOLATION lines printed
exit 2  no answer (extraction failed, code outside the supported subset, solver gave up)
"""
import sys, os, json, time, importlib, tempfile, shutil, traceback, argparse, subprocess, resource, re, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, sym, ir
from vf.spec import Ctx

VERIF = build.VERIF
sys.setrecursionlimit(20000)


def known_findings(pid):
    out = []
    p = VERIF + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) obligation="([^"]*)" at="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--keep')
    ap.add_argument('--verbose', '-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = a.keep or tempfile.mkdtemp(prefix='vf_')
    os.makedirs(work, exist_ok=True)
    try:
        rc = check(a, seed, t0, work)
        sym.save_record()
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(a, seed, t0, work):
    pid = a.prop
    mod = importlib.import_module('specs.' + pid)
    # the contracts this property's proof relies on are discharged along with it
    mods = [mod] + [importlib.import_module('specs.' + d) for d in getattr(mod, 'DEPENDS', [])]
    err = None
    ctx = None
    scope_of = {}

    def late(*_):
        raise sym.Budget('time budget exhausted' + (' in ' + str(ctx.exs[-1].root) if ctx and ctx.exs else ''))
    signal.signal(signal.SIGALRM, late)
    signal.alarm(540 if a.tier == 'quick' else 3000)
    for m in mods:
        try:
            if ctx is None:
                tus = []
                for k in mods:
                    tus += [t for t in k.TUS if t not in tus]
                lls = build.compile_tus(work, tus)
                ctx = Ctx(sym.Program(lls), a.tier, seed)
                ctx.t_extract = time.time() - t0
            n0 = len(ctx.exs)
            try:
                m.verify(ctx)
            finally:
                for e in ctx.exs[n0:]:
                    scope_of[id(e)] = getattr(m, 'SCOPE', None)
        except build.ExtractError as e:
            err = 'extraction: ' + str(e)
            break
        except (ir.Unsupported, sym.Budget) as e:
            err = 'unsupported: %s' % e
            if a.verbose:
                traceback.print_exc()
            if ctx and ctx.exs and a.verbose:
                print('root', ctx.exs[-1].root)
        except Exception as e:
            err = 'internal error: %r' % e
            traceback.print_exc()
        finally:
            if m is mods[-1] or err:
                signal.alarm(0)
    signal.alarm(0)
    nobl = sum(e.nobl for e in ctx.exs) if ctx else 0
    ndis = sum(e.ndis for e in ctx.exs) if ctx else 0
    fails = [(f, scope_of.get(id(e))) for e in (ctx.exs if ctx else []) for f in e.failures]
    unk = [u for e in (ctx.exs if ctx else []) for u in e.unknown]
    # unique obligations (name + site)
    uniq = {}
    for f, scope in fails:
        if scope and not re.search(scope, f.name):
            continue          # an obligation of another property
        uniq.setdefault((f.name, f.line), f)
    known = known_findings(pid)
    listed, new = [], []
    for (n, l), f in uniq.items():
        k = [x for x in known if x[0] == n and (x[1] == '*' or x[1] == str(l).split(':line')[0] or str(l).startswith(x[1]))]
        (listed if k else new).append((f, k))
    shown = set()
    for f, k in listed:
        t = 'KNOWN-FINDING: property=%s %s' % (pid, k[0][2])
        if t not in shown:
            print(t)
            shown.add(t)
    wall = time.time() - t0
    violations = []
    rc = 0
    nat = None
    replay = '%s/build/replay_%s.txt' % (VERIF, pid)
    os.makedirs(VERIF + '/build', exist_ok=True)
    if new:
        rc = 1
        # replay against the real code: with a failing run the alarm has an input
        nat = run_native(pid, work, seed, 12)
        found = nat[0] is False
        with open(replay, 'w') as fo:
            fo.write('property %s: %d failed obligation(s)\n\n' % (pid, len(new)))
            fo.write('native replay against the real code:\n%s\n\n' % nat[1])
            for f, _ in new:
                fo.write(f.text() + '\n' + '-' * 70 + '\n')
        for f, _ in new[:20]:
            print('failed obligation: %s (%s) %s' % (f.name, f.line, f.detail))
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if found else ' no-failing-input-found'))
        violations = ['%s (%s)' % (f.name, f.line) for f, _ in new]
    elif err or unk or nobl == 0:
        rc = 2
        if err:
            print('NO ANSWER %s: %s' % (pid, err))
        for u in unk[:10]:
            print('NO ANSWER %s: solver could not decide %s %s' % (pid, u[0], u[1]))
        if nobl == 0:
            print('NO ANSWER %s: no obligations generated' % pid)
        # bounded stand-in: schedules of the real code are explored, nothing is proved
        nat = run_native(pid, work, seed, 40)
        if nat[0]:
            print('BOUNDED %s: not proved; no violation in %d native runs' % (pid, nat[2]))
            rc = 0
    elif a.tier == 'thorough':
        # exercises what the proof assumes (contracts of the C++ runtime and the OS)
        nat = run_native(pid, work, seed, 60, 6)
    if nat and nat[0] is False and not new:
        rc = 1
        with open(replay, 'w') as fo:
            fo.write('property %s: forbidden behaviour of the real code\n\n%s\n%s\n' % (pid, err or '', nat[1]))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        violations = ['native run: ' + (re.findall(r'FAILED: .*', nat[1]) or ['see the replay file'])[0]]
    wall = time.time() - t0
    write_evidence(pid, a, seed, ctx, mod, nobl, ndis, wall, violations, err, listed, nat, rc)
    print('%s: %d obligations, %d discharged, %d failed (%d listed), %.1fs' % (pid, nobl, ndis, len(uniq), len(listed), wall))
    if a.verbose and ctx:
        for e in ctx.exs:
            for n, (x, y) in sorted(e.obl_names.items()):
                print('   %-100s %d/%d' % (n[:140], y, x))
    return rc


def run_native(pid, work, seed, seconds, jobs=3):
    """-> (held, text, runs)"""
    try:
        from vf import native
        ok, text = native.run([pid], work, seconds, seed, jobs)
    except Exception as e:
        return None, 'could not run: %s' % e, 0
    return ok, text, sum(int(x) * int(y) for x, y in re.findall(r'held in (\d+) rounds of (\d+) tests', text))


def write_evidence(pid, a, seed, ctx, mod, nobl, ndis, wall, violations, err, listed, nat=None, rc=0):
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    roots = ctx.roots if ctx else []
    models = {}
    inl = set()
    st = 0.0
    q = 0
    names = {}
    for e in (ctx.exs if ctx else []):
        models.update(e.used_models)
        inl |= e.inlined
        st += e.solver_time
        q += e.queries
        for n, (x, y) in e.obl_names.items():
            o = names.setdefault(n, [0, 0])
            o[0] += x
            o[1] += y
    inl_names = sorted({ir.dem(n).split('(')[0][:120] for n in inl if 'xdispatch' in ir.dem(n).split('(')[0]})
    ev = {
        'property': pid, 'tier': a.tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': nobl, 'discharged': ndis,
            'checker_cmd': 'cd /verif && python3-vt -m vf.run %s --tier %s' % (pid, a.tier),
            'trusted_base': ['clang 18 front end (-O0 LLVM IR)', 'VF verification-condition generator (/verif/vf)', 'z3 (python3-vt z3-solver)']
                            + ['assumed contract: ' + m for m in sorted(models)],
            'functions_under_contract': ['%s: %s' % (n, f[:200]) for n, f in roots],
            'functions_verified_inline': inl_names,
            'back_end': 'z3', 'solver_queries': q, 'solver_time_s': round(st, 2),
            'obligations_by_name': {n: '%d/%d' % (y, x) for n, (x, y) in sorted(names.items())},
            'paths': sum(e.paths for e in ctx.exs) if ctx else 0,
            'loops': 'cut with inductive invariants; no bound',
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + (ctx.assumptions if ctx else []),
        'wall_s': round(wall, 2),
        'violations': len(violations),
        'tools': {'z3': 'python3-vt', 'clang': '18.1.3'},
    }
    if nat:
        ev['coverage']['native_runs'] = {'label': 'bounded, not counted as proved', 'driver': 'replay/%s.cpp' % pid,
                                         'executions': nat[2], 'held': nat[0]}
    if not violations and rc == 0 and (err or not nobl or nobl != ndis + len(listed)):
        # only the bounded stand-in has given an answer
        ev['level'] = 'exploration'
        ev['coverage'].update({'evaluations': nat[2], 'distinct_nontrivial': nat[2],
                               'rule': 'one execution of a scenario of replay/%s.cpp under a disturbed schedule with random parameters' % pid,
                               'samples': re.findall(r'driver .*', nat[1])}) if nat else None
    if err:
        ev['coverage']['error'] = err
    if violations:
        ev['coverage']['failed_obligations'] = violations
    if listed:
        ev['coverage']['known_findings'] = ['%s (%s)' % (f.name, f.line) for f, _ in listed]
    with open('%s/evidence/%s.json' % (VERIF, pid), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    main()
