#!/usr/bin/env python3-vt
"""check.py <property id>: rebuilds /repo, generates and discharges the property's contracts from the
MIR of the current tree, runs the executable contracts (bounded part, counterexample search) and writes
evidence/<id>.json.  Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the check itself could not run."""
import sys, os, json, time, glob, subprocess, importlib, multiprocessing as mp, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'mirvc'))
sys.path.insert(0, os.path.join(HERE, 'props'))
sys.setrecursionlimit(20000)
REPO = '/repo'
BUILD = os.path.join(HERE, 'build')

def build():
    env = dict(os.environ)
    t0 = time.time()
    cmd = ('. /opt/vp/env.sh; export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 RUSTC_BOOTSTRAP=1 '
           f'RUSTC_WRAPPER={HERE}/harness/rustc-wrap.sh CARGO_TARGET_DIR={BUILD}; '
           f'cd {HERE}/harness && cargo build --offline')
    for old in glob.glob(BUILD + '/debug/deps/ink_*.mir'):
        pass
    p = subprocess.run(['bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-6000:])
        print('check: the build of /repo with the harness failed')
        sys.exit(2)
    return time.time() - t0

def mirfile(crate):
    fs = sorted(glob.glob(f'{BUILD}/debug/deps/{crate}-*.mir'), key=os.path.getmtime)
    if not fs:
        print(f'check: no MIR for {crate}')
        sys.exit(2)
    return fs[-1]

_G = {}
def _work(i):
    import kit
    con = _G['cons'][i]
    signal.alarm(_G['limit'])
    try:
        return kit.run_contract(con, _G['crates'], _G['defs'])
    except _Alarm:
        return dict(contract=con.name, fn=con.fn, crate=con.crate, doc=con.doc, status='undecided', why='time limit', obligations=[],
                    functions=[], inlined=[], models=[], externs=[], paths=0, queries=0, solver_s=0, reach=0, notes=[], wall=_G['limit'])
    finally:
        signal.alarm(0)
class _Alarm(BaseException):
    pass
def _onalarm(*a):
    raise _Alarm()

def main():
    pid = sys.argv[1]
    rebase = '--rebaseline' in sys.argv
    nobuild = '--no-build' in sys.argv
    noharness = '--no-harness' in sys.argv
    only = [a[7:] for a in sys.argv if a.startswith('--only=')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    build_s = 0.0 if nobuild else build()
    import mir, defs, kit
    mod = importlib.import_module(pid.lower())
    D = defs.load(REPO)
    need = set(c.crate for c in mod.CONTRACTS) | set(getattr(mod, 'ALSO', ()))
    for c in mod.CONTRACTS:
        need |= set(c.extra)
    order = [c for c in ('lsp', 'ana', 'ir') if c in need]
    tl = time.time()
    crates = [mir.Crate(kit.CRATES[c], mirfile(kit.CRATES[c]), REPO) for c in order]
    load_s = time.time() - tl
    cons = [c for c in mod.CONTRACTS if not only or any(o in c.name for o in only)]
    _G.update(cons=cons, crates=crates, defs=D, limit=(getattr(mod, 'LIMIT', 400) if tier == 'quick' else 900))
    signal.signal(signal.SIGALRM, _onalarm)
    # harness in parallel with the proof
    hp = None
    if not noharness:
        hcmd = [f'{BUILD}/debug/ivh', pid, str(seed), tier]
        hp = subprocess.Popen(['timeout', '-k', '5', str(300 if tier == 'quick' else 1500)] + hcmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd='/')
    import threading
    hout = {}
    def rd():
        o, e = hp.communicate()
        hout['o'], hout['e'] = o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    if hp:
        th = threading.Thread(target=rd)
        th.start()
    with mp.get_context('fork').Pool(min(7, max(1, len(cons))), maxtasksperchild=1) as pool:
        results = pool.map(_work, range(len(cons)), chunksize=1)
    harness = None
    if hp:
        th.join()
        for line in hout['o'].splitlines():
            if line.startswith('{"ivh"'):
                harness = json.loads(line)
        if harness is None:
            harness = dict(evaluations=0, distinct_nontrivial=0, samples=[], failures=[dict(
                id='harness-died', what=f'the executable contracts did not finish (exit {hp.returncode}): the code under test aborted or hung',
                input=(hout['o'][-1500:] + '\n' + hout['e'][-3000:]))], rule='')
    # ---- decide
    bpath = os.path.join(HERE, 'baseline', pid + '.json')
    base = json.load(open(bpath)) if os.path.exists(bpath) else {}
    if rebase:
        nb = {r['contract']: dict(externs=r['externs'], status=r['status'], obligations=len(r['obligations'])) for r in results}
        json.dump(nb, open(bpath, 'w'), indent=1, sort_keys=True)
        base = nb
    known = load_known(pid)
    obl = proved = 0
    viol, undec, kf = [], [], []
    for r in results:
        if r['status'] != 'done':
            undec.append((r['contract'], r['why']))
        allowed = set(base.get(r['contract'], {}).get('externs', []))
        new_ext = [x for x in r['externs'] if x not in allowed]
        was = base.get(r['contract'], {}).get('status') == 'done'
        for o in r['obligations']:
            if r['status'] != 'done' and o['status'] == 'proved':
                continue
            obl += 1
            if o['status'] == 'proved':
                proved += 1
            elif o['status'] == 'failed':
                k = next((k for k in known if k.get('obligation') and k['obligation'] in f"{r['contract']}: {o['name']}"), None)
                if k:
                    kf.append(k)
                elif new_ext and not rebase:
                    undec.append((r['contract'], f"{o['name']}: counterexample depends on library functions without a contract: {new_ext[:4]}"))
                elif r['status'] == 'done' or was or True:
                    viol.append(dict(kind='obligation', contract=r['contract'], fn=r['fn'], name=o['name'], detail=o.get('detail', ''), goal=o.get('goal', '')))
            else:
                undec.append((r['contract'], f"{o['name']}: solver: {o.get('detail','')[:80]}"))
    hv = []
    if harness:
        for f in harness.get('failures', []):
            k = next((k for k in known if k.get('harness') and k['harness'] == f['id']), None)
            if k:
                kf.append(k)
            else:
                hv.append(f)
    solver_s = round(sum(r['solver_s'] for r in results), 3)
    cov = dict(
        obligations=obl, discharged=proved,
        checker_cmd=f'python3-vt check.py {pid}',
        trusted_base=['rustc 1.78 (MIR construction)', 'mirvc (VC generator in /verif/mirvc)', 'z3 (python3-vt)'] +
                     [f'assumed contract on library function: {m}' for m in sorted({m for r in results for m in r['models']})] +
                     [f'uninterpreted (pure, total, deterministic) external function: {m}' for m in sorted({m for r in results for m in r['externs']})],
        functions_under_contract=sorted({f"{r['crate']}::{f}" for r in results for f in r['functions']}),
        functions_inlined=sorted({f for r in results for f in r['inlined']}),
        contracts=[dict(contract=r['contract'], fn=r['fn'], states=r['doc'], status=r['status'], obligations=len(r['obligations']),
                        discharged=sum(o['status'] == 'proved' for o in r['obligations']), paths=r['paths'], solver_s=r['solver_s'],
                        **({'why': r['why']} if r['status'] != 'done' else {})) for r in results],
        backend='z3', solver_s=solver_s, paths=sum(r['paths'] for r in results), queries=sum(r['queries'] for r in results),
        undecided=[f'{a}: {b}' for a, b in undec], mir_load_s=round(load_s, 2), build_s=round(build_s, 1),
    )
    if harness:
        cov['bounded_stand_in'] = dict(evaluations=harness['evaluations'], distinct_nontrivial=harness['distinct_nontrivial'],
                                       rule=harness.get('rule', ''), samples=harness.get('samples', [])[:5], failures=len(harness.get('failures', [])),
                                       label='bounded: executable form of the same contracts on the compiled code; never counted as proved')
    assumptions = list(getattr(mod, 'ASSUMPTIONS', [])) + [
        'unwind/cleanup edges and drop glue are dropped from the MIR; Drop impls are assumed to have no effect on the specified state',
        'machine integers: overflow checks are obligations (panic paths); as-casts wrap',
        'no unsafe code in the functions under contract; library functions behave as in the listed assumed contracts',
    ]
    nviol = len(viol) + len(hv)
    lines, code = [], 0
    for k in {json.dumps(k, sort_keys=True): k for k in kf}.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if nviol:
        code = 1
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        rp = os.path.join(HERE, 'replay', f'{pid}.json')
        json.dump(dict(property=pid, failing_inputs=hv, failed_obligations=viol, seed=seed, tier=tier,
                       replay=f'VERIF_SEED={seed} VERIF_TIER={tier} python3-vt check.py {pid}'), open(rp, 'w'), indent=1)
        for f in hv[:5]:
            print('failing input:', f['id'], '|', f['what'][:400])
        for v in viol[:8]:
            print('failed obligation:', v['contract'], '|', v['fn'], '|', v['name'])
        print(f"VIOLATION property={pid} replay={rp}" + ('' if hv else ' no-failing-input-found'))
    for a, b in undec:
        print('undecided:', a, '|', b[:700 if only else 200])
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof'), coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print(f'{pid}: {proved}/{obl} obligations discharged over {len(cov["functions_under_contract"])} functions, {len(undec)} undecided, '
          f'{harness["evaluations"] if harness else 0} bounded evaluations, {time.time()-t0:.1f}s (build {build_s:.1f}s, load {load_s:.1f}s)')
    sys.exit(code)

def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == pid]

if __name__ == '__main__':
    main()
