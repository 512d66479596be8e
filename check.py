#!/usr/bin/env python3
"""check.py ID  - decides one property on /repo's current tree.

1. the functions the property depends on are extracted from /repo (tools/extract) and
   verified by Verus against the contracts in contracts/*.vc;
2. loop-free full-domain contract harnesses are verified by Kani (harness/src/proofs.rs);
3. the same contract checks run natively on the real crate over generated inputs: they
   replay/search failing inputs for (1) and (2), and stand in, bounded, for functions the
   verifiers do not reach.
Outcome: exit 0, or exit 1 with a VIOLATION line.
"""
import sys, os, json, time, subprocess, re, hashlib, glob, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
from props import PROPS
REPO = '/repo'
ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE='true', RUSTFLAGS='--cap-lints warn -Awarnings --cfg rust_3d_verif', RUSTUP_TOOLCHAIN='stable', CARGO_TERM_COLOR='never')
ENV.pop('CARGO_TARGET_DIR', None)
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
T0 = time.time()

DEFINITE = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
            'possible arithmetic underflow/overflow', 'possible division by zero', 'decreases not satisfied', 'possible bit shift',
            'loop ensures not satisfied', 'bitvector', 'assert_bitvector', 'recommendation not met')
TOOL = ('rlimit', 'Resource limit', 'timed out', 'not supported')


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def run(cmd, cwd=V, timeout=600, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return -99, o.decode('utf8', 'replace'), 'timed out'


def in_parallel(f, xs, workers):
    with ThreadPoolExecutor(max_workers=workers) as ex:
        yield from ex.map(f, xs)


def build_extract():
    rc, o, e = run(['cargo', 'build', '--offline', '--quiet'], cwd=V + '/tools/extract')
    if rc != 0:
        raise SystemExit('cannot build extractor: ' + e[-2000:])
    return V + '/tools/extract/target/debug/extract'


def build_drive():
    rc, o, e = run(['cargo', 'build', '--offline', '--quiet', '--release'], cwd=V + '/harness')
    if rc != 0:
        log('harness does not build against the current tree:', e[-1500:])
        return None
    return V + '/harness/target/release/drive'


# ---------------------------------------------------------------------------- Verus
def label_at(m, line):
    best = None
    for a, b, f, l in m['map']:
        if a <= line < b or (a <= line <= b):
            if best is None or (b - a) < best[0]:
                best = (b - a, l)
    return best[1] if best else None


def verus_unit(unit, work, mustfail=False):
    """returns dict: verified, errors, definite[], undecided[], functions, trusted, rules, smt_ms"""
    ex = V + '/tools/extract/target/debug/extract'
    vc = V + '/contracts/%s.vc' % unit
    trust = []
    base = json.load(open(V + '/contracts/baseline.json')) if os.path.exists(V + '/contracts/baseline.json') else {}
    scaf0 = base.get(unit, {})
    res = dict(unit=unit, verified=0, errors=0, definite=[], undecided=[], functions=[], smt_ms=0, rules=[], wall=0)
    t0 = time.time()
    for attempt in range(6):
        out = '%s/%s%s.rs' % (work, unit, '_mf' if mustfail else '')
        mp = out[:-3] + '.json'
        env = dict(ENV)
        if trust:
            env['EXTRACT_TRUST'] = '\x01'.join(trust)
        if mustfail:
            env['EXTRACT_MUSTFAIL'] = '1'
        rc, o, e = run([ex, REPO, vc, out, mp], env=env)
        if rc != 0:
            res['undecided'].append(dict(fn='(whole unit)', why='extraction: ' + (e.strip().splitlines() or ['failed'])[-1]))
            res['failed_unit'] = True
            return res
        m = json.load(open(mp))
        res['rules'] = m['rules']
        lost = {l: w for l, w in m['lost']}
        scaf = {f[0]: f[2] for f in m['functions']}
        cmd = ['verus', out, '--triggers-mode', 'silent', '--output-json', '--time', '--error-format=json', '--no-report-long-running',
               '--rlimit', '60' if not mustfail else '10', '--num-threads', '4']
        if mustfail:
            cmd += ['--multiple-errors', '1']
        rc, o, e = run(cmd, cwd=work, timeout=500)
        res['cmd'] = ' '.join(cmd)
        errs = []
        for ln in e.splitlines():
            ln = ln.strip()
            if ln.startswith('{'):
                try:
                    d = json.loads(ln)
                except ValueError:
                    continue
                if d.get('level') == 'error' and d.get('spans'):
                    errs.append(d)
                elif d.get('level') == 'error' and 'aborting' not in d.get('message', ''):
                    errs.append(d)
        try:
            j = json.loads(o)
        except ValueError:
            j = {}
        vr = j.get('verification-results', {})
        hard = []
        definite = []
        tool = []
        for d in errs:
            msg = d['message']
            labels = [label_at(m, s['line_start']) for s in d['spans']]
            exits = [label_at(m, s['line_start']) for s in d['spans'] if 'exit' in (s.get('label') or '') or 'end of the function' in (s.get('label') or '')]
            lab = next((l for l in exits if l), None) or next((l for l in labels if l and l in scaf), None) or next((l for l in labels if l), None)
            if msg.startswith('precondition') or msg.startswith('invariant') or msg.startswith('assertion') or 'arithmetic' in msg:
                prim = [label_at(m, s['line_start']) for s in d['spans'] if s.get('is_primary')]
                lab = next((l for l in prim if l and l in scaf), None) or lab
            rec = dict(fn=lab or '(contract lemma)', msg=msg, text=d.get('rendered', '')[:1500])
            if any(msg.startswith(x) or x in msg for x in TOOL):
                tool.append(rec)
            elif any(x in msg for x in DEFINITE):
                definite.append(rec)
            else:
                hard.append(rec)
        if 'verified' not in vr or vr.get('encountered-vir-error'):
            hard += [x for x in tool if 'not supported' in x['msg']]
        if hard or rc == -99 or 'verified' not in vr or vr.get('encountered-vir-error'):
            new = [h['fn'] for h in hard if h['fn'] in scaf and h['fn'] not in trust]
            if rc == -99 or not new:
                res['undecided'].append(dict(fn='(whole unit)', why='verifier: ' + (hard[0]['text'] if hard else e[-600:])))
                res['failed_unit'] = True
                res['wall'] = time.time() - t0
                return res
            if mustfail:
                trust += new
                continue
            for h in hard:
                if h['fn'] in new:
                    res['undecided'].append(dict(fn=h['fn'], why='not accepted by the verifier: ' + h['msg'] + '\n' + h['text']))
            trust += list(dict.fromkeys(new))
            continue
        res['verified'] = vr.get('verified', 0)
        res['errors'] = vr.get('errors', 0)
        res['smt_ms'] = (j.get('times-ms', {}).get('smt') or {}).get('total', 0)
        for l, w in lost.items():
            if l not in trust:
                res['undecided'].append(dict(fn=l, why='annotations do not fit the changed body: ' + w))
        for t in tool:
            res['undecided'].append(dict(fn=t['fn'], why=t['msg']))
        for d in definite:
            f = d['fn']
            if f in scaf0 and scaf.get(f) != scaf0.get(f):
                res['undecided'].append(dict(fn=f, why='loop structure changed, the loop annotations no longer fit: ' + d['msg']))
            else:
                res['definite'].append(d)
        res['functions'] = [(f[0], f[1] or f[0] in lost or f[0] in trust) for f in m['functions']]
        res['failing_fns'] = sorted({d['fn'] for d in definite})
        txt = open(out).read()
        res['assumed'] = scan_assumptions(txt)
        traits = set(re.findall(r'\btrait (\w+)', txt))
        res['declared'] = {f for f, t in res['functions'] if t and f.split('::')[-2:-1] and f.split('::')[-2] in traits}
        break
    res['wall'] = round(time.time() - t0, 2)
    return res


def scan_assumptions(txt):
    out = []
    for mm in re.finditer(r'(assume_specification[^;{]{0,160}|#\[verifier::external_body\]\s*\n?[^\n{]{0,160}|\badmit\(\)|\bassume\([^;]{0,120}|axiom fn [^\n{]{0,120}|#\[verifier::external[^\]]*\][^\n{]{0,80})', txt):
        out.append(re.sub(r'\s+', ' ', mm.group(0)).strip()[:170])
    return list(dict.fromkeys(out))


# ---------------------------------------------------------------------------- Kani
def kani(prefixes, work, timeout):
    res = dict(harnesses={}, undecided=[], definite=[], wall=0, checks=0)
    t0 = time.time()
    env = dict(ENV)
    env.pop('RUSTUP_TOOLCHAIN', None)
    cmd = ['cargo', 'kani', '--output-format', 'terse', '-j', '8', '-Z', 'unstable-options', '--harness-timeout', '%ds' % timeout]
    for p in prefixes:
        cmd += ['--harness', p]
    rc, o, e = run(cmd, cwd=V + '/harness', timeout=800, env=env)
    txt = o + '\n' + e
    open(work + '/kani.log', 'w').write(txt)
    res['cmd'] = ' '.join(cmd)
    cur = {}
    for ln in txt.splitlines():
        mm = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', ln)
        if mm:
            cur[mm.group(1)] = mm.group(2)
            res['harnesses'].setdefault(mm.group(2), 'no verdict')
    # summary section per thread is interleaved: use the final summary and per-harness blocks
    blocks = re.split(r'(?m)^(?:Thread \d+: )?Checking harness ', txt)
    th = {}
    curthread = None
    name = None
    for ln in txt.splitlines():
        mm = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', ln)
        if mm:
            th[mm.group(1)] = mm.group(2)
            if mm.group(1) is None:
                name = mm.group(2)
            continue
        mm = re.match(r'Thread (\d+):\s*$', ln)
        if mm:
            name = th.get(mm.group(1))
            continue
        mm = re.match(r'Thread (\d+): ', ln)
        if mm:
            name = th.get(mm.group(1), name)
        mm = re.search(r'\*\* (\d+) of (\d+) failed', ln)
        if mm:
            res['checks'] += int(mm.group(2))
        if name:
            if 'VERIFICATION:- SUCCESSFUL' in ln:
                res['harnesses'][name] = 'ok'
            elif 'VERIFICATION:- FAILED' in ln:
                res['harnesses'][name] = 'failed'
            elif 'timed out' in ln or 'CBMC timed out' in ln:
                res['harnesses'][name] = 'timeout'
    for mm in re.finditer(r'Verification failed for - (\S+)', txt):
        if res['harnesses'].get(mm.group(1)) != 'timeout':
            res['harnesses'][mm.group(1)] = 'failed'
    if not res['harnesses']:
        res['undecided'].append('kani produced no verdict: ' + txt[-1200:])
    res['wall'] = round(time.time() - t0, 1)
    for h, v in list(res['harnesses'].items()):
        if v == 'failed':
            kani_cex(h, res, work, env, timeout)
        elif v != 'ok':
            res['undecided'].append('%s: %s' % (h, v))
    return res


def kani_cex(h, res, work, env, timeout):
    cmd = ['cargo', 'kani', '--exact', '--harness', h, '-Z', 'concrete-playback', '--concrete-playback=print',
           '-Z', 'unstable-options', '--harness-timeout', '%ds' % timeout]
    rc, o, e = run(cmd, cwd=V + '/harness', timeout=600, env=env)
    txt = o + '\n' + e
    open(work + '/kani_%s.log' % h.split('::')[-1], 'w').write(txt)
    fails = re.findall(r'Failed Checks: (.*)', txt)
    real = [f for f in fails if 'unwinding assertion' not in f and 'is not currently supported' not in f and 'unsupported' not in f.lower()]
    if not real:
        res['undecided'].append('%s: %s' % (h, '; '.join(fails) or 'failed without reason'))
        res['harnesses'][h] = 'undecided'
        return
    cexs = []
    for blk in re.findall(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', txt, re.S):
        vals = []
        for v in re.findall(r'vec!\[([0-9, ]*)\]', blk):
            bs = [int(x) for x in v.split(',') if x.strip()]
            vals.append(int.from_bytes(bytes(bs), 'little'))
        cexs.append(vals)
    res['definite'].append(dict(fn=h, msg='; '.join(real)[:300], cex=cexs, text=txt[-3000:]))


# ---------------------------------------------------------------------------- native
def native(drive, prop, scale, maxms, work, only=None, timeout=400):
    out = []
    for f in glob.glob(work + '/*.cur'):
        os.remove(f)
    cmd = [drive, 'run', prop, str(SEED), str(scale), str(maxms), work] + ([only] if only else [])
    rc, o, e = run(cmd, timeout=timeout)
    for ln in o.splitlines():
        if ln.startswith('{'):
            out.append(json.loads(ln))
    if rc != 0:
        # the process died (abort, stack overflow, out of memory) or hung: the .cur files name the cases that were running
        for f in glob.glob(work + '/*.cur'):
            chk = os.path.basename(f)[len(prop) + 1:-4]
            idx = int.from_bytes(open(f, 'rb').read(8) or b'\0', 'little')
            rc2, o2, e2 = run([drive, 'case', prop, chk, str(SEED), str(idx), work], timeout=30)
            if rc2 not in (0, 1):
                p = '%s/%s_%s_abort.json' % (work, prop, chk)
                why = 'does not return within 30 s' if rc2 == -99 else 'process aborts: ' + e2.strip()[-300:]
                json.dump(dict(property=prop, check=chk, seed=SEED, case=idx, what=why,
                               rerun='drive case %s %s %d %d OUT' % (prop, chk, SEED, idx)), open(p, 'w'), separators=(',', ':'))
                out.append(dict(check=chk, evaluations=idx + 1, discarded=0, distinct=0, assertions=0, ms=0, sample=[],
                                fails=[dict(what=why, replay=p, values=['case %d' % idx])]))
            else:
                out.append(dict(check=chk, evaluations=0, discarded=0, distinct=0, assertions=0, ms=0, sample=[], fails=[], died=True))
    return out


def known():
    p = V + '/known_findings.txt'
    r = []
    if os.path.exists(p):
        for ln in open(p):
            mm = re.match(r'known: property=(\S+) check=(\S+) what=(.*?) :: (.*)', ln.strip())
            if mm:
                r.append(mm.groups())
    return r


def main():
    pid = sys.argv[1]
    P = PROPS[pid]
    thorough = TIER == 'thorough'
    work = V + '/work/' + pid
    os.makedirs(work, exist_ok=True)
    for f in glob.glob(work + '/*'):
        if os.path.isfile(f):
            os.remove(f)
    os.makedirs(V + '/evidence', exist_ok=True)
    build_extract()
    drive = build_drive()
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=P['level'], coverage={}, assumptions=list(P.get('assumptions', [])))
    cov = ev['coverage']
    units, definite, undecided = [], [], []
    vu = sorted(P.get('verus', []), key=lambda u: -os.path.getsize(V + '/contracts/%s.vc' % u))
    for u, r in zip(vu, in_parallel(lambda u: verus_unit(u, work), vu, 3)):
        units.append(r)
        log('verus %s: %d verified, %d errors, %d definite, %d undecided (%.1fs)' % (u, r['verified'], r['errors'], len(r['definite']), len(r['undecided']), r['wall']))
        for d in r['definite']:
            definite.append(('verus', u, d))
        for d in r['undecided']:
            undecided.append('%s: %s: %s' % (u, d['fn'], d['why'].splitlines()[0]))
    kr = None
    if P.get('kani'):
        kr = kani(P['kani'], work, P.get('kani_timeout', 240 if not thorough else 600))
        nok = sum(1 for v in kr['harnesses'].values() if v == 'ok')
        log('kani: %d/%d harnesses proved (%.1fs)' % (nok, len(kr['harnesses']), kr['wall']))
        for d in kr['definite']:
            definite.append(('kani', d['fn'], d))
        undecided += ['kani ' + x for x in kr['undecided']]
    nat = []
    if drive:
        scale = P.get('scale', 1.0) * (20 if thorough else 1)
        nat = native(drive, pid, scale, 240000 if thorough else 25000, work)
        if definite and not any(n['fails'] for n in nat):
            log('obligation failed: searching harder for a failing input')
            nat += native(drive, pid, scale * 8, 60000, work)
        if undecided and not definite and not thorough and not any(n['fails'] for n in nat):
            log('some obligations undecided: larger bounded stand-in')
            nat += native(drive, pid, scale * 4, 40000, work)
    # Kani counterexamples replayed natively
    viol = []  # (what, replay, has_input)
    if drive and kr:
        for d in kr['definite']:
            chk = d['fn'].split('::')[-1].split('_', 1)[1]
            for k, c in enumerate(d.get('cex', [])):
                p = '%s/%s_%s_kani%d.json' % (work, pid, chk, k)
                open(p, 'w').write('{"property":"%s","check":"%s","what":%s,"draws":[%s],"from":"kani counterexample"}\n' % (pid, chk, json.dumps(d['msg']), ','.join(map(str, c))))
                rc, o, e = run([drive, 'replay', p], timeout=60)
                if rc == 1:
                    nat.append(dict(check=chk, evaluations=1, discarded=0, distinct=1, assertions=1, ms=0, sample=[], fails=[dict(what=o.splitlines()[0][5:].split(': ', 1)[-1], replay=p, values=[o.splitlines()[-1]])]))
                    d['replayed'] = True
                    break
    kn = known()
    printed = set()
    for n in nat:
        for f in n['fails']:
            hit = next((k for k in kn if k[0] == pid and k[1] == n['check'] and k[2] in f['what']), None)
            if hit:
                if hit not in printed:
                    printed.add(hit)
                    print('KNOWN-FINDING: property=%s %s' % (pid, hit[3]), flush=True)
                continue
            viol.append(('%s: %s' % (n['check'], f['what']), f['replay'], True))
            log('FAILING INPUT', n['check'], '|', f['what'], '|', ', '.join(f['values'])[:300])
    for w, u, d in definite:
        log('OBLIGATION FAILED', w, d['fn'], '|', d['msg'])
        if d.get('known'):
            continue
    if definite and not any(v[2] for v in viol):
        unexplained = [x for x in definite]
        if unexplained:
            p = '%s/%s_obligation.json' % (work, pid)
            json.dump(dict(property=pid, failed_obligations=[dict(tool=w, unit=u, fn=d['fn'], message=d['msg'], verifier_output=d['text']) for w, u, d in unexplained]), open(p, 'w'), indent=1)
            viol.append(('failed obligation ' + unexplained[0][2]['fn'], p, False))
    for u in undecided:
        log('UNDECIDED (bounded stand-in decides):', u)
    # vacuity guard: with assert(false) put in front of every body, every body has to be rejected
    vac = []
    if P.get('verus') and not viol and (thorough or P.get('vacuity_quick', True)):
        ok = [r for r in units if not r.get('failed_unit') and not r['errors']]
        if time.time() - T0 > 450 and not thorough:
            log('vacuity guard left out: no time left')
            ok = []
        for r, m in zip(ok, in_parallel(lambda r: verus_unit(r['unit'], work, mustfail=True), ok, 4)):
            rej = set(m.get('failing_fns', []))
            for f, tr in m.get('functions', []):
                if not tr and f not in rej:
                    vac.append('%s: %s' % (r['unit'], f))
        if vac:
            log('VACUITY: contracts whose precondition is unreachable or not confirmed reachable:', vac)
    # evidence
    fc = [f for r in units for f in r['functions']]
    obl = sum(r['verified'] + r['errors'] for r in units)
    dis = sum(r['verified'] for r in units)
    if kr:
        cov['kani'] = dict(harnesses=kr['harnesses'], cbmc_checks=kr['checks'], wall_s=kr['wall'], cmd=kr.get('cmd', ''))
        obl += len(kr['harnesses'])
        dis += sum(1 for v in kr['harnesses'].values() if v == 'ok')
    cov['obligations'] = obl
    cov['discharged'] = dis
    cov['checker_cmd'] = '; '.join([r.get('cmd', '') for r in units] + ([kr.get('cmd', '')] if kr else []))
    tb = []
    for r in units:
        tb += ['%s: %s' % (r['unit'], a) for a in r.get('assumed', [])]
    tb += ['Verus + vstd + Z3 (deductive verifier and its specifications of the Rust standard library)'] if units else []
    tb += ['Kani + CBMC (bit-precise semantics of Rust MIR and IEEE floats)'] if kr else []
    tb += ['tools/extract (mechanical splice of contracts into the current source text)'] if units else []
    cov['trusted_base'] = tb
    cov['functions_under_contract'] = [f for f, t in fc if not t]
    decl = set().union(*[r.get('declared', set()) for r in units]) if units else set()
    cov['functions_assumed_or_undecided'] = [f for f, t in fc if t and f not in decl]
    cov['trait_functions_declared_with_contract'] = sorted(decl)
    cov['extraction_rules_applied'] = [x for r in units for x in r['rules']]
    cov['verus_units'] = [dict(unit=r['unit'], verified=r['verified'], errors=r['errors'], smt_ms=r['smt_ms'], wall_s=r['wall']) for r in units]
    cov['undecided'] = undecided
    cov['vacuity_unconfirmed'] = vac
    cov['evaluations'] = sum(n['evaluations'] for n in nat)
    cov['distinct_nontrivial'] = sum(n['distinct'] for n in nat)
    cov['rule'] = 'bounded part: seeded boundary-directed inputs per check; non-trivial = at least one contract assertion evaluated, distinct by drawn values'
    cov['samples'] = [dict(check=n['check'], values=n['sample']) for n in nat if n['sample']][:12]
    cov['bounded_checks'] = [dict(check=n['check'], evaluations=n['evaluations'], assertions=n['assertions'], ms=n['ms']) for n in nat]
    cov['bounded_for'] = P.get('bounded', '')
    cov['explanation'] = P.get('note', '')
    ev['violations'] = len(viol)
    ev['wall_s'] = round(time.time() - T0, 2)
    json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    if obl == 0 and not nat:
        log('nothing was decided')
        sys.exit(2)
    if viol:
        v = sorted(viol, key=lambda x: not x[2])[0]
        print('VIOLATION property=%s replay=%s%s' % (pid, os.path.relpath(v[1], V), '' if v[2] else ' no-failing-input-found'), flush=True)
        sys.exit(1)
    log('%s holds: %d/%d obligations discharged, %d bounded evaluations' % (pid, dis, obl, cov['evaluations']))
    sys.exit(0)


if len(sys.argv) > 1 and sys.argv[1] == '--rebaseline':
    build_extract()
    base = {}
    for vc in sorted(glob.glob(V + '/contracts/*.vc')):
        u = os.path.basename(vc)[:-3]
        os.makedirs(V + '/work', exist_ok=True)
        rc, o, e = run([V + '/tools/extract/target/debug/extract', REPO, vc, V + '/work/b.rs', V + '/work/b.json'])
        if rc != 0:
            print(u, e)
            continue
        m = json.load(open(V + '/work/b.json'))
        if m['lost']:
            print(u, 'LOST', m['lost'])
        base[u] = {f[0]: f[2] for f in m['functions']}
    json.dump(base, open(V + '/contracts/baseline.json', 'w'), indent=0, sort_keys=True)
elif len(sys.argv) > 1 and sys.argv[1] == '--setup':
    build_extract()
    build_drive()
elif __name__ == '__main__':
    main()
