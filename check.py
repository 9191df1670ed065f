#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code.

  check.py C01 [--tier quick|thorough]

1. copies the harness crates to a scratch directory and points them at /repo's
   current sources;
2. compiles them (with the code under test, its dependencies and std) to one
   LLVM IR module each, and builds the symbolic executor (engine/lsx.cpp);
3. runs every harness entry of the property: all paths within the bounds, every
   assertion decided by the solver over all input values of the path;
4. pushes models of explored paths through the natively compiled harness and
   compares every observation (translator validation), and replays every
   counterexample natively;
5. writes evidence/<id>.json.

Exit 0: held on everything within the bounds. Exit 1 + VIOLATION line: a
counterexample which reproduces natively. Anything else: the check is broken.
"""
import sys, os, json, subprocess, tempfile, shutil, time, threading, re, glob, tarfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import spec

REPO = os.environ.get('LSX_REPO', '/repo')
TOOLCHAIN = '1.94'
T0 = time.time()
BUDGET = float(os.environ.get('LSX_BUDGET', '800'))
JOBS = int(os.environ.get('LSX_JOBS', str(min(8, os.cpu_count() or 8))))


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


class Broken(Exception):
    pass


def run(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def cargo_env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith('CARGO_') or k == 'CARGO_HOME'}
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_CFG_HTTPARSE_DISABLE_SIMD'] = '1'
    e.pop('RUSTFLAGS', None)
    e.pop('CARGO_TARGET_DIR', None)
    if extra:
        e.update(extra)
    return e


def unpack(crate, d):
    """the sources of a crate from cargo's cache, under the files which are there already"""
    home = os.environ.get('CARGO_HOME') or os.path.expanduser('~/.cargo')
    c = sorted(glob.glob(os.path.join(home, 'registry', 'cache', '*', crate + '.crate')))
    if not c:
        raise Broken('%s is not in the cargo cache' % crate)
    with tarfile.open(c[0]) as t:
        for m in t.getmembers():
            rel = m.name.split('/', 1)[1] if '/' in m.name else ''
            to = os.path.join(d, rel)
            if m.isfile() and (rel.startswith('src/') or rel == 'build.rs') and not os.path.exists(to):
                os.makedirs(os.path.dirname(to), exist_ok=True)
                with open(to, 'wb') as f:
                    f.write(t.extractfile(m).read())
    prep = os.path.join(d, 'prep.py')
    if os.path.exists(prep):
        rc, o = run([sys.executable, prep, d])
        if rc:
            raise Broken('%s: %s' % (prep, o))


def copy_tree(scratch):
    """ir/: the crates as the executor sees them; nat/: the same with the stand-ins of third-party
    crates replaced by the real ones (manifest lines `<stand-in> #native: <real>`)"""
    for kind in ('ir', 'nat'):
        for d in ('symrt', 'shims', 'dep', 'harness'):
            src = os.path.join(VERIF, d)
            if os.path.isdir(src):
                shutil.copytree(src, os.path.join(scratch, kind, d), ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
        # third-party crates whose real sources are used with a few files replaced
        for d in sorted(os.listdir(os.path.join(scratch, kind, 'dep'))):
            d = os.path.join(scratch, kind, 'dep', d)
            if os.path.exists(os.path.join(d, 'FROM')):
                unpack(open(os.path.join(d, 'FROM')).read().strip(), d)
        for root, _, files in os.walk(os.path.join(scratch, kind)):
            for f in files:
                if f == 'Cargo.toml' or f.endswith('.rs'):
                    p = os.path.join(root, f)
                    s = o = open(p, encoding='utf-8').read()
                    if kind == 'nat' and f == 'Cargo.toml':
                        s = re.sub(r'(?m)^.*#native:[ ]?(.*)$', r'\1', s)
                    s = s.replace('@REPO@', REPO)
                    if s != o:
                        open(p, 'w', encoding='utf-8').write(s)


def prepare(scratch, crates):
    """source preparation steps which need the repo's text (see spec.PREPARE)"""
    for c in crates:
        fn = spec.PREPARE.get(c)
        if fn:
            try:
                for kind in ('ir', 'nat'):
                    fn(REPO, os.path.join(scratch, kind, 'harness', c))
            except OSError as e:
                raise Broken('preparing %s: %s' % (c, e))


def build_engine(scratch):
    pre = os.environ.get('LSX_BIN')
    if pre:
        return pre
    out = os.path.join(scratch, 'lsx')
    rc, o = run(['g++', '-std=c++17', '-O1', '-w', '-o', out, os.path.join(VERIF, 'engine', 'lsx.cpp'), '-lz3'])
    if rc:
        raise Broken('engine does not compile:\n' + o[-3000:])
    return out


def build_ir(scratch, crate):
    d = os.path.join(scratch, 'ir', 'harness', crate)
    t = os.path.join(d, 'target-ir')
    rc, o = run(['cargo', 'rustc', '--offline', '--release', '--lib', '--crate-type', 'cdylib', '--target-dir', t, '--',
                 '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'], cwd=d, env=cargo_env())
    ll = os.path.join(t, 'release', 'deps', 'h_%s.ll' % crate)
    if rc or not os.path.exists(ll):
        raise Broken('harness %s does not compile against %s:\n%s' % (crate, REPO, o[-6000:]))
    return ll


def build_native(scratch, crate, profile='dev'):
    d = os.path.join(scratch, 'nat', 'harness', crate)
    t = os.path.join(d, 'target-native-' + profile)
    rc, o = run(['cargo', 'build', '--offline', '--profile', profile, '--bin', 'replay', '--features', 'native', '--target-dir', t],
                cwd=d, env=cargo_env())
    b = os.path.join(t, 'debug' if profile == 'dev' else profile, 'replay')
    if rc or not os.path.exists(b):
        raise Broken('native replay of %s does not compile:\n%s' % (crate, o[-6000:]))
    return b


def native(binary, entry, hexin, params, timeout=20):
    """returns (outcome, assert id, observations, covers)"""
    with tempfile.TemporaryDirectory(prefix='lsxrun-') as td:
        env = {k: v for k, v in os.environ.items()}
        env['RUST_BACKTRACE'] = '0'
        env['LSX_TMP'] = td
        env['HOME'] = os.path.join(td, '.no-home')  # no user configuration
        env.pop('XDG_CONFIG_HOME', None)
        try:
            p = subprocess.run([binary, entry, hexin] + [str(x) for x in params], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout, cwd=td, env=env)
        except subprocess.TimeoutExpired:
            return 'HANG', None, '', [], ''
    out = p.stdout.decode('utf-8', 'replace')
    err = p.stderr.decode('utf-8', 'replace')
    obs, cov, aid, kind = '', [], None, None
    for l in out.splitlines():
        if l.startswith('OBS'):
            obs = l[3:].strip()
        elif l.startswith('COVER '):
            cov.append(l[6:].strip())
        elif l.startswith('ASSERT '):
            kind, aid = 'ASSERT', int(l[7:])
        elif l == 'ASSUME':
            kind = 'ASSUME'
        elif l == 'DONE':
            kind = 'DONE'
        elif l == 'PANIC':
            kind = 'PANIC'
    if kind is None:
        kind = 'CRASH(%d)' % p.returncode
    return kind, aid, obs, cov, err


def lsx(engine, ll, entry, params, r, tlim, known, tag, scratch):
    out = os.path.join(scratch, 'out-%s.json' % tag)
    cmd = [engine, ll, '--entry', entry, '--out', out, '--time', '%d' % tlim, '--jobs', str(r.get('jobs', JOBS)), '--root', REPO + '/',
           '--samples', str(r.get('samples', 16)), '--seed', os.environ.get('VERIF_SEED', '1'), '--max-instr', str(r.get('max_instr', 3000000)),
           '--ztimeout', str(r.get('ztimeout', 20000))]
    for p in params:
        cmd += ['--param', str(p)]
    for k in known:
        cmd += ['--known', str(k)]
    if r.get('xcheck'):
        cmd += ['--xcheck']
    try:
        rc, o = run(cmd, timeout=tlim + 120)
    except subprocess.TimeoutExpired:
        raise Broken('executor ran past its limit on ' + entry)
    if rc or not os.path.exists(out):
        raise Broken('executor failed on %s (rc %s): %s' % (entry, rc, o[-2000:]))
    return json.load(open(out))


def load_known(prop):
    """known_findings.txt: `KNOWN property=<id> entry=<entry> assert=<n> <what fails>`; 'fixed:' lines suppress nothing."""
    k = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN property=(\S+) entry=(\S+) assert=(\d+) (.*)', l.strip())
            if m and m.group(1) == prop:
                k.append((m.group(2), int(m.group(3)), m.group(4)))
    return k


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = spec.PROPS[prop]
    runs = P['runs']
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1].split(',')
        runs = [r for r in runs if r['entry'] in only]
    crates = sorted({r['crate'] for r in runs})
    known = load_known(prop)
    scratch = tempfile.mkdtemp(prefix='lsx-%s-' % prop)
    keep = os.environ.get('LSX_KEEP')
    if keep:
        log('scratch', scratch)
    try:
        copy_tree(scratch)
        prepare(scratch, crates)
        with ThreadPoolExecutor(8) as ex:
            fe = ex.submit(build_engine, scratch)
            fi = {c: ex.submit(build_ir, scratch, c) for c in crates}
            fn = {c: ex.submit(build_native, scratch, c) for c in crates}
            engine = fe.result()
            irs = {c: fi[c].result() for c in crates}
            nats = {c: fn[c].result() for c in crates}
        log('built', crates)
        violations, knownhits, errors = [], {}, []
        recs = []
        shipped = {}
        tot = dict(paths=0, queries=0, sat=0, unsat=0, zsec=0.0, dom=0, assume_cut=0, instr=0, asserts=0)
        funcs, lines, samples, validated = {}, {}, [], 0
        quickcap = P.get('cap', 420)
        for i, r in enumerate(runs):
            levels = r['thorough'] if tier == 'thorough' and 'thorough' in r else r['quick']
            for li, params in enumerate(levels):
                left = BUDGET - (time.time() - T0)
                if tier == 'thorough':
                    left = float(os.environ.get('LSX_THOROUGH_BUDGET', '3600'))
                if li > 0 and (violations or errors):
                    break
                kids = [k[1] for k in known if k[0] == r['entry']]
                tag = '%d-%d' % (i, li)
                j = lsx(engine, irs[r['crate']], r['entry'], params, r, max(20, min(left - 30, quickcap if tier == 'quick' else left)), kids, tag, scratch)
                recs.append(dict(entry=r['entry'], params=params, paths=j['paths'], assume_cut=j['assume_cut'], z3_queries=j['z3_queries'],
                                 z3_unsat=j['z3_unsat'], z3_seconds=round(j['z3_seconds'], 2), byte_domain_decisions=j['byte_domain_decisions'],
                                 instructions=j['instructions'], wall_s=round(j['wall_s'], 2), covers=sorted(int(c) for c in j['covers']),
                                 incomplete=j['incomplete'], asserts={k: v for k, v in j['asserts'].items()}, what=r.get('what', '')))
                log('%s%s: %d paths, %d queries, %.1fs solver, %.1fs wall, fails %d, incomplete %s' % (
                    r['entry'], params, j['paths'], j['z3_queries'], j['z3_seconds'], j['wall_s'], len(j['fails']), j['incomplete']))
                tot['paths'] += j['paths']; tot['queries'] += j['z3_queries']; tot['sat'] += j['z3_sat']; tot['unsat'] += j['z3_unsat']
                tot['zsec'] += j['z3_seconds']; tot['dom'] += j['byte_domain_decisions']; tot['assume_cut'] += j['assume_cut']
                tot['instr'] += j['instructions']; tot['asserts'] += sum(j['asserts'].values())
                for f, x in j['functions'].items():
                    funcs.setdefault(f, set()).update(x)
                for f, x in j['lines'].items():
                    lines[f] = max(lines.get(f, 0), x)
                if j['xdisagree']:
                    errors.append('%s: byte-domain decision and solver disagree' % r['entry'])
                nat = nats[r['crate']]
                # counterexamples first: they are what counts
                newfail = False
                for f in j['fails']:
                    kind, aid, obs, cov, err = native(nat, r['entry'], f['input'], params)
                    how = 'dev profile'
                    if kind in ('DONE', 'ASSUME'):
                        if r['crate'] not in shipped:
                            shipped[r['crate']] = build_native(scratch, r['crate'], 'shipped')
                        kind, aid, obs, cov, err = native(shipped[r['crate']], r['entry'], f['input'], params)
                        how = 'release profile'
                    if kind in ('DONE', 'ASSUME'):
                        errors.append('%s: counterexample %s (%s %s) does not reproduce natively; stack %s' % (r['entry'], f['input'], f['kind'], f['id'], f['stack'][:600]))
                        continue
                    kn = [k for k in known if k[0] == r['entry'] and kind == 'ASSERT' and k[1] == aid]
                    if kn:
                        knownhits[(kn[0][0], kn[0][1])] = (kn[0][2], f['input'])
                        continue
                    newfail = True
                    violations.append(dict(entry=r['entry'], crate=r['crate'], params=params, input=f['input'], engine=f['kind'], assert_id=f['id'],
                                           native=kind, native_assert=aid, profile=how, stderr=err[-800:], stack=f['stack'],
                                           meaning=r.get('asserts', {}).get(aid if aid is not None else -1, '')))
                if not newfail:
                    inc = dict(j['incomplete'])
                    if inc:
                        errors.append('%s%s: not every path was explored: %s' % (r['entry'], params, inc))
                    missing = [c for c in r.get('covers', []) if str(c) not in j['covers']]
                    if r.get('covers_last') and li < len(levels) - 1:
                        missing = []
                    if missing:
                        errors.append('%s%s: vacuity: never reached %s' % (r['entry'], params, missing))
                    if not j['asserts'] and not r.get('panic_only'):
                        errors.append('%s%s: vacuity: no assertion reached' % (r['entry'], params))
                # translator validation
                todo = [(s['input'], s['obs'].strip(), None) for s in j['samples'][:r.get('samples', 16)]] + [(h, None, c) for c, h in j['covers'].items()]
                with ThreadPoolExecutor(8) as ex:
                    res = list(ex.map(lambda t: (t, native(nat, r['entry'], t[0], params)), todo))
                for (inp, obs, c), (kind, aid, nobs, cov, err) in res:
                    if kind == 'ASSERT' and any(k[0] == r['entry'] and k[1] == aid for k in known):
                        continue
                    if c is not None:
                        # a cover may be reached on a path which later fails
                        if c not in cov:
                            errors.append('%s: cover %s with input %s is not reached natively (%s)' % (r['entry'], c, inp, kind))
                        else:
                            validated += 1
                    else:
                        if kind != 'DONE' or obs != nobs:
                            if newfail:
                                continue
                            errors.append('%s: engine and native run disagree on %s: %r / %s %r %s' % (r['entry'], inp, obs[:300], kind, nobs[:300], err[-300:]))
                        else:
                            validated += 1
                if len(samples) < 24:
                    samples += [dict(entry=r['entry'], params=params, input=s['input'], observed=s['obs'].strip()[:200]) for s in j['samples'][:2]]
            if violations and tier == 'quick':
                break
        if tier == 'quick' and not errors and not violations and recs == []:
            errors.append('nothing ran')
        ev = dict(property=prop, tier=tier, seed=seed, level='other', wall_s=round(time.time() - T0, 2), violations=len(violations),
                  assumptions=P.get('assumptions', []) + spec.COMMON_ASSUMPTIONS,
                  coverage=dict(
                      explanation='Symbolic execution of the LLVM IR compiled from the current sources; every path within the bounds is explored, every branch and '
                                  'assertion is decided for all input bytes by exact per-byte domains (conditions over one byte) or Z3 QF_BV (the rest). ' + P.get('explain', ''),
                      technique='symbolic execution + SMT', bounds=P['bounds'][tier] if isinstance(P['bounds'], dict) else P['bounds'],
                      outside=P.get('outside', ''), runs=recs, paths=tot['paths'], instructions=tot['instr'], solver_queries=tot['queries'],
                      solver_sat=tot['sat'], solver_unsat=tot['unsat'], solver_seconds=round(tot['zsec'], 2), byte_domain_decisions=tot['dom'],
                      assertion_evaluations=tot['asserts'], paths_cut_by_assumptions=tot['assume_cut'],
                      traces_validated_against_impl=validated, samples=samples,
                      functions_encoded={f: sorted(x) for f, x in sorted(funcs.items())}, source_lines_executed=lines,
                      known_findings=[dict(entry=k[0], assert_id=k[1], what=v[0], input=v[1]) for k, v in knownhits.items()],
                      errors=errors))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for (en, aid), (what, inp) in sorted(knownhits.items()):
            print('KNOWN-FINDING: property=%s %s (entry %s, assertion %d, input %s)' % (prop, what, en, aid, inp))
        for en, aid, what in known:
            if (en, aid) not in knownhits and not violations and any(r['entry'] == en for r in runs):
                log('note: listed finding not observed any more: %s %d %s' % (en, aid, what))
        if violations:
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, '%s.json' % prop)
            json.dump(dict(property=prop, repo=REPO, violations=violations,
                           how='python3 /verif/replay.py %s' % rp), open(rp, 'w'), indent=1)
            for v in violations[:6]:
                log('counterexample: entry %s params %s input %s: %s%s [%s] %s' % (
                    v['entry'], v['params'], v['input'], v['native'], '' if v['native_assert'] is None else ' %d' % v['native_assert'], v['profile'], v['meaning']))
                if v['stderr']:
                    log(v['stderr'].strip()[-400:])
            for e in errors[:5]:
                log('also:', e)
            print('VIOLATION property=%s replay=%s' % (prop, rp), flush=True)
            return 1
        if errors:
            for e in errors[:12]:
                log('ERROR', e)
            return 2
        log('held: %d paths, %d solver queries (%.1fs), %d byte-domain decisions, %d traces validated' % (tot['paths'], tot['queries'], tot['zsec'], tot['dom'], validated))
        return 0
    except Broken as e:
        log('BROKEN', e)
        return 2
    except subprocess.TimeoutExpired as e:
        log('BROKEN timeout', e)
        return 2
    finally:
        if not keep:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
