#!/usr/bin/env python3
"""Decides one property on /repo's current working tree.

  check.py PROPERTY            (VERIF_SEED, VERIF_TIER from the environment)

1. extracts the functions under contract from /repo (tools/vx) and lets Verus discharge every obligation;
2. runs the bounded companion on the compiled crates (harness/), which also supplies failing inputs.
See DESIGN.md ("How a verdict is reached").
"""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from props import PROPS

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(V, 'out')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')


def run(cmd, cwd=V, timeout=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'


class Unit:
    """Result of extracting and verifying one unit."""
    def __init__(self, name):
        self.name, self.verified, self.errors, self.smt_ms = name, 0, 0, 0
        self.undecided, self.failed, self.report, self.wall, self.text = [], [], {}, 0.0, ''
        self.vacuous = []


LABEL = re.compile(r'//@([A-Z0-9,]+)\s*$')


def fn_ranges(lines):
    """(first, last, name) of every extracted function in the generated file (vx marks them)."""
    out, cur = [], None
    for i, l in enumerate(lines, 1):
        m = re.match(r'/\*@fn (\S+) ', l)
        if m:
            cur = [i, i, m.group(1)]
            out.append(cur)
        elif l.startswith('/*@endfn'):
            cur = None
        if cur:
            cur[1] = i
    return out


UNDECIDED_MSG = ('Resource limit', 'rlimit', 'not supported', 'unsupported', 'The verifier does not yet support', 'could not determine',
                 'timed out', 'internal error')


def verify(name):
    u = Unit(name)
    t0 = time.time()
    rs, rep = f'{OUT}/{name}.rs', f'{OUT}/{name}.json'
    code, _, err = run([f'{V}/tools/vx/target/release/vx', f'{V}/specs/{name}.vu', '--repo', REPO, '--out', rs, '--report', rep])
    if code != 0:
        u.undecided.append('extraction: ' + err.strip().replace('\n', '; ')[:600])
        u.wall = time.time() - t0
        return u
    u.report = json.load(open(rep))
    if u.report.get('lost'):
        u.undecided.append(f'contract without its function or anchor: {u.report["lost"]}')
    # code the contracts do not know: a failure may only mean that a contract or invariant is missing
    unknown = [f'{k}: {u.report[k]}' for k in ('unspecified', 'loops_without_invariant') if u.report.get(k)]
    code, out, err = run(['verus', rs, '--output-json', '--time-expanded', '--multiple-errors', '20', '--num-threads', '4',
                          '--', '--error-format=json'], cwd=OUT, timeout=420)
    if code == -999:
        u.undecided.append('verus: timeout')
        u.wall = time.time() - t0
        return u
    lines = open(rs).read().split('\n')
    ranges = fn_ranges(lines)
    try:
        j = json.loads(out[out.index('{'):])
        r = j['verification-results']
        u.verified, u.errors = r.get('verified', 0), r.get('errors', 0)
        u.smt_ms = j.get('times-ms', {}).get('smt', {}).get('total', 0)
    except Exception:
        j, r = {}, {'success': False, 'encountered-vir-error': True}
    for l in err.split('\n'):
        if not l.startswith('{'):
            continue
        d = json.loads(l)
        if d.get('level') != 'error' or d.get('message', '').startswith('aborting due to'):
            continue
        msg = d['message']
        spans = [(s['line_start'], s['line_end'], s.get('label'), s['is_primary']) for s in d.get('spans', []) if s['file_name'].endswith(f'{name}.rs')]
        where = None
        for s in sorted(spans, key=lambda s: not s[3]):
            for a, b, n in ranges:
                if a <= s[0] <= b:
                    where = n
                    break
            if where:
                break
        labels = set()
        for s in spans:
            m = LABEL.search(lines[s[1] - 1]) if s[1] <= len(lines) else None
            if m:
                labels |= set(m.group(1).split(','))
        if not labels and where:
            for a, b, n in ranges:
                if n == where:
                    for i in range(a, b + 1):
                        m = LABEL.search(lines[i - 1])
                        if m:
                            labels |= set(m.group(1).split(','))
        loc = next((s[0] for s in spans if s[3]), 0)
        text = f'{where or "?"}: {msg} ({name}.rs:{loc}: {lines[loc - 1].strip()[:160] if loc else ""})'
        u.text += d.get('rendered') or msg
        if d.get('code') or any(m in msg for m in UNDECIDED_MSG) or where is None or r.get('encountered-vir-error'):
            u.undecided.append(text)
        elif unknown or u.report.get('lost'):
            u.undecided.append(f'{text} [{"; ".join(unknown) or "lost anchors"}]')
        else:
            u.failed.append((sorted(labels) or ['C11'], text))
    if not r.get('success') and not u.failed and not u.undecided:
        u.undecided.append('verus did not finish: ' + (err.strip()[-300:] or out[-300:]))
    if u.verified == 0 and not u.undecided and not u.failed:
        u.undecided.append('nothing verified')
    u.wall = time.time() - t0
    return u


def stats_of(out):
    s = {}
    for m in re.finditer(r'^STATS (\{.*\})$', out, re.M):
        for k, v in json.loads(m.group(1)).items():
            s[k] = s.get(k, 0) + v if isinstance(v, (int, float)) else v
    return s


def main():
    t0 = time.time()
    prop = sys.argv[1]
    cfg = PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    thorough = tier == 'thorough'
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(f'{V}/evidence', exist_ok=True)
    evf = f'{V}/evidence/{prop}.json'
    if os.path.exists(evf):
        os.remove(evf)
    replay = f'{OUT}/{prop}.replay'
    if os.path.exists(replay):
        os.remove(replay)

    def build(d, args):
        code, out, err = run(['cargo', 'build', '--offline', '--quiet'] + args, cwd=f'{V}/{d}', timeout=800)
        return None if code == 0 else err[-1500:]

    with ThreadPoolExecutor(6) as ex:
        hb = ex.submit(build, 'harness', []) if cfg.get('bounded') else None
        vb = build('tools/vx', ['--release'])
        if vb:
            print(f'check: vx does not build: {vb}')
            units = []
            for n in cfg['units']:
                u = Unit(n); u.undecided.append('vx does not build'); units.append(u)
        else:
            units = list(ex.map(verify, cfg['units']))
        hb = hb.result() if hb else None

    failed = [(u, l, t) for u in units for l, t in u.failed if prop in l]
    undecided = [f'{u.name}: {t}' for u in units for t in u.undecided]
    elsewhere = [t for u in units for l, t in u.failed if prop not in l]
    known = json.load(open(f'{V}/known_findings.json'))

    bounded, found, bstats = [], None, {}
    vh = f'{V}/harness/target/debug/vh'
    if cfg.get('bounded') and hb:
        print(f'check: the bounded harness does not build against this tree:\n{hb}')
    elif cfg.get('bounded'):
        for b in cfg['bounded']:
            secs = b.get('thorough', 240) if thorough else b.get('quick', 20)
            if failed or undecided:
                secs = int(secs * 1.5) + 5
            cmd = [vh] + b['cmd'] + ['--prop', prop, '--seconds', str(secs), '--seed', str(seed), '--replay-out', replay]
            code, out, err = run(cmd, timeout=secs + 200)
            st = stats_of(out)
            bstats[b['name']] = st
            if code == 0:
                bounded.append(b['name'])
            else:
                m = re.search(r'^FOUND (.*)$', out, re.M)
                what = m.group(1) if m else f'{b["name"]} ended with {code}: {(err or out)[-400:]}'
                if code == 2 and not m:
                    print(f'check: {b["name"]} is not usable: {what}')
                    continue
                if not os.path.exists(replay):
                    open(replay, 'w').write(f'{" ".join(cmd)}\n# {what}\n')
                found = what
                break
    kn = []
    if cfg.get('known') and not hb:
        code, out, err = run([vh, 'known', '--prop', prop], timeout=60)
        for m in re.finditer(r'^KNOWN (\S+)$', out, re.M):
            e = next((k for k in known if k['id'] == m.group(1)), None)
            if e:
                kn.append(e)
                print(f'KNOWN-FINDING: property={prop} {e["what"]}')

    for t in undecided:
        print(f'check: undecided: {t}')
    for t in elsewhere:
        print(f'check: other property: {t}')
    for _, l, t in failed:
        print(f'check: obligation failed ({",".join(l)}): {t}')

    obligations = sum(u.verified + u.errors for u in units)
    discharged = sum(u.verified for u in units)
    fns = [f for u in units for f in u.report.get('functions', [])]
    trusted = sorted({f'{f["name"]} ({f["src"]}): contract assumed' for f in fns if f.get('trusted')})
    shims = sorted({s for u in units for s in u.report.get('shim_trusted', [])})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': max(obligations, 1), 'discharged': discharged,
            'checker_cmd': 'verus <unit>.rs (Verus + Z3) on units extracted by tools/vx: ' + ', '.join(cfg['units']),
            'trusted_base': ['Verus, Z3, rustc', 'tools/vx (text-preserving extraction; edits listed per unit)'] + shims + trusted,
            'functions_under_contract': [f'{f["name"]} ({f["src"]})' for f in fns if f.get('contract') and not f.get('trusted')],
            'functions_verified_without_contract': [f'{f["name"]} ({f["src"]})' for f in fns if not f.get('contract') and not f.get('trusted')],
            'units': {u.name: {'verified': u.verified, 'errors': u.errors, 'smt_ms': u.smt_ms, 'wall_s': round(u.wall, 1),
                               'extraction_edits': u.report.get('edits', {}), 'undecided': u.undecided,
                               'failed': [t for _, t in u.failed]} for u in units},
            'bounded': {b['name']: dict(bstats.get(b['name'], {}), bound=b['bound'], role='bounded stand-in and source of failing inputs, not counted as proved')
                        for b in cfg.get('bounded', [])},
            'bounded_only_parts': cfg.get('bounded_only', []),
            'known_findings_shown': [e['id'] for e in kn],
        },
        'assumptions': cfg.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1),
        'violations': 1 if (found or failed) else 0,
    }
    json.dump(ev, open(evf, 'w'), indent=1)

    if found:
        if failed:
            with open(replay, 'a') as f:
                f.write('\n'.join('# failed obligation: ' + t for _, _, t in failed) + '\n')
        print(f'check: {found}')
        print(f'VIOLATION property={prop} replay={replay}')
        return 1
    if failed:
        with open(replay, 'w') as f:
            f.write('obligation\n')
            for _, l, t in failed:
                f.write(f'# {",".join(l)}: {t}\n')
            for u in units:
                f.write(u.text)
        print(f'VIOLATION property={prop} replay={replay} no-failing-input-found')
        return 1
    if undecided and not bounded:
        print('check: nothing decided this property')
        return 2
    print(f'{prop}: {discharged}/{obligations} obligations discharged, bounded: {json.dumps(bstats)}, {time.time() - t0:.1f} s')
    return 0


if __name__ == '__main__':
    sys.exit(main())
