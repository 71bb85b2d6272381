"""Runs the check of one property: builds what it needs from /repo's current
tree, drives the workloads in worker processes, collects what the monitors
saw, decides, and writes the evidence file."""
import argparse
import glob
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import zlib

from vt import build as B

VERIF = B.VERIF
NCPU = int(os.environ.get('VT_PROCS', 0)) or max(1, min(8, os.cpu_count() or 1))
HANG_S = 150          # no progress at all for this long: suspected hang
MAX_VIOLATIONS = 6


def case_seed(seed, kind, i):
    return zlib.crc32(f'{seed}/{kind}/{i}'.encode())


def load_known(prop):
    known = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('open:'):
                parts = line[5:].split()
                d = dict(x.split('=', 1) for x in parts[:2])
                if d.get('property') == prop:
                    known.append((d['key'], ' '.join(parts[2:])))
    return known


def worker_env(variant, sandir, omp, so, extra):
    e = {k: v for k, v in os.environ.items()
         if k in ('PATH', 'HOME', 'LANG', 'TMPDIR', 'VT_REPO', 'VERIF_SEED',
                  'VERIF_TIER')}
    e.update(PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             PYTHONNOUSERSITE='1', MPLBACKEND='Agg',
             MPLCONFIGDIR=os.path.join(B.BUILD, 'mpl'),
             OMP_NUM_THREADS=str(omp), OPENBLAS_NUM_THREADS='1',
             OMP_WAIT_POLICY='passive')
    log = os.path.join(sandir, 'san')
    if variant in ('gpu', 'gpurace'):
        e['PYTHONPATH'] += ':' + os.path.join(VERIF, 'vt', 'gpu')
        e['VT_REPO'] = os.path.join(os.path.dirname(so), 'tree')
        e['VT_GPU_BLOCK'] = str(extra.get('block', 32))
    if variant in ('asan', 'gpu'):
        e['LD_PRELOAD'] = ' '.join(B.runtime_lib(x) for x in
                                   ('libasan.so', 'libubsan.so'))
        fill = extra.get('fill', 127)
        e['ASAN_OPTIONS'] = ('detect_leaks=0:exitcode=77:abort_on_error=0:'
                             'allocator_may_return_null=1:handle_segv=1:'
                             'detect_stack_use_after_return=0:'
                             f'max_malloc_fill_size=1073741824:malloc_fill_byte={fill}:'
                             'quarantine_size_mb=64:log_path=' + log)
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:log_path=' + log
    elif variant == 'gpurace':
        e['LD_PRELOAD'] = B.runtime_lib('libtsan.so')
        e['TSAN_OPTIONS'] = ('exitcode=0:history_size=4:halt_on_error=0:report_thread_leaks=0:log_path=' + log)
    elif variant == 'tsan':
        hb = os.path.join(os.path.dirname(so), 'gomp_hb.so')
        gomp = B.runtime_lib('libgomp.so.1')
        e['LD_PRELOAD'] = ' '.join((B.runtime_lib('libtsan.so'), hb, gomp))
        e['TSAN_OPTIONS'] = ('exitcode=0:history_size=7:halt_on_error=0:'
                             'report_thread_leaks=0:log_path=' + log)
    return e


class Pool:
    def __init__(self, prop, sos, scratch, deadline):
        self.prop, self.sos, self.scratch = prop, sos, scratch
        self.deadline = deadline
        self.lock = threading.Lock()
        self.results = {}
        self.crashes = []
        self.errors = []
        self.n = 0
        self.stop = False
        self.nviol = 0

    def _launch(self, variant, cases, opts):
        with self.lock:
            self.n += 1
            d = os.path.join(self.scratch, f'w{self.n}')
        os.makedirs(d)
        job = {'so': self.sos[variant], 'variant': variant, 'cases': cases,
               'deadline': self.deadline, 'scratch': os.path.join(d, 's'),
               'sanlog': os.path.join(d, 'san')}
        os.makedirs(job['scratch'])
        jf, jn = os.path.join(d, 'job.json'), os.path.join(d, 'journal')
        json.dump(job, open(jf, 'w'))
        env = worker_env(variant, d, opts.get('omp', 2), job['so'], opts)
        with open(os.path.join(d, 'out'), 'wb') as out:
            p = subprocess.Popen([sys.executable, '-m', 'vt.worker', self.prop,
                                  jf, jn], env=env, cwd=job['scratch'],
                                 stdin=subprocess.DEVNULL, stdout=out,
                                 stderr=subprocess.STDOUT,
                                 start_new_session=True)
        last, size, hang = time.time(), -1, False
        while True:
            try:
                p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            s = os.path.getsize(jn) if os.path.exists(jn) else 0
            if s != size:
                size, last = s, time.time()
            if time.time() - last > opts.get('hang', HANG_S):
                hang = True
            if hang or self.stop:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        recs = []
        if os.path.exists(jn):
            for line in open(jn, errors='replace'):
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
        tail = open(os.path.join(d, 'out'), errors='replace').read()[-3000:]
        for f in sorted(glob.glob(os.path.join(d, 'san.*'))):
            tail += '\n' + open(f, errors='replace').read()[:3000]
        shutil.rmtree(d, ignore_errors=True)
        return p.returncode, hang, recs, tail

    def run_shard(self, variant, cases, opts, alone=False):
        """Runs the cases; a case that ends its process is recorded and the
        rest goes on in a new process."""
        todo = list(cases)
        fails = 0
        while todo and not self.stop:
            rc, hang, recs, tail = self._launch(variant, todo, opts)
            if self.stop:
                return
            started, ended, ready = None, False, False
            for r in recs:
                if r.get('ready'):
                    ready = True
                elif 'start' in r:
                    started = r['start']
                elif 'done' in r:
                    with self.lock:
                        self.results[r['done']] = r
                        if r['status'] == 'violation' and not r.get('known'):
                            self.nviol += 1
                            if self.nviol >= MAX_VIOLATIONS:
                                self.stop = True
                    started = None
                elif r.get('end') or r.get('stopped'):
                    ended = True
            if ended:
                return
            if started is None:
                fails += 1
                done = {r['done'] for r in recs if 'done' in r}
                if done and fails < 4:      # died between two cases
                    todo = [c for c in todo if c['id'] not in done]
                    continue
                if fails < 2:
                    continue
                with self.lock:
                    self.errors.append(f'worker ended rc={rc} ready={ready} '
                                       f'hang={hang}: {tail[-1500:]}')
                return
            idx = [c['id'] for c in todo].index(started)
            case = todo[idx]
            todo = todo[idx + 1:]
            confirm = (hang or rc == -signal.SIGKILL) and not alone
            if confirm:
                # may have been starved or ended for want of memory
                with self.lock:
                    self.crashes.append((variant, case, opts))
                continue
            with self.lock:
                if rc == -signal.SIGKILL and not hang:
                    self.errors.append(f'case {started} was killed (memory?)')
                else:
                    self.nviol += 1
                    if hang:
                        self.stop = True
                    self.results[started] = {
                        'done': started, 'status': 'violation', 'key': 'hang' if hang else 'crash',
                        'msg': 'no progress for %d s' % opts.get('hang', HANG_S) if hang else
                        f'process ended with {rc} ({sig_name(rc)})',
                        'details': {'report': tail[-4000:]}, 'events': {},
                        'states': [], 'wall': 0}
                    if self.nviol >= MAX_VIOLATIONS:
                        self.stop = True


def sig_name(rc):
    if rc == 77:
        return 'AddressSanitizer report'
    try:
        return signal.Signals(-rc).name
    except ValueError:
        return 'exit'


def enumerate_cases(mod, seed, tier, scale):
    out = {}
    for kind, spec in mod.KINDS.items():
        variant, q, t = spec[:3]
        opts = spec[3] if len(spec) > 3 else {}
        if q >= 20:
            q *= getattr(mod, 'QUICK', 1)
        n = q if tier == 'quick' else max(q, int(t * scale))
        for i in range(n):
            c = {'id': f'{kind}:{i}', 'kind': kind, 'i': i, 'tier': tier,
                 'seed': case_seed(seed, kind, i)}
            key = (variant, json.dumps(opts, sort_keys=True))
            out.setdefault(key, []).append(c)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='comma separated kinds (development)')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop, t0 = a.prop, time.time()
    mod = importlib.import_module('vt.props.' + prop.lower())
    limit = 660 if a.tier == 'quick' else 3000
    deadline = t0 + limit
    if a.replay:
        rp = json.load(open(a.replay))
        groups = {(rp['variant'], json.dumps(rp.get('opts', {}))): [rp['case']]}
    else:
        groups = enumerate_cases(mod, a.seed, a.tier, a.scale)
        if a.only:
            ks = a.only.split(',')
            groups = {k: [c for c in v if c['kind'] in ks] for k, v in groups.items()}
            groups = {k: v for k, v in groups.items() if v}
    mpl = os.path.join(B.BUILD, 'mpl')
    os.makedirs(mpl, exist_ok=True)
    for f in glob.glob('/opt/vp/mplconfig/fontlist*'):
        if not os.path.exists(os.path.join(mpl, os.path.basename(f))):
            shutil.copy(f, mpl)
    variants = sorted({k[0] for k in groups})
    sos, errs = {}, []

    def bld(v):
        try:
            sos[v] = B.build(v)
        except Exception as e:
            errs.append(f'{v}: {e}')
    ths = [threading.Thread(target=bld, args=(v,)) for v in variants]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs:
        print('ERROR: build failed\n' + '\n'.join(errs))
        return 2
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix='vt-', dir=os.environ.get('TMPDIR', '/tmp'))
    pool = Pool(prop, sos, scratch, deadline)
    try:
        # shards: every group gets processes in proportion to its size
        shards = []
        for (variant, o), cases in groups.items():
            opts = json.loads(o)
            w = min(len(cases), opts.get('procs', NCPU))
            for k in range(w):
                shards.append((variant, cases[k::w], opts))
        shards.sort(key=lambda s: s[2].get('order', 0))
        sem = threading.Semaphore(NCPU)

        def go(s):
            with sem:
                if not pool.stop:
                    pool.run_shard(*s)
        ths = [threading.Thread(target=go, args=(s,)) for s in shards]
        [t.start() for t in ths]
        [t.join() for t in ths]
        for variant, case, opts in pool.crashes:
            if not pool.stop:
                pool.run_shard(variant, [case], opts, alone=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    allcases = {c['id']: (k, c) for k, v in groups.items() for c in v}
    known = load_known(prop)
    seen_known, viols, events, states, samples = {}, [], {}, set(), []
    nok = nskip = nval = 0
    kinds = {}
    errors = list(pool.errors)
    for cid, (k, c) in allcases.items():
        r = pool.results.get(cid)
        if r is None:
            continue
        kd = kinds.setdefault(c['kind'], {'ok': 0, 'skip': 0, 'wall': 0.0})
        kd['wall'] = round(kd['wall'] + r.get('wall', 0), 2)
        for n, v in r.get('events', {}).items():
            events[n] = events.get(n, 0) + v
        if r['status'] == 'skip':
            nskip += 1
            kd['skip'] += 1
            continue
        if r['status'] == 'error':
            errors.append(f"{cid}: {r.get('msg')} {r.get('details')}")
            continue
        nok += 1
        kd['ok'] += 1
        states.update(r.get('states', []))
        for kk in r.get('known', []):
            seen_known[kk] = cid
            if kk not in [x for x, _ in known] and r['status'] == 'ok':
                r = dict(r, status='violation', key=kk, msg=f'finding {kk} is not a recorded one')
        if len([s for s in samples if s['kind'] == c['kind']]) < 1 and r['status'] == 'ok':
            samples.append({'kind': c['kind'], 'case': c, 'variant': k[0],
                            'observed': r.get('events'), 'note': r.get('note')})
        if r['status'] == 'violation':
            if any(r.get('key') == kk for kk, _ in known):
                seen_known[r['key']] = cid
            else:
                viols.append((k, c, r))
    rdir = os.path.join(VERIF, 'replays')
    lines = []
    if viols:
        os.makedirs(rdir, exist_ok=True)
    for n, ((variant, o), c, r) in enumerate(viols[:MAX_VIOLATIONS]):
        rp = os.path.join(rdir, f'{prop}-{a.tier}-{a.seed}-{n}.json')
        if not a.replay:
            json.dump({'property': prop, 'variant': variant, 'opts': json.loads(o),
                       'case': c, 'message': r.get('msg'), 'key': r.get('key'),
                       'details': r.get('details'),
                       'how': f'/verif/bin/check {prop} --replay {rp}'},
                      open(rp, 'w'), indent=1)
        else:
            rp = a.replay
        det = json.dumps(r.get('details'))
        det = det[:900] if a.v or a.replay else det[-300:] if 'traceback' in det else det[:300]
        print('  ' + f"{c['id']}: {r.get('msg')} {det}".replace('\n', ' '))
        lines.append(f'VIOLATION property={prop} replay={rp}')
    for kk, what in known:
        if kk in seen_known:
            print(f'KNOWN-FINDING: property={prop} {what}')
    for ln in lines:
        print(ln)
    for e in errors:
        print('ERROR:', e[:2500])
    wall = round(time.time() - t0, 2)
    if not a.replay and not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {
            'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
            'coverage': {
                'evaluations': nok, 'distinct_nontrivial': len(states),
                'rule': ' '.join(mod.RULE.split()),
                'samples': samples or [{'note': 'none completed'}],
                'cases_planned': len(allcases), 'cases_outside_domain': nskip,
                'cases_not_reached': len(allcases) - len(pool.results),
                'monitor_events': events, 'per_kind': kinds,
                'builds': variants, 'build_s': round(t_build, 1),
            },
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'wall_s': wall, 'violations': len(viols)}
        p = os.path.join(VERIF, 'evidence', f'{prop}.json')
        json.dump(ev, open(p + '.tmp', 'w'), indent=1)
        os.replace(p + '.tmp', p)
    print(f'{prop} {a.tier} seed={a.seed}: {nok} cases, {nskip} outside the domain, '
          f'{len(states)} distinct configurations, {events.get("checks", 0)} checks, '
          f'{len(viols)} violations, {wall} s (build {t_build:.1f} s)')
    if a.v:
        print(json.dumps({'events': events, 'kinds': kinds}, indent=1))
        for r in pool.results.values():
            if r['status'] == 'skip':
                print('skip', r['done'], r.get('why'))
    if viols:
        return 1
    if errors:
        return 2
    missing = [k for k in mod.KINDS if not kinds.get(k, {}).get('ok')] if not (a.only or a.replay) else []
    if nok == 0 or missing:
        print('ERROR: nothing observed for', missing or 'any workload')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
