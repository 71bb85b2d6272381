"""Runs a list of cases of one property in this process and journals what the
monitors saw.  A case that kills the process is identified by its START line."""
import faulthandler
import glob
import importlib
import json
import os
import random
import sys
import time
import traceback
import zlib


class SanLog:
    """New sanitizer reports of this process that concern the library."""

    def __init__(self, prefix):
        self.prefix, self.pos = prefix, {}

    def new(self):
        text = ''
        if not self.prefix:
            return text
        for f in glob.glob(self.prefix + '.*'):
            try:
                with open(f, errors='replace') as h:
                    h.seek(self.pos.get(f, 0))
                    text += h.read()
                    self.pos[f] = h.tell()
            except OSError:
                pass
        return text


def relevant(text):
    """Reports with a frame or a location in the library's sources."""
    out = []
    cur = []
    for line in text.splitlines():
        if line.startswith('=' * 10) or 'runtime error:' in line:
            if cur:
                out.append('\n'.join(cur))
            cur = []
        cur.append(line)
    if cur:
        out.append('\n'.join(cur))
    return [b for b in out if 'libtomo' in b or 'cpp_routines' in b or 'cuda_kernels' in b]


def main(prop, jobfile, journal):
    faulthandler.enable()
    job = json.load(open(jobfile))
    from vt import env
    import numpy as np
    j = open(journal, 'a', buffering=1)

    def put(**k):
        j.write(json.dumps(k) + '\n')
        j.flush()

    env.install(job['so'])
    from vt.mon import Monitor, Violation, Skip
    mod = importlib.import_module('vt.props.' + prop.lower())
    put(ready=True)
    deadline = job.get('deadline')
    repo = os.path.realpath(env.REPO)
    san = SanLog(job.get('sanlog') if job.get('variant') in ('asan', 'tsan', 'gpu', 'gpurace') else None)
    san.new()
    for case in job['cases']:
        if deadline and time.time() > deadline:
            put(stopped=True)
            break
        put(start=case['id'])
        mon = Monitor()
        case['scratch'] = job['scratch']
        case['variant'] = job['variant']
        case['so'] = job['so']
        seed = [case['seed'] & 0xffffffff, zlib.crc32(case['kind'].encode())]
        rng = np.random.default_rng(seed)
        np.random.seed(case['seed'] & 0x7fffffff)
        random.seed(case['seed'])
        t0 = time.time()
        rec = {'done': case['id'], 'status': 'ok'}
        try:
            getattr(mod, 'run_' + case['kind'])(case, rng, mon)
        except Skip as e:
            rec['status'] = 'skip'
            rec['why'] = str(e)
        except Violation as e:
            rec.update(status='violation', msg=e.msg, key=e.key, details=e.details)
        except MemoryError as e:
            rec.update(status='error', msg=f'{type(e).__name__}: {e}')
        except Exception as e:
            # Raised below the repository's code: it refused or broke on an
            # input the property covers.  Raised in the oracle itself: what
            # was observed does not even have the expected form.
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = any(os.path.realpath(f.filename).startswith(repo + '/')
                         for f in tb)
            rec.update(status='violation',
                       msg=('unexpected ' if inrepo else 'observation does not fit the oracle: ')
                       + f'{type(e).__name__}: {e}',
                       key=None, details={'traceback': ''.join(traceback.format_tb(e.__traceback__)[-6:])[-2500:]})
        reports = relevant(san.new())
        if reports and rec['status'] != 'violation':
            rec.update(status='violation', key='sanitizer',
                       msg=f'{len(reports)} sanitizer report(s)',
                       details={'report': reports[0][:3000]})
        rec.update(events=mon.events, states=sorted(mon.states), known=sorted(mon.known),
                   note=mon.note, wall=round(time.time() - t0, 3))
        put(**rec)
    put(end=True)
    j.close()
    # skip interpreter teardown: only what the cases did is of interest
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main(*sys.argv[1:4])
