"""Verify one driver entry: runentry.py MODULE.ll ENTRY BUDGET OUT.json"""
import sys, time, json, os, threading, subprocess, re, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, engine, builtins_, fperr
try: import contracts_
except ImportError: contracts_ = None


def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(x[1:] for x in names), text=True, stdout=subprocess.PIPE).stdout.split('\n')
    return dict(zip(names, r))


def work(ll, entry, budget, out):
    """An invariant that is only missing because its proof hit a time limit must not look like a broken contract:
    such a run is repeated with more patience, and if it stays that way the obligations are undecided, not refuted."""
    t0 = time.time()
    res = attempt(ll, entry, budget, out, 1)
    if res['unsure'] and bad(res):
        left = budget - (time.time() - t0)
        if left > 1.5 * (time.time() - t0):
            r2 = attempt(ll, entry, left, out, 8)
            if not (r2['status'] != 'ok' and res['status'] == 'ok' and r2['unsure']): res = r2
            res['attempts'] = 2
        if res['unsure']:
            for o in res['obligations']:
                if o['status'] == 'failed': o['status'] = 'unknown'; o['detail'] = 'not proved, but the search for loop invariants hit its time limit (%s): ' % ', '.join(res['unsure'][:3]) + o['detail']
    res['wall_s'] = round(time.time() - t0, 2)
    json.dump(res, open(out + '.tmp', 'w'))
    os.replace(out + '.tmp', out)


def bad(res): return any(o['status'] != 'discharged' for o in res['obligations'])


def attempt(ll, entry, budget, out, patience):
    t0 = time.time()
    res = {'entry': entry, 'status': 'ok', 'reason': '', 'obligations': [], 'covers': {}, 'loops': [], 'functions': [], 'contracts': []}
    e = None
    try:
        m = ir.Module(open(ll).read())
        e = engine.Engine(m, budget=budget, contracts=(contracts_.table(entry) if contracts_ else []), verbose=bool(os.environ.get('VC_VERBOSE')))
        e.patience = patience
        e.demangle = demangle(list(m.fns) + list(m.decls))
        if contracts_: contracts_.configure(e, entry)
        e.call(engine.State(), '@' + entry, [])
    except (engine.Unsupported, engine.Stop, engine.NeedInv) as ex:
        res['status'] = 'undecided'; res['reason'] = '%s: %s' % (type(ex).__name__, str(ex)[:400])
    except MemoryError:
        res['status'] = 'undecided'; res['reason'] = 'out of memory'
    except Exception as ex:
        import traceback
        res['status'] = 'undecided'; res['reason'] = 'tool error %s: %s' % (type(ex).__name__, str(ex)[:300])
        res['traceback'] = traceback.format_exc()[-3000:]
    if e is not None:
        if res['status'] != 'ok' and e.callstack: res['reason'] += ' (in %s)' % e.pretty(e.callstack[-1])[:200]
        for o in e.obl.values():
            res['obligations'].append({'name': o.name, 'kind': o.kind, 'instances': o.n, 'discharged': o.ok, 'status': o.status, 'seconds': round(o.secs, 3),
                                       'detail': o.detail[:1500], 'model': o.model, 'path': o.pc})
        res['covers'] = e.covers
        res['loops'] = list(e.loops.values())
        res['functions'] = sorted({e.pretty(f) for f in e.executed if not e.pretty(f).startswith(('std::', '__gnu', 'void std::', 'bool std::')) and f[1:] != entry})
        res['contracts'] = sorted({e.pretty(f) for f in e.used})
        res['queries'] = e.S.n; res['solver_s'] = round(e.S.t, 2); res['instructions'] = e.instrs
        res['assumed'] = sorted(getattr(e, 'assumed', set()))
    res['unsure'] = e.unsure[:20] if e is not None else []
    return res


if __name__ == '__main__':
    ll, entry, budget, out = sys.argv[1], sys.argv[2], float(sys.argv[3]), sys.argv[4]
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=work, args=(ll, entry, budget, out))
    t.start(); t.join()
