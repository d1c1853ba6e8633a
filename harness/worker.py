"""One worker process: runs its share of the cases of a property."""
import importlib, json, os, random, resource, signal, sys, time, traceback

from harness.monitor import Monitor, Violation, Hang, REPO, through_repo, short

CASE_CPU_LIMIT = 60.0


def coverage_start():
    """Record which lines of /repo execute (first hit only, so it is cheap)"""
    mon = getattr(sys, 'monitoring', None)
    lines = {}
    if mon is None:
        return lines
    root = os.path.realpath(REPO) + os.sep
    names = {}
    tool = mon.COVERAGE_ID
    mon.use_tool_id(tool, 'verif')

    def on_line(code, line):
        fn = code.co_filename
        rel = names.get(fn)
        if rel is None:
            real = os.path.realpath(fn)
            rel = names[fn] = real[len(root):] if real.startswith(root) else ''
        if rel:
            lines.setdefault(rel, set()).add(line)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)
    return lines


class Suite:
    def __init__(self, name, fn, quick, thorough, serial=False):
        """fn(rng, mon, i) runs case i; serial: only worker 0 runs it"""
        self.name, self.fn, self.n, self.serial = name, fn, dict(quick=quick, thorough=thorough), serial


def main():
    with open(sys.argv[1]) as fd:
        job = json.load(fd)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    tier, seed = job['tier'], job['seed']
    out = dict(evaluations=0, events={}, distinct={}, suites={}, samples=[], lines={},
               known={}, violations=[], errors=[], notes={}, planned={})
    mon = Monitor(seed, tier)
    lines = coverage_start()
    status = os.open(job['status'], os.O_RDWR | os.O_CREAT, 0o644)

    def on_cpu(sig, frame):
        raise Hang()
    signal.signal(signal.SIGVTALRM, on_cpu)

    def guarded(suite, i, fn):
        rec = json.dumps([suite, i]).encode()
        os.pwrite(status, rec + b' ' * (120 - len(rec)), 0)
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
        try:
            fn()
            return True
        except Violation as v:
            out['violations'].append(dict(suite=suite, i=i, worker=job['worker'], nworkers=job['nworkers'],
                                          msg=v.msg, detail=v.detail))
        except Hang as e:
            tb = ''.join(traceback.format_tb(e.__traceback__)[-5:])
            if through_repo(e.__traceback__):
                out['violations'].append(dict(suite=suite, i=i, worker=job['worker'], nworkers=job['nworkers'],
                                              msg='did not terminate within %ds of CPU' % CASE_CPU_LIMIT, detail=tb))
            else:
                out['errors'].append('%s case %s: harness exceeded the CPU limit\n%s' % (suite, i, tb))
        except Exception as e:
            tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])
            if through_repo(e.__traceback__):
                out['violations'].append(dict(suite=suite, i=i, worker=job['worker'], nworkers=job['nworkers'],
                                              msg='unexpected %s: %s' % (type(e).__name__, short(str(e), 200)),
                                              detail=tb))
            elif suite in ('import', 'start') or isinstance(e, (MemoryError, OSError, ImportError)):
                out['errors'].append('%s case %s: %s' % (suite, i, tb))
            else:
                # the monitor could not make sense of what the code handed it
                out['violations'].append(dict(suite=suite, i=i, worker=job['worker'], nworkers=job['nworkers'],
                                              msg='the monitor cannot interpret what the code returned (%s: %s)' % (
                                                  type(e).__name__, short(str(e), 200)), detail=tb))
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False

    mods = []
    guarded('import', 0, lambda: mods.append(importlib.import_module('harness.props.' + job['prop'].lower())))
    if mods:
        mod = mods[0]
        out['rule'] = mod.RULE
        out['level'] = getattr(mod, 'LEVEL', 'exploration')
        out['assumptions'] = getattr(mod, 'ASSUMPTIONS', [])
        suites = mod.SUITES
        out['planned'] = {s.name: s.n[tier] for s in suites}
        rp = job['replay']
        start = getattr(mod, 'start', None)
        if start is not None:
            guarded('start', 0, lambda: start(mon, job))
        bad = 0
        todo = []
        for s in suites:
            if rp is not None and s.name != rp['suite']:
                continue
            if s.serial:
                idx = range(s.n[tier]) if job['worker'] == 0 else ()
            else:
                idx = range(job['worker'], s.n[tier], job['nworkers'])
            if rp is not None:
                # the failing case alone, then the history of its worker up to it
                idx = [rp['i']] + [k for k in (range(rp['worker'], rp['i'] + 1, rp['nworkers']))]
            todo.append((s, iter(idx), dict(cases=0, wall_s=0.0)))
        # Every suite gets its share of the time; a second round uses what is left
        for last in (False, True):
            for k, (s, idx, stat) in enumerate(todo):
                t0 = time.time()
                limit = job['deadline'] if last else t0 + (job['deadline'] - t0) / (len(todo) - k)
                while bad < 3 and time.time() <= limit:
                    i = next(idx, None)
                    if i is None:
                        break
                    rng = random.Random('%d/%s/%s/%d' % (seed, job['prop'], s.name, i))
                    ok = guarded(s.name, i, lambda: s.fn(rng, mon, i))
                    stat['cases'] += 1
                    bad += not ok
                stat['wall_s'] += time.time() - t0
        for s, idx, stat in todo:
            out['evaluations'] += stat['cases']
            out['suites'][s.name] = dict(cases=stat['cases'], wall_s=round(stat['wall_s'], 2))
        finish = getattr(mod, 'finish', None)
        if finish is not None and bad == 0:
            guarded('finish', 0, lambda: finish(mon, job))
    out['events'] = mon.events
    out['distinct'] = {k: sorted(v) for k, v in mon.distinct.items()}
    out['samples'] = mon.samples
    out['known'] = mon.known_seen
    out['notes'] = mon.notes
    out['lines'] = {f: sorted(l) for f, l in lines.items()}
    tmp = job['out'] + '.tmp'
    with open(tmp, 'w') as fd:
        json.dump(out, fd, default=str)
    os.replace(tmp, job['out'])


if __name__ == '__main__':
    # props import Suite from harness.worker; make that this very module
    sys.modules['harness.worker'] = sys.modules['__main__']
    main()
    sys.stdout.flush()
    os._exit(0)
