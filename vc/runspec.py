"""Generates and discharges the obligations of one property; one JSON line per event."""
import sys, os, json, time, importlib, resource, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main(prop, tier, out):
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    import kit, smt, registry
    f = open(out, 'w')

    def emit(**k):
        f.write(json.dumps(k) + '\n')
        f.flush()
    S = kit.Spec(prop, tier)
    S.on_goal = lambda g: emit(ev='goal', fn=g.fn, name=g.name, kind=g.kind, status=g.status, backend=str(g.backend)[:4000], time=round(g.time, 4),
                               goal='' if g.status == 'proved' else str(g.goal)[:3000], pc=[] if g.status == 'proved' else [str(p)[:600] for p in g.pc][:60])
    S.on_unsupported = lambda fn, why: emit(ev='unsupported', fn=fn, why=str(why)[:3000])
    try:
        m = importlib.import_module('specs.' + registry.REG[prop]['spec'])
        with S.part(prop):
            m.check(S, prop)
        vac = []
        for name, pc in S.reach:
            r = smt.satisfiable(pc)
            emit(ev='reach', name=name, result=r)
            if r == 'unsat':
                S.unsupported_add(name, 'the preconditions are contradictory, so the obligations would be vacuous')
        emit(ev='end', functions=S.functions, trusted=sorted(S.trusted), inlined=sorted(S.inlined), assumptions=S.assumptions, notes=S.notes,
             loops=[str(l) for l in S.loops], queries=smt.stats['queries'], solver_time=round(smt.stats['time'], 3), safety_ok=getattr(S, 'safety_ok', 0),
             bounded=S.bounded)
    except BaseException as e:
        emit(ev='unsupported', fn=prop, why='verifier failure: %r\n%s' % (e, traceback.format_exc()[-2000:]))
        emit(ev='end', functions=S.functions, trusted=[], inlined=[], assumptions=[], notes=[], loops=[], queries=0, solver_time=0, safety_ok=0, bounded=[])


if __name__ == '__main__':
    main(*sys.argv[1:4])
