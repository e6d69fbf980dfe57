"""Runs one contract entry in one mode; prints a JSON result."""
import sys, json, time, os, resource
def main():
    a = json.load(sys.stdin)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    resource.setrlimit(resource.RLIMIT_AS, (a.get('mem', 6 << 30),) * 2)
    sys.setrecursionlimit(20000)
    from vf import ir, engine
    t = time.time()
    m = ir.Module(a['bcs'])
    o = dict(a.get('opts', {})); o['deadline'] = t + a['time']; o['hooks'] = a.get('hooks', {}) if a['mode'] == 'prove' else {}
    e = engine.Engine(m, a['mode'], o)
    halt = None
    try: e.start(a['entry'])
    except engine.Halt as h: halt = str(h)
    except MemoryError: halt = 'memory'
    except RecursionError: halt = 'recursion'
    except Exception as x:
        import traceback
        halt = 'internal: ' + traceback.format_exc()[-1500:]
    repo = sorted(n for n in e.funcs_run if 'salticidae' in n or n in a.get('extra_funcs', ()))
    json.dump(dict(entry=a['entry'], mode=a['mode'], halt=halt, paths=e.paths, oblig=e.oblig,
        discharged=sum(e.discharged.values()), labels={f'{k[0]}: {k[1]}': v for k, v in e.discharged.items()},
        fails=[dict(label=f.label, kind=f.kind, where=f.where, inputs=f.inputs, trace=f.trace) for f in e.fails],
        unknowns=e.unknowns, bounded=sorted(e.bounded), unsupported=e.unsupported, covers=e.covers, summ=e.summ, hooks={f'{k[0]} by {k[1]}': v for k, v in e.hookuse.items()},
        tsolve=round(e.tsolve, 3), nq=e.nq, nlia=e.nlia, wall=round(time.time() - t, 3), funcs=repo), sys.stdout)
main()
