"""bin/prove PROPERTY [filter] [-o obligations] [-m models] [-u unrolled] [-t traces]: verifier only, no driver."""
import importlib
import json
import os
import sys
from concurrent.futures import ThreadPoolExecutor

from . import check


def main(argv):
    from engine.ir import Program
    sys.path.insert(0, check.ROOT)
    from contracts.props import PROPS
    os.makedirs(check.CACHE, exist_ok=True)
    check.build_extractor()
    prop = argv[0]
    flt = argv[1] if len(argv) > 1 and not argv[1].startswith('-') else ''
    cfg = PROPS[prop]
    for m in cfg['modules']:
        importlib.import_module('contracts.' + m)
    with ThreadPoolExecutor(check.JOBS) as ex:
        xs = list(ex.map(check.extract_one, [check.source_path(s) for s in cfg['tus']]))
    prog = Program()
    for (out, msg), s in zip(xs, cfg['tus']):
        if out is None or prog.add(out):
            print('extraction', s, msg[-500:])
    ali = check.ROOT + '/contracts/baseline_fields.json'
    check._job['prog'], check._job['aliases'] = prog, json.load(open(ali)) if os.path.exists(ali) else {}
    tg, missing = check.targets(prog, prop)
    tg = [t for t in tg if flt in t[1].name]
    opt = dict(budget=cfg.get('budget', 45), solver_ms=cfg.get('solver_ms', 3000))
    if '-u' in argv:
        opt['unroll'] = 3
    for r in check.run_jobs([(f, c, opt) for f, c in tg]):
        print(r['status'], r['contract'], r['id'][-40:] if '<' in r['id'] else '', '%.1fs' % r['wall_s'], r['paths'],
              '%d/%d exits' % (r.get('exits_alive', 0), r.get('exits', 0)), r['reason'])
        for o in r['obligations']:
            if o['result'] != 'proved' or '-o' in argv:
                print('    ', o['result'], '' if not o['abstract'] else '(abstract)', o['label'], o['line'], o['time'])
                if '-m' in argv and o['result'] != 'proved':
                    print(json.dumps(o.get('model'), indent=1), o['path'])
        if r.get('trace') and '-t' in argv:
            print(r['trace'])
    for c in missing:
        if flt in c.name:
            print('MISSING' if not c.implicit_ok else 'implicit', c.name)


if __name__ == '__main__':
    main(sys.argv[1:])
