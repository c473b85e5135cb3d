"""Member lists of the repository's classes, by which the contracts find a member that was renamed."""
import json
import os
import sys
from concurrent.futures import ThreadPoolExecutor

from . import check
from .ir import Program


def main():
    sys.path.insert(0, check.ROOT)
    os.makedirs(check.CACHE, exist_ok=True)
    check.build_extractor()
    from contracts.props import PROPS
    p = Program()
    srcs = sorted({check.source_path(s) for c in PROPS.values() for s in c['tus']})
    with ThreadPoolExecutor(check.JOBS) as ex:
        for out, msg in ex.map(check.extract_one, srcs):
            p.add(out)
    d = {n: [[f['n'], f['t']] for f in r['fields']] for n, r in sorted(p.records.items())
         if r.get('repo') and r.get('fields') and n.startswith('sup::') and '(lambda' not in n}
    with open(check.ROOT + '/contracts/baseline_fields.json', 'w') as f:
        json.dump(d, f, indent=0)
    print(len(d), 'classes')


if __name__ == '__main__':
    main()
