"""One-time preparation: the extractor, and caches for the sources as they are now."""
import os
import shutil
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import check


def main():
    os.makedirs(check.CACHE, exist_ok=True)
    os.makedirs(check.EVID, exist_ok=True)
    check.build_extractor()
    sys.path.insert(0, check.ROOT)
    from contracts.props import PROPS
    srcs = sorted({check.source_path(s) for c in PROPS.values() for s in c['tus']})
    with ThreadPoolExecutor(check.JOBS) as ex:
        list(ex.map(check.extract_one, [s for s in srcs if os.path.exists(s)]))
    work = tempfile.mkdtemp(prefix='verif_setup_')
    try:
        for p, c in sorted(PROPS.items()):
            if not c.get('driver'):
                continue
            for fl in c.get('flavours', ['asan']):
                exe, msg = check.build_driver(c, work, fl)
                print(p, fl, 'ready' if exe else 'not available: ' + msg[-300:])
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    main()
