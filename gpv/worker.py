import importlib
import json
import os
import sys
import traceback


SEEN = {}


def watch_lines():
    """record which lines of the package are executed (sys.monitoring; every line reports once)"""
    try:
        m = sys.monitoring
        m.use_tool_id(m.COVERAGE_ID, 'gpv')
    except (AttributeError, ValueError):
        return

    def line(code, no):
        f = code.co_filename
        if '/gpgradpy/' in f:
            SEEN.setdefault(f.rsplit('/gpgradpy/', 1)[1], set()).add(no)
        return m.DISABLE
    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)


def main():
    prop, tier, seed, shard, out = sys.argv[1:6]
    only = int(sys.argv[6]) if len(sys.argv) > 6 else None
    from gpv.core import Ctx, REPO
    watch_lines()
    import gpgradpy
    assert os.path.realpath(gpgradpy.__file__).startswith(REPO + '/'), gpgradpy.__file__
    sh = json.loads(shard)
    ctx = Ctx(prop, int(seed), tier, sh, only)
    mod = importlib.import_module('gpv.checks.' + prop.lower())
    try:
        mod.run(ctx)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        traceback.print_exc()
        if not any('/gpgradpy/' in t.filename for t in tb):
            raise
        where = [f'{os.path.basename(t.filename)}:{t.name}' for t in tb if '/gpgradpy/' in t.filename]
        ctx.violation('exc:unexpected:' + type(e).__name__, dict(error=str(e)[:400], where=where[-3:]))
    res = ctx.result()
    res['lines'] = {k: sorted(v) for k, v in SEEN.items()}
    json.dump(res, open(out, 'w'))


main()
