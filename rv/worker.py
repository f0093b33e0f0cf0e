"""Runs cases of one check: JSON lines in, JSON lines out."""
import importlib
import json
import os
import sys
import traceback

from . import core


def watch_lines(folder):
    """development aid: append every library line that is executed (once) to a file in folder."""
    m, out = sys.monitoring, open(os.path.join(folder, 'lines.%d' % os.getpid()), 'a', buffering=1)
    m.use_tool_id(3, 'rv')

    def line(code, n):
        if code.co_filename.startswith(core.REPO):
            out.write('%s:%d\n' % (os.path.relpath(code.co_filename, core.REPO), n))
        return m.DISABLE
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)


def main():
    check = sys.argv[1]
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, 'w')
    import numpy, scipy.integrate, scipy.interpolate, scipy.optimize, scipy.special, scipy.constants  # noqa
    sys.dont_write_bytecode = False
    sys.pycache_prefix = os.path.join(os.getcwd(), 'pyc')      # never trust bytecode lying in the working tree
    sys.path.insert(0, core.REPO)
    if os.environ.get('RV_COV'):
        watch_lines(os.environ['RV_COV'])
    import primpy
    assert os.path.realpath(primpy.__file__).startswith(os.path.realpath(core.REPO) + os.sep), primpy.__file__
    mod = importlib.import_module('rv.checks.' + check.lower())
    for line in sys.stdin:
        case = json.loads(line)
        mon = core.Mon(check, case)
        try:
            mod.run_case(case, mon)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if core.REPO in f.filename]
            if not where and str(e) in ('high - low < 0', 'low >= high'):      # the harness found nothing to draw from
                mon.obs('empty range')
                out.write(json.dumps(mon.result()) + '\n')
                out.flush()
                continue
            mon.check('completes', False, what='a valid use of the library raised an exception', error=repr(e)[:300],
                      where=['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-6:]], in_repo=bool(where))
        else:
            mon.check('completes', True)
        out.write(json.dumps(mon.result()) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
