"""Running the repository's programs inside the monitoring process."""
import contextlib
import io
import logging
import os
import runpy
import sys
import tracemalloc

from hv import core


def run_script(name, argv, log=True):
    """Run scripts/<name> with these arguments; the exception it ended with, or None."""
    path = os.path.join(core.REPO, "scripts", name)
    root = logging.getLogger()
    arg0, sys.argv = sys.argv, [path] + [str(a) for a in argv] + (["--log-no-mem", "--log-level", "ERROR"] if log else [])
    handlers, level, start = list(root.handlers), root.level, tracemalloc.start
    tracemalloc.start = lambda *a: None  # the programs' memory log slows every allocation
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(path, run_name="__main__")
    except SystemExit as e:
        return e if e.code else None
    except Exception as e:
        return e
    finally:
        sys.argv, tracemalloc.start = arg0, start
        root.handlers[:] = handlers
        root.setLevel(level)
    return None
