"""Running the command-line tools, in this process (fast) or as separate programs."""
import contextlib
import importlib
import io
import os
import subprocess
import sys

from vh import REPO


class Outcome:
    def __init__(self, ok, error, out):
        self.ok, self.error, self.out = ok, error, out

    def __repr__(self):
        return "Outcome(ok=%s, error=%s)" % (self.ok, self.error)


def run(tool, argv, cwd):
    """tool: module name in starwinds_magnetogram.bin."""
    mod = importlib.import_module("starwinds_magnetogram.bin." + tool)
    old_argv, old_cwd = sys.argv, os.getcwd()
    buf = io.StringIO()
    sys.argv = [tool] + [str(a) for a in argv]
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            mod.main()
        return Outcome(True, None, buf.getvalue())
    except SystemExit as e:
        return Outcome(e.code in (None, 0), "exit %r" % (e.code,), buf.getvalue())
    except Exception as e:
        return Outcome(False, "%s: %s" % (type(e).__name__, e), buf.getvalue())
    finally:
        sys.argv = old_argv
        os.chdir(old_cwd)


def spawn(tool, argv, cwd):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONPYCACHEPREFIX=os.path.join(os.environ.get("VH_SCRATCH", "/tmp"), "pyc"))
    p = subprocess.run([sys.executable, "-m", "starwinds_magnetogram.bin." + tool] + [str(a) for a in argv], cwd=cwd, env=env,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return Outcome(p.returncode == 0, "exit %d: %s" % (p.returncode, p.stdout[-500:].decode(errors="replace")), p.stdout)


def tree(path):
    """Everything in a directory: relative path -> what is there. Links are not followed."""
    out = {}
    for base, dirs, files in os.walk(path):
        for n in dirs + files:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, path)
            if os.path.islink(p):
                out[rel] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[rel] = ("dir",)
            else:
                with open(p, "rb") as f:
                    out[rel] = ("file", f.read())
    return out
