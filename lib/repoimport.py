"""Import the package under test from the working tree, never from a byte-code cache or an installed copy."""
import importlib.machinery
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")


# Lines of the package that were executed, per file (evidence of what the workload reached): each line reports once.
executed = {}
lines = {}


def _line(code, line):
    executed.setdefault(code.co_filename, set()).add(line)
    return sys.monitoring.DISABLE


def _watch(code):
    f = lines.setdefault(code.co_filename, set())
    if code.co_name != "<module>":
        f.update(n for _, _, n in code.co_lines() if n and n != code.co_firstlineno)
        sys.monitoring.set_local_events(sys.monitoring.COVERAGE_ID, code, sys.monitoring.events.LINE)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _watch(c)


class _FreshLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        code = self.source_to_code(self.get_data(path), path)
        if os.path.realpath(path).startswith(os.path.join(os.path.realpath(REPO), "starwinds_magnetogram") + os.sep):
            _watch(code)
        return code


def install():
    base = os.path.realpath(REPO)
    sys.monitoring.use_tool_id(sys.monitoring.COVERAGE_ID, "verif")
    sys.monitoring.register_callback(sys.monitoring.COVERAGE_ID, sys.monitoring.events.LINE, _line)
    finder = importlib.machinery.FileFinder.path_hook((_FreshLoader, [".py"]))

    def hook(path):
        real = os.path.realpath(path or ".")
        if real == base or real.startswith(base + os.sep):
            return finder(path)
        raise ImportError

    sys.path_hooks.insert(0, hook)
    sys.path_importer_cache.clear()
    sys.path.insert(0, base)
    import starwinds_magnetogram
    got = os.path.realpath(starwinds_magnetogram.__file__)
    assert got.startswith(base + os.sep), got
