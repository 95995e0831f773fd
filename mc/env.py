"""Gets projectq from $VERIF_REPO and a compiled simulator core that belongs to its current sources."""
import atexit
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
_SIM = os.path.join(REPO, 'projectq/backends/_sim')
EXT = sysconfig.get_config_var('EXT_SUFFIX')
_scratch = None


def scratch():
    """A scratch directory of this run, removed at exit (by the process that made it)."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='verif-mc-')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def _stamp_matches():
    """Is the library in the tree the one build.sh made from the current sources?"""
    lib = 'projectq/backends/_sim/_cppsim' + EXT
    stamp = os.path.join(REPO, 'build/cext.stamp')
    if not (os.path.exists(os.path.join(REPO, lib)) and os.path.exists(stamp)):
        return False
    script = r"""
    { find projectq -type f \( -name '*.cpp' -o -name '*.cc' -o -name '*.c' -o -name '*.hpp' -o -name '*.h' \) -print0
      printf '%s\0' setup.py setup.cfg pyproject.toml "$LIB" /opt/vp/build.sh; } |
        sort -z | xargs -0 sha256sum 2>&1 | sha256sum"""
    out = subprocess.run(['bash', '-c', script], cwd=REPO, env=dict(os.environ, LIB=lib, LANG='C.UTF-8'),
                         capture_output=True, text=True).stdout
    return out.strip() == open(stamp).read().strip()


def compile_core(name='_cppsim', intrin=True, opt='-O2', extra=()):
    """Starts compiling the simulator core from the current sources; returns (Popen, path)."""
    import pybind11

    out = os.path.join(scratch(), name + EXT)
    flags = [opt, '-fPIC', '-shared', '-std=c++17', '-fopenmp', '-ffast-math', '-fvisibility=hidden', '-w', '-DVERSION_INFO="0"']
    flags += ['-mavx2', '-DINTRIN'] if intrin else ['-DNOINTRIN']
    if not intrin:
        flags.remove('-ffast-math')
    if name != '_cppsim':  # its own type registry, so that several variants fit into one process
        flags.append(f'-DPYBIND11_COMPILER_TYPE="{name}"')
    cmd = ['g++', *flags, *extra, '-I' + pybind11.get_include(), '-I' + sysconfig.get_paths()['include'],
           os.path.join(_SIM, '_cppsim.cpp'), '-o', out]
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), out


def load_core(path, name='_cppsim'):
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


class BuildError(Exception):
    pass


def finish(proc_out):
    proc, out = proc_out
    log = proc.communicate()[0].decode()
    if proc.returncode:
        raise BuildError('the simulator core does not compile:\n' + log[-3000:])
    return out


def prepare():
    """Import projectq so that projectq.backends._sim._cppsim is built from the current sources."""
    os.environ.setdefault('OMP_NUM_THREADS', '1')  # the cases run in parallel processes
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if not _stamp_matches():
        path = finish(compile_core())
        spec = importlib.util.spec_from_file_location('projectq.backends._sim._cppsim', path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        sys.modules['projectq.backends._sim._cppsim'] = mod
        print('note: simulator core recompiled from the current sources', file=sys.stderr)
    import projectq

    assert os.path.realpath(projectq.__file__).startswith(os.path.realpath(REPO) + os.sep), projectq.__file__
    from projectq.backends._sim import _simulator

    sims = sys.modules.get('projectq.backends._sim._cppsim')
    if sims is None:
        raise BuildError('the compiled simulator core is not in use')
    return projectq
