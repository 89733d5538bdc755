"""Running the MiniZinc driver."""
import os, subprocess, signal, resource, json
from . import build

SOLVERS = os.path.join(build.VERIF, "solvers")


class Out:
    def __init__(self, rc, out, err, timeout, cmd):
        self.rc, self.out, self.err, self.timeout, self.cmd = rc, out, err, timeout, cmd

    @property
    def crashed(self):
        return self.rc is not None and (self.rc < 0 or self.rc in (134, 136, 139))

    def brief(self):
        return "cmd: %s\nrc=%s%s\nstdout:\n%s\nstderr:\n%s" % (
            " ".join(self.cmd), self.rc, " TIMEOUT" if self.timeout else "", self.out[:1500], self.err[:1500])


def env(extra=None):
    e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
         "MZN_SOLVER_PATH": SOLVERS, "MZN_STDLIB_DIR": build.STDLIB, "TZ": "UTC"}
    if extra:
        e.update(extra)
    return e


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))


def run(args, cwd, timeout=60, stdin=None, extra_env=None, exe=None, limits=True, binary=False):
    cmd = [exe or build.DRIVER] + list(args)
    p = subprocess.Popen(cmd, cwd=cwd, env=env(extra_env), stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True,
                         preexec_fn=_limits if limits else None)
    to = False
    try:
        o, e = p.communicate(stdin if stdin is None or isinstance(stdin, bytes) else stdin.encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
    if not binary:
        o, e = o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    return Out(p.returncode, o, e, to, cmd)


def write(d, name, text):
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write(text)
    return p


SEP, DONE, UNSAT, UNKNOWN = "----------", "==========", "=====UNSATISFIABLE=====", "=====UNKNOWN====="


def parse_stream(out):
    """-> (list of solution texts, status in {'complete','unsat','none',...})"""
    sols, cur, status = [], [], "none"
    for line in out.split("\n"):
        if line == SEP:
            sols.append("\n".join(cur))
            cur = []
        elif line == DONE:
            status = "complete"
        elif line == UNSAT:
            status = "unsat"
        elif line.startswith("=====") and line.endswith("====="):
            status = line.strip("=")
        else:
            cur.append(line)
    return sols, status
