"""Runs pattern-make / pattern-match: in a forked child, or as a real process."""
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import sut
from .sut import Violation

import os_urlpattern.cmdline as cmdline  # binds this process' stdin/stdout

# multiprocessing closes sys.stdin in its workers; keep the stream that the
# code under test has bound (the forked child points fd 0 at a file)
_STDIN = sys.stdin
sys.stdin = open(os.devnull)

CPU_S = 30


class Result(object):
    def __init__(self, code, out, err):
        self.code, self.out, self.err = code, out, err


def _child(command, argv, fds):
    code = 70
    try:
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_S, CPU_S + 5))
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
        for i, fd in enumerate(fds):
            os.dup2(fd, i)
        sys.stdin = _STDIN              # for '-' as a file name
        code = 0
        try:
            getattr(cmdline, command)(['pattern-' + command] + argv)
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except BaseException:
            traceback.print_exc()
            code = 1
        sys.stdout.flush()
        sys.stderr.flush()
    finally:
        os._exit(code)


def run_fork(command, argv, stdin, d):
    """command: make or match; d: scratch directory."""
    paths = [os.path.join(d, n) for n in ('stdin', 'stdout', 'stderr')]
    with open(paths[0], 'wb') as f:
        f.write(stdin)
    fds = [os.open(paths[0], os.O_RDONLY),
           os.open(paths[1], os.O_WRONLY | os.O_CREAT | os.O_TRUNC),
           os.open(paths[2], os.O_WRONLY | os.O_CREAT | os.O_TRUNC)]
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        _child(command, argv, fds)
    for fd in fds:
        os.close(fd)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    with open(paths[1], 'rb') as f:
        out = f.read()
    with open(paths[2], 'rb') as f:
        err = f.read()
    if code in (-signal.SIGXCPU, -signal.SIGKILL):
        raise Violation('pattern-%s %s does not end within %d s of CPU time'
                        % (command, argv, CPU_S))
    return Result(code, out, err)


def run_process(command, argv, stdin, d, hashseed='random'):
    env = dict(os.environ,
               PYTHONPATH=sut.REPO_SRC, PYTHONHASHSEED=str(hashseed),
               PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent-pycache',
               PYTHONIOENCODING='utf-8')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c',
                        'from os_urlpattern.cmdline import %s; %s()' % (command, command)]
                       + argv, input=stdin, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd=d)
    return Result(p.returncode, p.stdout, p.stderr)


class scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif-cli-')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def enc(lines):
    """JSON lines -> bytes. A line is a str, or {'hex': ...}."""
    return [bytes.fromhex(l['hex']) if isinstance(l, dict) else l.encode('utf-8')
            for l in lines]


def content(lines, eol, last):
    e = eol.encode()
    data = e.join(enc(lines))
    return data + (e if lines and last else b'')
