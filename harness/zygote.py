"""Fork server: imports the standard library only, forks worker processes which then import rsfile."""
import sys, os, json, socket, threading, queue, gc, fcntl, struct, signal  # noqa
import _pyio, io, multiprocessing, functools, contextlib, locale, stat, array, errno, time  # noqa

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    with open(os.path.join(HERE, "worker.py")) as fh:
        code = compile(fh.read(), "worker.py", "exec")
    for line in sys.stdin:
        cmd = json.loads(line)
        pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            os.close(devnull)
            os.environ.update(cmd.get("env", {}))
            sys.argv = ["worker.py", cmd["sock"], str(cmd["pid"])]
            try:
                exec(code, {"__name__": "__main__", "__file__": os.path.join(HERE, "worker.py")})
            finally:
                os._exit(0)
        sys.stdout.write(json.dumps({"pid": pid}) + "\n")
        sys.stdout.flush()


main()
