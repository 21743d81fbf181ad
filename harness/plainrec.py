"""Recorder of executions which need no scheduler.  stdin: one JSON job per line; every job runs in a forked child."""
import sys, os, json, traceback, faulthandler

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("RSFILE_SRC", "/repo/src"))


def main():
    import rsfile  # noqa
    import piperec
    kinds = dict(piperec.RUNS)
    n = 0
    for line in sys.stdin:
        job = json.loads(line)
        n += 1
        path = os.path.join(os.environ["VSCRATCH"], "plain_%d_%d" % (os.getpid(), n))
        pid = os.fork()
        if pid == 0:
            try:
                faulthandler.dump_traceback_later(25, exit=True)
                out = {"events": kinds[job["kind"]](job).run()}
            except BaseException:
                out = {"error": traceback.format_exc()}
            with open(path, "w") as fh:
                json.dump(out, fh)
            os._exit(0)
        os.waitpid(pid, 0)
        sys.stdout.write(json.dumps({"path": path} if os.path.exists(path) else {"hang": 1}) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
