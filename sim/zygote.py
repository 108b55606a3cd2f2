"""Process that holds an imported, warmed-up sorcha and forks one child per simulated process.

Runs under LD_PRELOAD=simio.so.  Talks JSON over the SEQPACKET socket given as argv[1]; a job carries the
child's control socket as ancillary data.  The child executes the real command-line entry points of /repo.
"""
import array, ctypes, gc, json, os, random, signal, socket, sys, time, traceback

FDS = [int(x) for x in sys.argv[1].split(",")]
WARM = sys.argv[2] if len(sys.argv) > 2 else ""
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import targets  # noqa: E402


def recv(s):
    msg, anc, _, _ = s.recvmsg(1 << 20, socket.CMSG_SPACE(4))
    fds = []
    for lvl, typ, data in anc:
        if lvl == socket.SOL_SOCKET and typ == socket.SCM_RIGHTS:
            fds.extend(array.array("i", data))
    return (json.loads(msg) if msg else None), fds


def child(job, fd):
    """never returns"""
    lib = ctypes.CDLL(None)
    ctl = os.dup2(fd, 900)
    os.close(fd)
    devnull = os.open(job["stdout"], os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    n0 = os.open("/dev/null", os.O_RDONLY)
    os.dup2(n0, 0)
    os.close(devnull)
    os.close(n0)
    for k, v in job.get("env", {}).items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    os.chdir(job["cwd"])
    signal.signal(signal.SIGPIPE, signal.SIG_DFL)
    targets.prepare(job)          # Python-level stubs, before the seam is armed
    lib.simio_activate.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_uint64, ctypes.c_int64, ctypes.c_int]
    lib.simio_activate(ctl, job["root"].encode(), job["entropy"], job["clock"], job["pid"])
    targets.reseed()
    code = 0
    try:
        r = targets.run(job)
        code = r if isinstance(r, int) else 0
    except SystemExit as e:
        if e.code is None:
            code = 0
        elif isinstance(e.code, int):
            code = e.code & 0xFF
        else:
            print(e.code, file=sys.stderr)
            code = 1
    except BaseException:
        traceback.print_exc()
        code = 1
    # what interpreter finalisation does, without tearing down the whole module graph
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except Exception:
        pass
    try:
        import threading, atexit
        threading._shutdown()
        atexit._run_exitfuncs()
    except BaseException:
        traceback.print_exc()
    gc.collect()
    lib.simio_deactivate()
    os._exit(code)


def serve(fd):
    s = socket.socket(fileno=fd)
    targets.own_cache(f"w{fd}")
    s.send(json.dumps({"ready": os.getpid()}).encode())
    while True:
        job, fds = recv(s)
        if job is None:
            os._exit(0)
        if "wait" in job:
            try:
                _, st = os.waitpid(job["wait"], 0)
                st = os.waitstatus_to_exitcode(st)
            except ChildProcessError:
                st = -9
            s.send(json.dumps({"status": st}).encode())
            continue
        if "kill" in job:
            try:
                os.kill(job["kill"], signal.SIGKILL)
            except OSError:
                pass
            s.send(b"{}")
            continue
        pid = os.fork()
        if pid == 0:
            s.close()
            child(job, fds[0])
        os.close(fds[0])
        s.send(json.dumps({"pid": pid}).encode())


def main():
    targets.warm(WARM)
    gc.collect()
    gc.freeze()
    kids = []
    for fd in FDS:
        p = os.fork()
        if p == 0:
            for o in FDS:
                if o != fd:
                    os.close(o)
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)   # die with the parent
            serve(fd)
        kids.append(p)
    for fd in FDS:
        os.close(fd)
    for p in kids:
        os.waitpid(p, 0)


if __name__ == "__main__":
    main()
