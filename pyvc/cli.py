"""Runs bup commands natively: each in a forked child of the process that has the real modules loaded."""
import os, sys, signal, tempfile, time


def bup(args, env=None, input=b'', before=None, timeout=60, cwd=None):
    """-> (exit status or -signal, stdout, stderr).  before() runs in the child, before the command"""
    args = [os.fsencode(a) for a in args]
    fi, fo, fe = (tempfile.TemporaryFile() for _ in range(3))
    fi.write(input)
    fi.seek(0)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        rc = 99
        try:
            signal.alarm(0)
            os.setpgid(0, 0)
            for f, n in ((fi, 0), (fo, 1), (fe, 2)):
                os.dup2(f.fileno(), n)
            import io
            sys.stdin = open(0, 'r', closefd=False)
            sys.stdout = io.TextIOWrapper(open(1, 'wb', closefd=False), write_through=True)
            sys.stderr = io.TextIOWrapper(open(2, 'wb', closefd=False), write_through=True)
            rc = _child(args, env or {}, before, cwd)
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(rc)
    t = time.time()
    nap = 0.0005
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t > timeout:
            os.killpg(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            st = None
            break
        time.sleep(nap)
        nap = min(nap * 1.3, .02)
    out = []
    for f in (fo, fe):
        f.seek(0)
        out.append(f.read())
        f.close()
    fi.close()
    rc = -999 if st is None else os.waitstatus_to_exitcode(st)
    return rc, out[0], out[1]


def _child(args, env, before, cwd):
    import warnings
    warnings.simplefilter('ignore')
    for k, v in env.items():
        if v is None:
            os.environb.pop(k, None)
        else:
            os.environb[k] = v
    if b'TZ' in env:
        time.tzset()
    if cwd:
        os.chdir(cwd)
    from importlib import import_module
    from bup import helpers, git, io as bio
    from bup.compat import environ
    helpers.saved_errors.clear()
    sys.argv = ['bup'] + [os.fsdecode(a) for a in args]
    while args and args[0] in (b'-d', b'--bup-dir'):
        os.environb[b'BUP_DIR'] = os.path.abspath(args[1])
        args = args[2:]
    mod = import_module('bup.cmd.' + args[0].decode().replace('-', '_'))
    if before:
        before()
    try:
        rc = mod.main(args)
        if rc:
            return rc
        helpers.die_if_errors()
        return 0
    except SystemExit as ex:
        if isinstance(ex.code, int):
            return ex.code
        if ex.code is not None:
            print(ex.code, file=sys.stderr)
        return 1 if ex.code is not None else 0
    except BaseException as ex:
        import traceback
        traceback.print_exception(ex)
        return 1
    finally:
        git.close_catpipes()
