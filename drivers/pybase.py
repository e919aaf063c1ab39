"""Shared part of the python drivers: one forked process per trace, NDJSON events."""
import hashlib
import json
import os
import resource
import shutil
import signal
import sys

META = ('.zarray', '.zattrs', '.zgroup', 'attributes.json', 'zarr.json')


class Harness(Exception):
    pass


def tree_hash(root):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds.sort()
        rel = os.path.relpath(d, root)
        h.update(b'D' + rel.encode() + b'\0')
        for f in sorted(fs):
            h.update(b'F' + f.encode() + b'\0')
            p = os.path.join(d, f)
            try:
                with open(p, 'rb') as fh:
                    b = fh.read()
                h.update(str(len(b)).encode() + b'\0' + b)
            except OSError as e:
                h.update(b'E' + str(e.errno).encode())
    return int(h.hexdigest()[:7], 16)


def err_event(ev, e):
    ev['res'] = 'err'
    ev['exc'] = type(e).__name__
    ev['what'] = str(e)[:160]


HOW = {'fail': 1, 'full': 2, 'kill': 3, 'short': 4}


def attempt(runner, op):
    ev = {'op': op['op'], 'res': 'ok'}
    try:
        runner.op(op, ev)
    except Harness:
        raise
    except Exception as e:      # the answer of the code under test
        err_event(ev, e)
    return ev


def faulty(runner, op):
    """(did the fault happen, what the operation op['in'] answered); needs the preloaded faultlib"""
    import ctypes
    lib = ctypes.CDLL(None)
    root, k, how, o = runner.path.encode(), op['k'], HOW[op['how']], op['in']
    lib.fault_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int]
    if how <= 2:
        lib.fault_arm(root, k, how)
        try:
            ev = attempt(runner, o)
        finally:
            fired = lib.fault_disarm()
        return bool(fired), ev
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.alarm(60)
        lib.fault_arm(root, k, how)
        try:
            ev = attempt(runner, o)
        except BaseException as e:
            ev = {'harness': repr(e)}
        lib.fault_disarm()
        os.write(w, json.dumps(ev).encode())
        os._exit(0)
    os.close(w)
    buf = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        buf += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
        ev = {'op': o['op'], 'res': 'dead'}
        runner.describe_op(o, ev)
        return True, ev
    if st != 0:
        return True, {'op': 'crash', 'res': 'crash', 'sig': st, 'path': []}
    ev = json.loads(buf)
    if 'harness' in ev:
        raise Harness(ev['harness'])
    return False, ev


def main(make_runner):
    """make_runner(trace, root) -> object with .op(op, ev); errors raised by it are results"""
    script, out, scratch, tmo = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    open(out, 'w').close()
    fd = os.open(out, os.O_WRONLY | os.O_APPEND)

    def emit(o):
        os.write(fd, (json.dumps(o) + '\n').encode())
    hung = 0
    for num, line in enumerate(open(script)):
        if not line.strip():
            continue
        tr = json.loads(line)
        kept = tr.get('root')            # kept (and removed) by the caller
        root = kept or os.path.join(scratch, 't%d' % num)
        os.makedirs(root, exist_ok=bool(kept))
        emit({'begin': tr['id']})
        if hung > 1:                     # the specification judges what there is
            if not kept:
                os.rmdir(root)
            continue
        pid = os.fork()
        if pid == 0:
            code = 0
            signal.alarm(tmo)
            size = int(open('/proc/self/statm').read().split()[0]) * 4096 + (6 << 30)
            resource.setrlimit(resource.RLIMIT_AS, (size, size))
            try:
                r = make_runner(tr, root)
                for op in tr['ops']:
                    ev = {'op': op['op'], 'res': 'ok'}
                    if tr.get('hash'):
                        ev['h0'] = tree_hash(root)
                    try:
                        r.op(op, ev)
                    except Harness:
                        raise
                    except Exception as e:      # the answer of the code under test
                        err_event(ev, e)
                    if tr.get('hash'):
                        ev['h1'] = tree_hash(root)
                        if 'in' in ev:
                            ev['in'].update(h0=ev['h0'], h1=ev['h1'])
                    emit(ev)
            except BaseException as e:
                import traceback
                emit({'op': 'harness', 'res': 'err', 'what': traceback.format_exc()[-800:] + str(e)[:100]})
                code = 7
            os._exit(code)
        _, st = os.waitpid(pid, 0)
        hung += os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM
        if os.WIFSIGNALED(st) or (os.WIFEXITED(st) and os.WEXITSTATUS(st) not in (0, 7)):
            emit({'op': 'crash', 'res': 'crash', 'sig': st})
        if not kept and root.startswith(scratch + '/t'):
            shutil.rmtree(root, ignore_errors=True)
    os.close(fd)
