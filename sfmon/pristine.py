"""
A process which has done nothing yet, kept to run things in: what a piece of work gives there is what it gives
when done alone, whatever the process which asks for it has been doing.
"""
import os
import pickle
import select
import struct
import sys
import threading
from . import core

_server = None
TIMEOUT = 120


def _send(fd, x):
    data = pickle.dumps(x)
    data = struct.pack('>I', len(data))+data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _read(fd, n):
    out = b''
    while len(out)<n:
        x = os.read(fd, min(1<<20, n-len(out)))
        if not x:
            raise EOFError
        out += x
    return out


def _receive(fd):
    return pickle.loads(_read(fd, struct.unpack('>I', _read(fd, 4))[0]))


def start():
    """Call this before doing anything else in a process."""
    global _server
    ask_r, ask_w = os.pipe()
    answer_r, answer_w = os.pipe()
    pid = os.fork()
    if pid==0:
        try:
            os.close(ask_w)
            os.close(answer_r)
            while True:
                fn, args = _receive(ask_r)
                child = os.fork()
                if child==0:
                    try:
                        result = ('ok', fn(*args))
                    except Exception as e:
                        import traceback
                        result = ('error', f'{type(e).__name__}: {e}\n{traceback.format_exc(limit=-8)}')
                    _send(answer_w, result)
                    os._exit(0)
                os.waitpid(child, 0)
        except EOFError:
            pass
        finally:
            os._exit(0)
    os.close(ask_r)
    os.close(answer_w)
    _server = (os.getpid(), ask_w, answer_r)


def run(fn, *args):
    """Runs fn(*args) in a process which has done nothing else. Returns ('ok', its result) or ('error', text)."""
    if _server is None or _server[0]!=os.getpid():
        start()
    _, ask, answer = _server
    _send(ask, (fn, args))
    if not select.select([answer], [], [], TIMEOUT)[0]:
        raise core.HarnessError('no answer from the process kept for running things alone')
    return _receive(answer)
