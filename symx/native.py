"""Native replays: the unmodified modules of /repo, plain doubles and ints.

A server process imports the harness and the real auxi modules, and forks one
child per request, so that no run sees what another left behind.
"""
import importlib
import json
import os
import signal
import socket
import struct
import sys
import time
import traceback

from .ctx import NatCtx, StopScenario


def run(module, scenario, inputs, scratch=None):
    fn = next(s for s in module.SCENARIOS if s.name == scenario)
    ctx = NatCtx(inputs, scratch)
    stopped = False
    try:
        fn.fn(ctx)
    except StopScenario as e:
        stopped = bool(e.args)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%d' % (os.path.basename(f.filename), f.lineno)
                 for f in tb][-3:]
        ctx.failures.append({'check': 'no unexpected exception',
                             'info': '%s: %s at %s' % (
                                 type(e).__name__, e, ' < '.join(where))})
    finally:
        ctx.cleanup()
    return {'failures': ctx.failures, 'seen': ctx.seen,
            'checks': ctx.checks, 'stopped': stopped}


def _send(s, obj):
    b = json.dumps(obj).encode()
    s.sendall(struct.pack('>I', len(b)) + b)


def _recv(s):
    h = b''
    while len(h) < 4:
        c = s.recv(4 - len(h))
        if not c:
            return None
        h += c
    n = struct.unpack('>I', h)[0]
    b = b''
    while len(b) < n:
        c = s.recv(min(65536, n - len(b)))
        if not c:
            return None
        b += c
    return json.loads(b.decode())


def serve(module, path):
    """Accept connections; each request runs in a fork."""
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(64)
    print('ready', flush=True)
    while True:
        conn, _ = srv.accept()
        pid = os.fork()
        if pid:
            conn.close()
            continue
        try:
            srv.close()
            req = _recv(conn)
            if req is not None:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                signal.alarm(60)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
                res = run(module, req['scenario'], req['inputs'],
                          req.get('scratch'))
                _send(conn, res)
        except BaseException:
            try:
                _send(conn, {'failures': [], 'seen': [], 'checks': 0,
                             'stopped': True,
                             'error': traceback.format_exc()[-800:]})
            except Exception:
                pass
        os._exit(0)


class Client:
    def __init__(self, path, scratch):
        self.path, self.scratch = path, scratch
        self.count = 0
        self.errors = []

    def __call__(self, scenario, inputs):
        self.count += 1
        t0 = time.time()
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(90)
        try:
            s.connect(self.path)
            _send(s, {'scenario': scenario, 'inputs': inputs,
                      'scratch': self.scratch})
            r = _recv(s)
        except OSError as e:
            r = None
        finally:
            s.close()
        if r is None and time.time() - t0 > 55:
            r = {'failures': [{'check': 'terminates',
                               'info': 'no result within 60 s'}],
                 'seen': [], 'checks': 0, 'stopped': True}
        if r is None:
            r = {'failures': [], 'seen': [], 'checks': 0, 'stopped': True,
                 'error': 'no answer'}
        if r.get('error'):
            self.errors.append(r['error'])
        return r


if __name__ == '__main__':
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    mod = importlib.import_module('harness.' + sys.argv[1])
    for m in getattr(mod, 'PRELOAD', ()):
        try:
            importlib.import_module(m)
        except Exception:
            pass
    if sys.argv[2] == 'serve':
        serve(mod, sys.argv[3])
    else:
        with open(sys.argv[3]) as f:
            case = json.load(f)
        r = run(mod, case['scenario'], case['inputs'])
        for x in r['failures']:
            print('FAILED %s: %s' % (x['check'], x['info']))
        print('%d checks, %d failures' % (r['checks'], len(r['failures'])))
        sys.exit(1 if r['failures'] else 0)
