'''
Runs requests in a process of its own each, forked from one in which the code under test has not done
anything yet. So nothing done before can have an influence.
'''
import json
import os

from .harness import OracleError, fuel, OutOfFuel


class Server:
    '''f takes a JSON request and gives JSON'''
    def __init__(self, f):
        self.f = f
        self.pid = None

    def start(self):
        req_r, req_w = os.pipe()
        res_r, res_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(req_w)
                os.close(res_r)
                self.serve(os.fdopen(req_r, 'r', encoding='utf-8', errors='surrogatepass'), res_w)
            finally:
                os._exit(0)
        os.close(req_r)
        os.close(res_w)
        self.pid = pid
        self.owner = os.getpid()
        self.req = os.fdopen(req_w, 'w', encoding='utf-8', errors='surrogatepass')
        self.res = os.fdopen(res_r, 'r', encoding='utf-8', errors='surrogatepass')

    def serve(self, req, res_w):
        for line in req:
            pid = os.fork()
            if pid == 0:
                try:
                    fuel.reset()
                    try:
                        out = ['ok', self.f(json.loads(line))]
                    except OutOfFuel:
                        out = ['fuel', None]
                    except BaseException as e:
                        out = ['error', '{}: {}'.format(type(e).__name__, e)]
                    data = (json.dumps(out) + '\n').encode('utf-8', 'surrogatepass')
                    while data:
                        data = data[os.write(res_w, data):]
                finally:
                    os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status != 0:
                os.write(res_w, b'["died", null]\n')

    def ask(self, request):
        if self.pid is None or self.owner != os.getpid():
            self.start()
        self.req.write(json.dumps(request) + '\n')
        self.req.flush()
        line = self.res.readline()
        if not line:
            raise OracleError('the process for fresh runs ended')
        status, value = json.loads(line)
        if status == 'error':
            raise OracleError('fresh run failed: ' + value)
        return status, value
