"""A data service client and the server it talks to, in one process

The requests of the client are written out as bytes, parsed here and
passed to the server, a WSGI application; the responses are written as
bytes and passed to the client's response objects."""
import io
from urllib.parse import unquote_to_bytes

from pyslet.http import client as http
from pyslet.http import params
from pyslet.odata2 import client as odata

ROOT = 'http://host.example.com/service.svc'


def call(app, method, target, headers, body, prefix=''):
    """Passes a request to a WSGI application, as a gateway would do

    Returns (status, reason, headers, body chunks)"""
    path, _, query = target.partition('?')
    path = unquote_to_bytes(path).decode('latin-1')
    environ = {
        'REQUEST_METHOD': method,
        'SCRIPT_NAME': prefix,
        'PATH_INFO': path[len(prefix):],
        'QUERY_STRING': query,
        'SERVER_NAME': 'host.example.com',
        'SERVER_PORT': '80',
        'SERVER_PROTOCOL': 'HTTP/1.1',
        'wsgi.version': (1, 0),
        'wsgi.url_scheme': 'http',
        'wsgi.input': io.BytesIO(body),
        'wsgi.errors': io.StringIO(),
        'wsgi.multithread': False,
        'wsgi.multiprocess': False,
        'wsgi.run_once': False}
    for name, value in headers:
        name = name.upper().replace('-', '_')
        if name not in ('CONTENT_TYPE', 'CONTENT_LENGTH'):
            name = 'HTTP_' + name
        environ[name] = value
    if body and 'CONTENT_LENGTH' not in environ:
        environ['CONTENT_LENGTH'] = str(len(body))
    started = []

    def start_response(status, response_headers, exc_info=None):
        started.append((status, list(response_headers)))
        return None

    chunks = app(environ, start_response)
    data = [bytes(c) for c in chunks]
    if len(started) != 1:
        raise AssertionError('start_response called %i times' % len(started))
    status, hlist = started[0]
    for k, v in hlist:
        if not (isinstance(k, str) and isinstance(v, str)) or \
                '\n' in v or '\r' in v:
            raise AssertionError('bad header %r' % ((k, v), ))
        k.encode('latin-1') + v.encode('latin-1')
    code, _, reason = status.partition(' ')
    return int(code), reason, hlist, data


def unchunk(data):
    out = []
    while data:
        size, _, data = data.partition(b'\r\n')
        size = int(size.split(b';')[0], 16)
        if not size:
            break
        out.append(data[:size])
        data = data[size + 2:]
    return b''.join(out)


class Transport(http.Client):

    def queue_request(self, request, timeout=None):
        request.set_client(self)
        self.todo.append(self.exchange(request))

    def thread_task(self, timeout=None):
        while self.todo:
            try:
                next(self.todo[0])
                return True
            except StopIteration:
                self.todo.pop(0)
        return False

    def process_request(self, request, timeout=60):
        self.queue_request(request, timeout)
        while self.thread_task(timeout):
            continue

    def exchange(self, request):
        request.connect(self, 0)
        request.start_sending(params.HTTP_1p1)
        head = request.send_start() + request.send_header()
        body = []
        while True:
            data = request.send_body()
            if not data:
                break
            body.append(data)
        body = b''.join(body)
        lines = head.decode('latin-1').split('\r\n')
        method, target, _ = lines[0].split(' ')
        headers = [tuple(l.split(': ', 1)) for l in lines[1:] if l]
        names = dict((k.lower(), v) for k, v in headers)
        if names.get('transfer-encoding') == 'chunked':
            body = unchunk(body)
        elif int(names.get('content-length', '0')) != len(body):
            raise AssertionError('content-length')
        if 'host' not in names:
            raise AssertionError('no Host')
        self.log.append((method, target))
        request.disconnect(1)
        status, reason, hlist, chunks = call(
            self.app, method, target, headers, body, self.prefix)
        response = request.response
        response.start_receiving()
        response.recv(('HTTP/1.1 %i %s\r\n' % (status, reason)).encode())
        response.recv([('%s: %s\r\n' % h).encode('latin-1') for h in hlist] +
                      [b'\r\n'])
        yield
        for data in chunks:
            while data:
                mode = response.recv_mode()
                if mode is None:
                    if method == 'HEAD':
                        break
                    raise AssertionError('excess of data %r' % data[:20])
                n = len(data) if mode == response.RECV_ALL else mode
                n = min(n, self.step)
                response.recv(data[:n])
                data = data[n:]
                yield
        if response.recv_mode() is not None:
            response.handle_disconnect(None)

    def request_disconnect(self):
        pass

    def continue_sending(self, request):
        pass


class Client(odata.Client, Transport):
    """An OData client of *app*"""

    def __init__(self, app, prefix='', step=1 << 20):
        odata.Client.__init__(self)
        self.app = app
        self.prefix = prefix
        self.step = step
        self.todo = []
        #: (method, target) of each request made
        self.log = []

    def process_request(self, request, timeout=60):
        self.queue_request(request, timeout)
        while self.thread_task(timeout):
            continue
