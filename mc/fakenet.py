"""A fake network for the HTTP client: sockets, select and time

Everything is deterministic apart from the choices of the exploration
context: how many bytes each send and recv moves and whether it blocks.
The faults (where the server closes, resets or goes silent) are given by
the plan of the connection."""
import errno
import select as real_select
import socket as real_socket
import types


class Hang(BaseException):
    pass


class Conn(object):
    """One connection as seen by the server

    plan
        (kind, 'in' or 'out', n): what happens once the server has
        received (sent) n bytes; kind is 'eof', 'reset' or 'silent'"""

    def __init__(self, net, n, address, plan):
        self.net = net
        self.n = n
        self.address = address
        self.plan = plan
        self.arrived = b''      # what the client sent
        self.seen = b''         # what the server read
        self.out = b''          # what the server sent
        self.read = 0           # what the client read
        self.state = 'open'
        self.client_closed = False
        self.events = []        # (bytes arrived before, time, bytes read)
        self.server = net.server(self)
        self.trigger()

    def trigger(self):
        if self.plan and self.state == 'open':
            kind, where, n = self.plan
            size = len(self.seen) if where == 'in' else len(self.out)
            if size >= n:
                if where == 'in':
                    self.seen = self.seen[:n]
                else:
                    self.out = self.out[:n]
                self.state = kind

    def feed(self, data):
        self.events.append((len(self.arrived), self.net.now, self.read))
        self.arrived += data
        if self.state != 'open':
            return
        self.seen += data
        self.trigger()
        if self.state == 'open' or self.plan[1] == 'in':
            self.server.feed(self.seen)

    def write(self, data):
        if self.state == 'open':
            self.out += data
            self.trigger()

    def close(self):
        if self.state == 'open':
            self.state = 'eof'

    def readable(self):
        return self.read < len(self.out) or self.state in ('eof', 'reset')


class FakeSocket(object):

    def __init__(self, net, *args):
        self.net = net
        self.conn = None
        self.again = None
        self.closed = False

    def connect(self, address):
        self.conn = self.net.connect(address)

    def fileno(self):
        return self

    def setblocking(self, flag):
        pass

    def shutdown(self, how):
        if self.closed or self.conn is None:
            raise OSError(errno.ENOTCONN, 'not connected')
        self.conn.client_closed = True

    def close(self):
        self.closed = True
        if self.conn:
            self.conn.client_closed = True

    def check(self):
        if self.closed:
            raise OSError(errno.EBADF, 'closed socket')
        if self.conn.client_closed:
            raise OSError(errno.EPIPE, 'shut down')

    def send(self, data):
        self.net.step()
        self.check()
        c = self.conn
        if c.state == 'reset':
            raise OSError(errno.ECONNRESET, 'reset')
        n = len(data)
        opts = [n]
        if n > 1:
            opts += [1]
        if n > 2:
            opts += [n - 1]
        if self.again != ('s', len(c.arrived)):
            opts.append('again')
        if c.state == 'eof':
            opts.append('pipe')
        k = opts[self.net.ctx.choose(len(opts), tag='send')]
        if k == 'again':
            self.again = ('s', len(c.arrived))
            raise BlockingIOError(errno.EAGAIN, 'again')
        if k == 'pipe':
            c.state = 'reset'
            raise OSError(errno.EPIPE, 'broken pipe')
        c.feed(bytes(data[:k]))
        return k

    def recv(self, size):
        self.net.step()
        self.check()
        c = self.conn
        n = min(size, len(c.out) - c.read)
        if n == 0:
            if c.state == 'eof':
                return b''
            if c.state == 'reset':
                raise OSError(errno.ECONNRESET, 'reset')
            raise BlockingIOError(errno.EAGAIN, 'again')
        opts = [n]
        if n > 1:
            opts += [1]
        if n > 2:
            opts += [n - 1]
        if self.again != ('r', c.read):
            opts.append('again')
        k = opts[self.net.ctx.choose(len(opts), tag='recv')]
        if k == 'again':
            self.again = ('r', c.read)
            raise BlockingIOError(errno.EAGAIN, 'again')
        data = c.out[c.read:c.read + k]
        c.read += k
        return data


class Net(object):
    """server: called with a Conn, returns an object with feed(bytes)"""

    def __init__(self, ctx, server, plans=(), limit=4000):
        self.ctx = ctx
        self.server = server
        self.plans = list(plans)
        self.conns = []
        self.now = 1000000.0
        self.steps = 0
        self.limit = limit
        self.socket = types.SimpleNamespace(
            socket=lambda *a: FakeSocket(self, *a),
            getaddrinfo=self.getaddrinfo,
            error=OSError, gaierror=real_socket.gaierror,
            SHUT_RDWR=2, SOCK_STREAM=1, AF_UNSPEC=0)
        self.select = types.SimpleNamespace(
            select=self.do_select, error=real_select.error)
        self.time = types.SimpleNamespace(time=self.do_time,
                                          sleep=self.do_sleep)
        self.random = types.SimpleNamespace(random=lambda: 0.5)

    def step(self):
        self.steps += 1
        if self.steps == self.limit:
            raise Hang("does not end")

    def getaddrinfo(self, host, port, *args):
        return [(2, 1, 6, '', (host, port))]

    def connect(self, address):
        self.step()
        n = len(self.conns)
        plan = self.plans[n] if n < len(self.plans) else None
        if plan == 'refuse':
            self.conns.append(None)
            raise OSError(errno.ECONNREFUSED, 'refused')
        c = Conn(self, n, address, plan)
        self.conns.append(c)
        return c

    def do_time(self):
        self.step()
        self.now += 0.000001
        return self.now

    def do_sleep(self, n):
        self.step()
        self.now += max(n, 0)

    def do_select(self, r, w, x, timeout=None):
        self.step()
        rr = [s for s in r if s.conn.readable() or s.conn.client_closed]
        ww = list(w)
        if not rr and not ww:
            if timeout is None:
                raise Hang("select waits for ever")
            self.now += timeout
        return rr, ww, []
