"""helper for demonstrations: start the freshly built worker on a scratch configuration and talk to it"""
import os, socket, subprocess, sys, tempfile, time, shutil, atexit, threading, signal

ROOT = os.getcwd()
BUILD = os.path.join(ROOT, '_build', 'src')
TMP = tempfile.mkdtemp(prefix='demo-')
atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
procs = []


def cleanup():
    for p in procs:
        if p.poll() is None:
            p.kill()
            p.wait()


atexit.register(cleanup)


def free_port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    n = s.getsockname()[1]
    s.close()
    return n


def write(name, data):
    p = os.path.join(TMP, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(data.encode() if isinstance(data, str) else data)
    return p


class Worker:
    def __init__(self, body, modules=(), setup='', port=None, args=()):
        self.port = port or free_port()
        conf = 'setup {\n workers 1;\n io.timeout 300;\n listen "127.0.0.1:%d";\n%s%s\n}\n%s\n' % (
            self.port, ' module_load (%s);\n' % ','.join('"%s"' % m for m in modules) if modules else '', setup, body)
        self.conf = write('conf-%d' % self.port, conf)
        self.logf = os.path.join(TMP, 'log-%d' % self.port)
        self.p = subprocess.Popen([os.path.join(BUILD, 'main', 'lighttpd2-worker'), '-m', os.path.join(BUILD, 'modules'), '-c', self.conf, *args],
                                  stdin=subprocess.DEVNULL, stdout=open(self.logf, 'wb'), stderr=subprocess.STDOUT, cwd=TMP)
        procs.append(self.p)
        for _ in range(100):
            try:
                socket.create_connection(('127.0.0.1', self.port), 1).close()
                break
            except OSError:
                if self.p.poll() is not None:
                    break
                time.sleep(0.1)
        else:
            self.die('worker did not start')
        if self.p.poll() is not None:
            self.die('worker exited')

    def log(self):
        return open(self.logf, 'rb').read()

    def die(self, msg):
        sys.stderr.write(msg + '\n' + self.log().decode('latin1'))
        sys.exit(99)

    def alive(self):
        return self.p.poll() is None

    def conn(self):
        s = socket.create_connection(('127.0.0.1', self.port), 5)
        return s

    def talk(self, *parts, wait=1.5, pause=0.15, s=None, shut=False):
        """send the parts, return everything received until EOF (b'<EOF>' appended) or silence"""
        own = s is None
        if own:
            s = self.conn()
        for x in parts:
            try:
                s.sendall(x)
            except OSError:
                break
            time.sleep(pause)
        d = recv_all(s, wait)
        if own:
            s.close()
        return d


def recv_all(s, wait=1.5):
    s.settimeout(wait)
    d = b''
    try:
        while True:
            x = s.recv(65536)
            if not x:
                return d + b'<EOF>'
            d += x
    except socket.timeout:
        return d
    except OSError:
        return d + b'<EOF>'


def get(path='/', host='a', extra='', version='1.1', method='GET'):
    return ('%s %s HTTP/%s\r\nHost: %s\r\n%s\r\n' % (method, path, version, host, extra)).encode('latin1')


def serve_raw(handler, port=None):
    """a backend: handler(conn) runs in a thread per connection"""
    l = socket.socket()
    l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    l.bind(('127.0.0.1', port or 0))
    l.listen(16)

    def loop():
        while True:
            try:
                c, _ = l.accept()
            except OSError:
                return
            threading.Thread(target=handler, args=(c,), daemon=True).start()
    threading.Thread(target=loop, daemon=True).start()
    return l.getsockname()[1]


def check(cond, msg):
    if not cond:
        print('FAIL: ' + msg)
        cleanup()
        shutil.rmtree(TMP, ignore_errors=True)
        os._exit(1)


def done():
    print('ok')
    cleanup()
    shutil.rmtree(TMP, ignore_errors=True)
    os._exit(0)
