"""A small MQTT 3.1.1 client and broker runner for the demonstrations in seeded/ (copied next to each demo)."""
import os, signal, socket, struct, subprocess, sys, tempfile, time

CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP = 1, 2, 3, 4, 5, 6, 7
SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, PINGREQ, PINGRESP, DISCONNECT = 8, 9, 10, 11, 12, 13, 14
PORT = 1883


def s(x):
    x = x.encode() if isinstance(x, str) else x
    return struct.pack(">H", len(x)) + x


def packet(kind, body=b"", flags=0):
    n, out = len(body), b""
    while True:
        d, n = n % 128, n // 128
        out += bytes([d | (128 if n else 0)])
        if not n:
            return bytes([kind << 4 | flags]) + out + body


def connect(cid, keep=0, clean=True, name="MQTT", level=4, flags=None, rest=b""):
    f = (2 if clean else 0) if flags is None else flags
    return packet(CONNECT, s(name) + bytes([level, f]) + struct.pack(">H", keep) + s(cid) + rest)


def subscribe(pid, *filters):
    return packet(SUBSCRIBE, struct.pack(">H", pid) + b"".join(s(f) + bytes([q]) for f, q in filters), 2)


def unsubscribe(pid, *filters):
    return packet(UNSUBSCRIBE, struct.pack(">H", pid) + b"".join(s(f) for f in filters), 2)


def publish(topic, payload, qos=0, pid=0, dup=0):
    p = payload.encode() if isinstance(payload, str) else payload
    return packet(PUBLISH, s(topic) + (struct.pack(">H", pid) if qos else b"") + p, qos << 1 | dup << 3)


def ack(kind, pid):
    return packet(kind, struct.pack(">H", pid), 2 if kind == PUBREL else 0)


def message(p):
    h, b = p
    check(h >> 4 == PUBLISH, "unexpected packet %r" % (p,))
    n, q = struct.unpack(">H", b[:2])[0], h >> 1 & 3
    return (b[2 : 2 + n].decode(), b[2 + n + (2 if q else 0) :], q)


class Closed(Exception):
    pass


class Client:
    count = 0

    def __init__(self, cid=None, keep=0, rcvbuf=None):
        self.sock = socket.socket()
        if rcvbuf:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.sock.settimeout(20)
        self.sock.connect(("127.0.0.1", PORT))
        self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf, self.pid, self.marks, self.kept = b"", 0, 0, []
        if cid is not None:
            self.send(connect(cid, keep))
            self.expect(CONNACK, b"\0\0")

    def send(self, data):
        self.sock.sendall(data)

    def fill(self, timeout):
        self.sock.settimeout(max(timeout, 0.001))
        try:
            d = self.sock.recv(1 << 16)
        except ConnectionError:
            d = b""
        finally:
            self.sock.settimeout(20)
        if not d:
            raise Closed("connection closed by the broker")
        self.buf += d

    def recv(self, timeout=15):
        """The next packet as (first byte, body); raises socket.timeout or Closed."""
        end = time.time() + timeout
        while True:
            n, shift = 0, 0
            for i in range(1, len(self.buf)):
                b = self.buf[i]
                n |= (b & 127) << shift
                shift += 7
                if not b & 128:
                    if len(self.buf) >= i + 1 + n:
                        p = (self.buf[0], self.buf[i + 1 : i + 1 + n])
                        self.buf = self.buf[i + 1 + n :]
                        return p
                    break
            if time.time() > end:
                raise socket.timeout("no packet")
            self.fill(end - time.time())

    def expect(self, kind, body=None, timeout=15):
        p = self.recv(timeout)
        check(p[0] >> 4 == kind and (body is None or p[1] == body), "unexpected packet %r" % (p,))
        return p

    def sub(self, *filters):
        self.pid += 1
        self.send(subscribe(self.pid, *filters))
        return self.answer(SUBACK)[2:]

    def unsub(self, *filters):
        self.pid += 1
        self.send(unsubscribe(self.pid, *filters))
        self.answer(UNSUBACK)

    def answer(self, kind):
        """The next packet of this kind; messages before it are kept for got()."""
        while True:
            p = self.recv()
            if p[0] >> 4 == PUBLISH:
                self.kept.append(message(p))
            else:
                check(p[0] >> 4 == kind, "unexpected packet %r" % (p,))
                return p[1]

    def ping(self, timeout=15):
        """Everything received before the PINGRESP."""
        self.send(packet(PINGREQ))
        out = []
        while True:
            p = self.recv(timeout)
            if p[0] >> 4 == PINGRESP:
                return out
            out.append(p)

    def got(self, publisher):
        """The messages received so far, as (topic, payload, qos), once all that `publisher` sent has arrived."""
        if not self.marks:
            Client.count += 1
            self.mark = "mark-%d" % Client.count
            check(self.sub((self.mark, 0)) == b"\0", "subscription refused")
        self.marks += 1
        mark = (self.mark, b"%d" % self.marks, 0)
        publisher.send(publish(mark[0], mark[1]))
        out = self.kept
        self.kept = []
        while True:
            m = message(self.recv())
            if m == mark:
                return out
            out.append(m)

    def closed(self, timeout=15):
        """Whether the broker closes the connection in time; packets before that are dropped."""
        end = time.time() + timeout
        try:
            while time.time() < end:
                self.fill(end - time.time())
        except Closed:
            return True
        except socket.timeout:
            pass
        return False

    def close(self):
        self.sock.close()


def check(ok, what):
    if not ok:
        raise AssertionError(what)


class Broker:
    def __init__(self):
        self.dir = tempfile.TemporaryDirectory()
        exe = os.path.join(os.getcwd(), "target/debug/mqtt_broker")
        self.proc = subprocess.Popen([exe], cwd=self.dir.name, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for _ in range(600):
            check(self.proc.poll() is None, "the broker did not start")
            try:
                socket.create_connection(("127.0.0.1", PORT), 1).close()
                return
            except OSError:
                time.sleep(0.05)
        raise AssertionError("the broker does not listen")

    def rss(self):
        with open("/proc/%d/statm" % self.proc.pid) as f:
            return int(f.read().split()[1]) * 4096

    def interrupt(self, timeout=20):
        self.proc.send_signal(signal.SIGINT)
        try:
            return self.proc.wait(timeout)
        except subprocess.TimeoutExpired:
            return None


def run(scenario):
    """Run `scenario(broker)`; exit 0 when it passes, 1 when it finds the broker broken."""
    try:
        broker = Broker()
    except AssertionError as e:
        print("FAILED:", e)
        sys.exit(1)
    try:
        scenario(broker)
    except (AssertionError, Closed, OSError, struct.error, UnicodeDecodeError) as e:
        print("FAILED: %s: %s" % (type(e).__name__, e))
        sys.exit(1)
    finally:
        broker.proc.kill()
        broker.proc.wait()
    print("ok")
