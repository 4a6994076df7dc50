"""
An HTTP and HTTPS server on the loopback interface which does what a case asks
for (and an FTP server, see pbt/ftpd.py).

  python -m pbt.httpd DIR

DIR/routes.json: {request target: {...}}, read anew for every request:
  file    what to send (a path)            status  status code (200)
  mode    "length", "close" or "chunked"   cut     send only that many bytes of the body
  reset   end a cut body with a reset      auth    [user, password] to insist on (basic)
  to      target of a redirection          stall   do not send anything after 'cut', keep the connection
  garbage send this instead of a reply     realm   of the authentication
  delay   wait [seconds before the reply, seconds in the middle of the body]
The route "tls" ({"cert": ...}) names the certificate, one of pbt/tls.  A request
to CONNECT (as to a proxy) gets a tunnel to the HTTPS server if there is a route
"connect:host:port".
DIR/port: the ports of the three servers, and of the HTTP server on ::1 (or 0); DIR/log: one JSON line for every request.
"""

import base64
import json
import os
import socket
import socketserver
import ssl
import struct
import sys
import threading
import time

from pbt import ftpd

LOCK = threading.Lock()
TLS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tls")


class Handler(socketserver.StreamRequestHandler):
    def handle(self):
        try:
            self.serve()
        except OSError:
            pass

    def tunnel(self, port):
        """Pass everything on to the HTTPS server, and back."""
        there = socket.create_connection(("127.0.0.1", port))
        here = self.connection
        self.wfile.write(b"HTTP/1.1 200 Here you are\r\n\r\n")

        def pump(a, b):
            try:
                while True:
                    buf = a.recv(65536)
                    if not buf:
                        break
                    b.sendall(buf)
            except OSError:
                pass
            try:
                b.shutdown(socket.SHUT_WR)
            except OSError:
                pass

        t = threading.Thread(target=pump, args=(here, there), daemon=True)
        t.start()
        pump(there, here)
        t.join(30)
        there.close()

    def serve(self):
        d = self.server.dir
        line = self.rfile.readline(1 << 20).decode("latin-1").rstrip("\r\n")
        if not line:
            return
        headers = []
        while True:
            h = self.rfile.readline(1 << 20).decode("latin-1").rstrip("\r\n")
            if not h:
                break
            key, _, value = h.partition(":")
            headers.append([key.strip().lower(), value.strip()])
        method, _, rest = line.partition(" ")
        target = rest.rpartition(" ")[0]
        if target.startswith("https://"):
            # Every server has to accept the whole URL (RFC 9112, 3.2.2); this is
            # what urllib sends through a tunnel after having been asked for a password
            target = "/" + target.split("/", 3)[3]
        with LOCK:
            with open(os.path.join(d, "log"), "a") as f:
                f.write(json.dumps({"method": method, "target": target, "headers": headers, "tls": isinstance(self.connection, ssl.SSLSocket)}) + "\n")
            with open(os.path.join(d, "routes.json")) as f:
                routes = json.load(f)
        if method == "CONNECT" and "connect:" + target in routes:
            return self.tunnel(self.server.tls_port)
        route = routes.get(target)
        if route is None:
            return self.reply(404, [], b"nothing here\n")
        if "garbage" in route:
            self.wfile.write(route["garbage"].encode("latin-1"))
            return
        if route.get("auth"):
            want = "Basic " + base64.b64encode(":".join(route["auth"]).encode()).decode()
            got = [v for k, v in headers if k == "authorization"]
            if got != [want]:
                return self.reply(401, [("WWW-Authenticate", 'Basic realm="%s"' % route.get("realm", "images"))], b"who are you?\n")
        if route.get("to"):
            return self.reply(route.get("status", 302), [("Location", route["to"])], b"over there\n")
        status = route.get("status", 200)
        if "file" not in route:
            return self.reply(status, [], b"the status is %d\n" % status)
        with open(route["file"], "rb") as f:
            body = f.read()
        mode = route.get("mode", "length")
        cut = route.get("cut")
        head = "HTTP/1.1 %d Whatever\r\nContent-Type: application/octet-stream\r\nConnection: close\r\n" % status
        if mode in ("length", "https"):
            head += "Content-Length: %d\r\n" % len(body)
        elif mode == "chunked":
            head += "Transfer-Encoding: chunked\r\n"
            out = []
            step = route.get("chunk", 40000)
            for i in range(0, len(body), step):
                part = body[i:i + step]
                out.append(b"%x\r\n" % len(part) + part + b"\r\n")
            out.append(b"0\r\n\r\n")
            body = b"".join(out)
        if cut is not None:
            body = body[:cut]
        delay = route.get("delay", [0, 0])
        time.sleep(delay[0])
        self.wfile.write(head.encode() + b"\r\n")
        slow = route.get("slow")
        if delay[1]:
            self.wfile.write(body[:len(body) // 2])
            self.wfile.flush()
            time.sleep(delay[1])
            self.wfile.write(body[len(body) // 2:])
        elif slow:
            for i in range(0, len(body), slow):
                self.wfile.write(body[i:i + slow])
                time.sleep(0.002)
        else:
            self.wfile.write(body)
        self.wfile.flush()
        if route.get("stall"):
            try:
                self.connection.settimeout(60)
                self.connection.recv(1)
            except OSError:
                pass
            return
        if route.get("reset"):
            time.sleep(0.05)
            self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))

    def reply(self, status, headers, body):
        head = "HTTP/1.1 %d Whatever\r\nContent-Length: %d\r\nConnection: close\r\n" % (status, len(body))
        head += "".join("%s: %s\r\n" % h for h in headers)
        self.wfile.write(head.encode("latin-1") + b"\r\n" + body)


class TlsHandler(Handler):
    def setup(self):
        with LOCK:
            with open(os.path.join(self.server.dir, "routes.json")) as f:
                cert = json.load(f).get("tls", {}).get("cert", "good")
        context = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        context.load_cert_chain(os.path.join(TLS, cert + ".pem"))
        self.plain = self.request
        try:
            self.request = context.wrap_socket(self.request, server_side=True)
            self.failed = False
        except OSError:
            self.failed = True
        super().setup()

    def handle(self):
        if not self.failed:
            super().handle()

    def finish(self):
        try:
            super().finish()
        except OSError:
            pass
        self.request.close()


class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
    daemon_threads = True
    allow_reuse_address = True
    request_queue_size = 64


class Server6(Server):
    address_family = socket.AF_INET6


def main():
    d = sys.argv[1]
    server = Server(("127.0.0.1", 0), Handler)
    server.dir = d
    try:
        server6 = Server6(("::1", 0), Handler)
        server6.dir = d
        threading.Thread(target=server6.serve_forever, daemon=True).start()
        port6 = server6.server_address[1]
    except OSError:
        port6 = 0
    tls = Server(("127.0.0.1", 0), TlsHandler)
    tls.dir = d
    server.tls_port = tls.server_address[1]
    threading.Thread(target=tls.serve_forever, daemon=True).start()
    ftp = ftpd.Server(("127.0.0.1", 0), ftpd.Handler)
    ftp.dir = d
    ftp.lock = LOCK
    threading.Thread(target=ftp.serve_forever, daemon=True).start()
    with open(os.path.join(d, "port.tmp"), "w") as f:
        f.write("%d %d %d %d" % (server.server_address[1], ftp.server_address[1], tls.server_address[1], port6))
    os.rename(os.path.join(d, "port.tmp"), os.path.join(d, "port"))

    def watch():
        parent = os.getppid()
        while os.getppid() == parent and os.path.isdir(d):
            time.sleep(0.5)
        os._exit(0)

    threading.Thread(target=watch, daemon=True).start()
    server.serve_forever()


if __name__ == "__main__":
    main()
