"""
An FTP server on the loopback interface which does what a case asks for; runs
in the process of the HTTP server (pbt.httpd) and uses its routes and its log.

Routes are named "ftp:/path":
  file    what to send (a path)            cut     send only that many bytes
  size    announce the size in the reply   end     how a cut transfer ends: "226", "426", "drop" or "reset"
  auth    [user, password] to insist on    stall   do not send anything after 'cut', keep the connections
  delay   wait [seconds before the reply, seconds in the middle of the data]
The route "ftp:" is for the whole server:
  greet   the greeting                     epsv    whether it knows EPSV
"""

import json
import os
import socket
import socketserver
import struct
import time


class Handler(socketserver.StreamRequestHandler):
    def handle(self):
        self.pasv = None
        try:
            self.serve()
        except OSError:
            pass
        finally:
            if self.pasv:
                self.pasv.close()

    def say(self, text):
        self.wfile.write(text.encode("utf-8") + b"\r\n")

    def note(self, **what):
        with self.server.lock:
            with open(os.path.join(self.server.dir, "log"), "a") as f:
                f.write(json.dumps(dict(what, ftp=True)) + "\n")

    def serve(self):
        with self.server.lock:
            with open(os.path.join(self.server.dir, "routes.json")) as f:
                routes = {k[4:]: v for k, v in json.load(f).items() if k.startswith("ftp:")}
        glob = routes.pop("", {})
        self.note(what="connect")
        self.say(glob.get("greet", "220 hello"))
        user, login, cwd = None, None, "/"
        dirs = {"/"}
        for p in routes:
            while p != "/":
                p = os.path.dirname(p)
                dirs.add(p)
        while True:
            line = self.rfile.readline(1 << 16)
            if not line:
                return
            cmd, _, arg = line.decode("utf-8", "surrogateescape").rstrip("\r\n").partition(" ")
            cmd = cmd.upper()
            if cmd == "USER":
                user = arg
                self.say("331 and the password?")
            elif cmd == "PASS":
                self.note(what="login", user=user, password=arg)
                wanted = glob.get("auth")
                if wanted and [user, arg] != wanted:
                    self.say("530 who are you?")
                else:
                    login = (user, arg)
                    self.say("230 welcome")
            elif cmd == "QUIT":
                self.say("221 bye")
                return
            elif login is None:
                self.say("530 log in first")
            elif cmd == "TYPE":
                self.say("200 fine")
            elif cmd == "PWD":
                self.say('257 "%s"' % cwd)
            elif cmd == "CWD":
                to = os.path.normpath(os.path.join(cwd, arg))
                if to in dirs:
                    cwd = to
                    self.say("250 fine")
                else:
                    self.say("550 no such directory")
            elif cmd in ("PASV", "EPSV"):
                if cmd == "EPSV" and not glob.get("epsv", True):
                    self.say("500 what?")
                    continue
                if self.pasv:
                    self.pasv.close()
                self.pasv = socket.socket()
                self.pasv.bind(("127.0.0.1", 0))
                self.pasv.listen(1)
                self.pasv.settimeout(30)
                port = self.pasv.getsockname()[1]
                if cmd == "PASV":
                    self.say("227 Entering Passive Mode (127,0,0,1,%d,%d)" % (port >> 8, port & 255))
                else:
                    self.say("229 Entering Extended Passive Mode (|||%d|)" % port)
            elif cmd == "RETR":
                path = os.path.normpath(os.path.join(cwd, arg))
                self.note(what="retr", path=path, user=login[0], password=login[1])
                if path not in routes:
                    self.say("550 no such file")
                    continue
                if not self.send(routes[path]):
                    return
            else:
                self.say("502 what is %s?" % cmd)

    def send(self, route):
        """Send a file. -> whether to go on"""
        with open(route["file"], "rb") as f:
            body = f.read()
        size = len(body)
        cut = route.get("cut")
        if cut is not None:
            body = body[:cut]
        if not self.pasv:
            self.say("425 where to?")
            return True
        delay = route.get("delay", [0, 0])
        time.sleep(delay[0])
        data, _ = self.pasv.accept()
        self.pasv.close()
        self.pasv = None
        self.say("150 here it comes" + (" (%d bytes)" % size if route.get("size", True) else ""))
        try:
            slow = route.get("slow")
            if delay[1]:
                data.sendall(body[:len(body) // 2])
                time.sleep(delay[1])
                data.sendall(body[len(body) // 2:])
            elif slow:
                for i in range(0, len(body), slow):
                    data.sendall(body[i:i + slow])
                    time.sleep(0.002)
            else:
                data.sendall(body)
            if route.get("stall"):
                data.settimeout(60)
                data.recv(1)
        except OSError:
            data.close()
            self.say("426 you have gone")
            return True
        end = route.get("end", "226") if cut is not None else "226"
        if end == "reset":
            time.sleep(0.05)
            data.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        data.close()
        if end in ("drop", "reset"):
            return False
        self.say("226 that was it" if end == "226" else "426 connection closed, transfer aborted")
        return True


class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
    daemon_threads = True
    allow_reuse_address = True
    request_queue_size = 64
