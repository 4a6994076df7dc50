"""Sources of images: files, URLs, pipes, a stand-in for the ssh client; program sets."""

import json
import os
import shutil
import subprocess
import sys
import time
import urllib.parse

from pbt import util
from pbt.core import Skip, VERIF

_SRV = {}
# Those who trust this trust the HTTPS server
TRUST = {"SSL_CERT_FILE": os.path.join(VERIF, "pbt", "tls", "ca.pem")}
TOOLS = ("sh", "tar", "gzip", "bzip2", "xz", "lzop", "lz4", "zstd", "funzip", "unzip", "cat", "true", "test", "df", "gpg", "gpgv", "gpg-agent", "gpgconf", "gpgsm", "sleep", "head", "dd")
OPTIONAL = ("pigz", "pbzip2")


class Http(object):
    """The HTTP server of this worker."""

    def __init__(self):
        self.dir = os.path.join(util._W["ext"], "httpd")
        os.mkdir(self.dir)
        self.routes({})
        env = dict(os.environ, PYTHONPATH=VERIF)
        self.proc = subprocess.Popen([sys.executable, "-B", "-m", "pbt.httpd", self.dir], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                     stderr=subprocess.DEVNULL, cwd=VERIF)
        deadline = time.time() + 30
        while not os.path.exists(os.path.join(self.dir, "port")):
            if time.time() > deadline or self.proc.poll() is not None:
                raise RuntimeError("the HTTP server does not start")
            time.sleep(0.01)
        with open(os.path.join(self.dir, "port")) as f:
            self.port, self.ftp_port, self.tls_port, self.port6 = (int(x) for x in f.read().split())

    def routes(self, routes):
        with open(os.path.join(self.dir, "routes.tmp"), "w") as f:
            json.dump(routes, f)
        os.rename(os.path.join(self.dir, "routes.tmp"), os.path.join(self.dir, "routes.json"))
        try:
            os.unlink(os.path.join(self.dir, "log"))
        except OSError:
            pass

    def log(self):
        try:
            with open(os.path.join(self.dir, "log")) as f:
                return [json.loads(x) for x in f]
        except OSError:
            return []

    def url(self, target, cred="", host="127.0.0.1"):
        return "http://%s%s:%d%s" % (cred, host, self.port6 if host == "[::1]" else self.port, target)

    def tls_url(self, target, cred="", host="127.0.0.1"):
        return "https://%s%s:%d%s" % (cred, host, self.tls_port, target)

    def ftp_url(self, target, cred="", host="127.0.0.1"):
        return "ftp://%s%s:%d%s" % (cred, host, self.ftp_port, target)


def http():
    srv = _SRV.get(os.getpid())
    if srv is None or srv.proc.poll() is not None:
        _SRV.clear()
        srv = _SRV[os.getpid()] = Http()
    return srv


def bin_dir(names, decoys=None, extra=None):
    """
    A directory with links to the named programs (which are skipped if they
    are not installed), for PATH. 'decoys': {name: "dir", "data"} things of that
    name which are no programs; 'extra': {name: script text}.
    """
    d = os.path.join(util.scratch("ext"), "bin")
    os.mkdir(d)
    for n in names:
        p = shutil.which(n, path="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
        if p:
            os.symlink(p, os.path.join(d, n))
    for n, text in (extra or {}).items():
        with open(os.path.join(d, n), "w") as f:
            f.write(text)
        os.chmod(os.path.join(d, n), 0o755)
    if not decoys:
        return d
    first = os.path.join(os.path.dirname(d), "first")
    os.mkdir(first)
    for n, kind in decoys.items():
        p = os.path.join(first, n)
        if kind == "dir":
            os.mkdir(p)
        else:
            with open(p, "w") as f:
                f.write("not a program\n")
            os.chmod(p, 0o644)
    return first + ":" + d


class path_env(object):
    """Use another PATH (and other variables) for a while."""

    def __init__(self, path=None, **env):
        self.env = dict(env)
        if path is not None:
            self.env["PATH"] = path

    def __enter__(self):
        self.old = {k: os.environ.get(k) for k in self.env}
        for k, v in self.env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v

    def __exit__(self, *exc):
        for k, v in self.old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        return False


# The stand-in for the ssh client: it logs how it was called and runs the
# command the way a remote login shell would.  $SSH_PLAN (a JSON file) tells
# how it fails.
FAKE_SSH = """#!%s
import json, os, subprocess, sys
plan = {}
if os.environ.get("SSH_PLAN"):
    with open(os.environ["SSH_PLAN"]) as f:
        plan = json.load(f)
args = sys.argv[1:]
opts = []
while args and args[0].startswith("-"):
    a = args.pop(0)
    if a == "-o":
        a += " " + args.pop(0)
    opts.append(a)
host = args.pop(0) if args else None
command = " ".join(args)
with open(os.environ["SSH_LOG"], "a") as f:
    f.write(json.dumps({"tool": "ssh", "opts": opts, "host": host, "command": command, "pass": os.environ.get("FAKE_SSHPASS")}) + "\\n")
if os.environ.get("SSH_HOME"):
    os.chdir(os.environ["SSH_HOME"])
if plan.get("refuse") is not None:
    sys.stderr.write("ssh: refused\\n")
    sys.exit(plan["refuse"])
if plan.get("cut") is not None and command.startswith("cat"):
    p = subprocess.Popen(["/bin/sh", "-c", command], stdout=subprocess.PIPE)
    left = plan["cut"]
    while left:
        b = p.stdout.read(min(left, 65536))
        if not b:
            break
        left -= len(b)
        try:
            sys.stdout.buffer.write(b)
            sys.stdout.buffer.flush()
        except BrokenPipeError:
            break
    p.stdout.close()
    p.wait()
    code = plan.get("code", 255)
    if code < 0:
        os.kill(os.getpid(), -code)
    os._exit(code)
os.execv("/bin/sh", ["sh", "-c", command])
"""

FAKE_SSHPASS = """#!%s
import json, os, sys
args = sys.argv[1:]
with open(os.environ["SSH_LOG"], "a") as f:
    f.write(json.dumps({"tool": "sshpass", "args": args[:1]}) + "\\n")
plan = {}
if os.environ.get("SSH_PLAN"):
    with open(os.environ["SSH_PLAN"]) as f:
        plan = json.load(f)
if plan.get("sshpass") is not None:
    sys.exit(plan["sshpass"])
pw = args.pop(0)
if pw == "-p":
    pw += args.pop(0)
os.environ["FAKE_SSHPASS"] = pw[2:]
os.execvp(args[0], args)
"""

PY = "/usr/bin/python3 -SEB" if os.path.exists("/usr/bin/python3") else sys.executable


def fake_ssh():
    return {"ssh": FAKE_SSH % PY, "sshpass": FAKE_SSHPASS % PY}


def ssh_log(path):
    try:
        with open(path) as f:
            return [json.loads(x) for x in f]
    except OSError:
        return []


def quote(path):
    return urllib.parse.quote(path)


SOURCES = ("path", "http", "http-chunked", "http-close", "https", "https-chunked", "ftp", "fileurl", "ssh", "pipe")


class Source(object):
    """
    Data under a name (which decides about decompression) offered through one
    of SOURCES; 'open()' gives the TransRead object.
    """

    def __init__(self, kind, d, name, data, bins=None, plan=None, route=None):
        self.kind = kind
        self.file = os.path.join(d, name)
        with open(self.file, "wb") as f:
            f.write(data)
        self.env = {}
        self.stdin = None
        self.url = self.file
        if kind.startswith("http"):
            srv = http()
            target = "/" + quote(name)
            r = {"file": self.file, "mode": {"http": "length", "https": "length", "http-close": "close"}.get(kind, "chunked")}
            r.update(route or {})
            srv.routes({target: r})
            self.url = srv.url(target)
            if kind.startswith("https"):
                self.url = srv.tls_url(target)
                self.env.update(TRUST)
        elif kind == "ftp":
            srv = http()
            r = {"file": self.file}
            r.update(route or {})
            srv.routes({"ftp:/pub/" + name: r})
            self.url = srv.ftp_url("/pub/" + quote(name))
        elif kind == "fileurl":
            self.url = "file://" + quote(self.file)
        elif kind == "ssh":
            if bins is None:
                bins = bin_dir(TOOLS + OPTIONAL, extra=fake_ssh())
            self.log = os.path.join(d, "ssh.log")
            self.env["SSH_LOG"] = self.log
            if plan:
                with open(os.path.join(d, "ssh.plan"), "w") as f:
                    json.dump(plan, f)
                self.env["SSH_PLAN"] = os.path.join(d, "ssh.plan")
            self.url = "ssh://host" + self.file
        elif kind == "pipe":
            self.url = "-"
        if bins:
            self.env["PATH"] = bins

    def open(self):
        from bmaptools import TransRead

        with path_env(**self.env):
            if self.kind != "pipe":
                return TransRead.TransRead(self.url)
            return self.open_pipe()

    def open_pipe(self):
        from bmaptools import TransRead

        proc = subprocess.Popen(["cat", self.file], stdout=subprocess.PIPE)
        old = sys.stdin

        class Std(object):
            buffer = proc.stdout

        def cleanup():
            proc.stdout.close()
            proc.kill()
            proc.wait()

        util.at_case_end(cleanup)
        sys.stdin = Std()
        try:
            return TransRead.TransRead("-")
        finally:
            sys.stdin = old
