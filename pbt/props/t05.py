"""T05: remote images are fetched as asked, with the right credentials."""

import base64
import json
import logging
import os
import socket
import urllib.parse

from hypothesis import strategies as st

from pbt import gen, remote, util
from pbt.copyh import check_same
from pbt.core import Facet, Info, Property, Violation
from pbt.util import check, content

SAFE = "abcXYZ019-._~"
NAMES = st.one_of(st.sampled_from(["user", "u", "a.b-c_d~e", "Joe"]), st.text(SAFE, min_size=1, max_size=8).map(lambda s: "n" + s))
WORDS = st.one_of(st.sampled_from(["secret", "p", "p~.-_", "UPPERlower09"]), st.text(SAFE, min_size=1, max_size=10))
SEGMENTS = st.lists(st.one_of(st.sampled_from(["a", "images", "v1.2", "..x", "%20", "a%2Fb", "x=1", "a+b", "a,b;c", "~me", "(1)", "a:b", "@", "UP"]), st.text(SAFE, min_size=1, max_size=12)),
                    min_size=0, max_size=4)


def target(spec):
    path = "/" + "/".join(spec["segments"] + ["x" * spec["long"] + "image.img"])
    return path + ("?" + spec["query"] if spec["query"] else "")


def write_netrc(home, spec, machine):
    lines = []
    if spec["comment"]:
        lines.append("# my passwords\n")
    if spec["other"]:
        lines.append("machine other.example login nobody password nothing\n")
    sep = "\n" if spec["multiline"] else " "
    if spec["kind"] == "machine":
        lines.append(sep.join(["machine %s" % machine, "login %s" % spec["user"], "password %s" % spec["pw"]]) + "\n")
    elif spec["kind"] == "default":
        lines.append(sep.join(["default", "login %s" % spec["user"], "password %s" % spec["pw"]]) + "\n")
    elif spec["kind"] == "broken":
        lines.append("machine %s login %s pass\nword x\n" % (machine, spec["user"]))
    path = os.path.join(home, ".netrc")
    with open(path, "w") as f:
        f.write("".join(lines))
    os.chmod(path, 0o600)


def fetch(url, own=True):
    """-> (data, exception)"""
    from bmaptools import TransRead

    obj = None
    try:
        obj = TransRead.TransRead(url)
        return obj.read(), None
    except TransRead.Error as exc:
        check(str(exc).strip(), "the error has no text")
        return None, exc
    except Exception as exc:  # pylint: disable=broad-except
        if not own:
            return None, exc
        raise Violation("%s: not the package's own error but %s: %s" % (url[:200], type(exc).__name__, exc))
    finally:
        if obj is not None:
            obj.close()


def run_http(spec):
    d = util.scratch("ext")
    data = content({"seed": spec["seed"]}, spec["n"])
    other = content({"seed": spec["seed"] + 1}, spec["n"] + 1)
    for name, what in (("image", data), ("other", other)):
        with open(os.path.join(d, name), "wb") as f:
            f.write(what)
    t = target(spec)
    host = spec["host"]
    srv = remote.http()
    if host == "[::1]" and (spec["tls"] or not srv.port6):
        host = "127.0.0.1"
    what = spec["what"]
    route = {"file": os.path.join(d, "image"), "mode": spec["mode"]}
    if what == "status":
        route = {"status": spec["status"]}
    elif what == "garbage":
        route = {"garbage": spec["garbage"]}
    right = None
    if spec["auth"]:
        right = {"url": spec["cred"], "netrc": [spec["netrc"]["user"], spec["netrc"]["pw"]], "other": ["someone", "else"]}[spec["auth"]]
        if right is None:
            right = ["user", "secret"]
        route.update(auth=right, realm=spec["realm"])
    routes = {t: route}
    # Similar resources with other contents
    for near in (t + "x", t.split("?")[0], t + "?", "/", "/image.img", t.lower(), t.replace("%20", " ")):
        routes.setdefault(near, {"file": os.path.join(d, "other")})
    tls = spec["tls"]
    mine = srv.tls_url if tls else srv.url
    routes["tls"] = {"cert": tls}
    hops = []
    first = t
    cross = spec["cross"] and spec["hops"] and what == "ok"
    there = host
    if cross:
        # The last redirection is to another host (or so it seems)
        there = "localhost" if host == "127.0.0.1" else "127.0.0.1"
    for i in range(spec["hops"] if what == "ok" else 0):
        hop = "/hop%d" % i
        routes[hop] = {"to": first if i % 2 and not cross else mine(first, host=host if i else there), "status": spec["hopstatus"]}
        if right and spec["hopauth"]:
            routes[hop].update(auth=right, realm=spec["realm"])
        hops.append(hop)
        first = hop
    if what == "missing":
        del routes[t]
    srv.routes(routes)
    cred = ""
    if spec["cred"]:
        cred = ":".join(spec["cred"]) + "@"
    url = mine(first, cred, host)
    if hops and tls and spec["plainhop"] and not right:
        # From a plain server to the right place
        routes["/plain"] = {"to": mine(first, host=host), "status": spec["hopstatus"]}
        url = srv.url("/plain", host=host)
        srv.routes(routes)
        hops.append("/plain")
    if what == "closed":
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        url = url.replace(":%d/" % (srv.tls_port if tls else srv.port6 if host == "[::1]" else srv.port), ":%d/" % s.getsockname()[1])
        util.at_case_end(s.close)
    elif what == "nohost":
        url = url.replace("@" + host if cred else "//" + host, "@nowhere.invalid" if cred else "//nowhere.invalid")
    home = os.path.join(d, "home")
    os.mkdir(home)
    if spec["netrc"]["kind"] != "none":
        write_netrc(home, spec["netrc"], host.strip("[]"))
    env = dict(remote.TRUST) if tls and spec["trust"] else {"SSL_CERT_FILE": None}
    with remote.path_env(HOME=home, **env):
        got, exc = fetch(url)
    log = srv.log()
    if tls:
        check(all(r["tls"] for r in log if r["target"] != "/plain"), "a request was not encrypted: %r", log)
        if tls != "good" or not spec["trust"]:
            # (the bad ones: for another host, expired, by another authority)
            check(exc is not None, "the certificate (%s%s) is not good, but there is no error", tls, "" if spec["trust"] else ", not trusted")
            check(not [r for r in log if r["target"] != "/plain"], "the certificate (%s) is not good, but %r was requested", tls, log)
            return Info(True, "error: certificate")
    # What the reader knows
    known = spec["cred"]
    if not known and spec["netrc"]["kind"] in ("machine", "default"):
        known = [spec["netrc"]["user"], spec["netrc"]["pw"]]
    sent = [[v for k, v in r["headers"] if k == "authorization"] for r in log]
    sent = [v for vs in sent for v in vs]
    for r in log:
        if [k for k, _ in r["headers"] if k == "authorization"]:
            check(routes.get(r["target"], {}).get("auth"), "credentials were sent for %r, which does not ask for them", r["target"])
            check(not cross or r["target"] != t, "credentials were sent to the server to which %s redirected", host)
    for v in sent:
        check(known, "credentials %r were sent, where from?", v)
        check(v == "Basic " + base64.b64encode(":".join(known).encode()).decode(), "the credentials are %r but %r was sent", known, v)
    if not spec["auth"] or what in ("closed", "nohost"):
        check(not sent, "credentials were sent though the server did not ask for them")
    elif log:
        check(not [k for k, _ in log[0]["headers"] if k == "authorization"], "credentials were sent before the server asked for them")
    for r in log:
        check(r["method"] == "GET", "request %r", r)
        check(r["target"] == t or r["target"] in hops, "%r was requested instead of %r", r["target"], t)
        check(":".join(spec["cred"] or ["\0"]) not in json.dumps([h for h in r["headers"] if h[0] == "host"]), "the host header has credentials")
    if what == "ok" and (not right or known == right) and not (cross and right):
        check(exc is None, "the server has the image%s, but: %s", " and the credentials are right" if right else "", exc)
        check_same(got, data, "the image", 4096)
        return Info(True, "fetched", "https" if tls else "http", "with credentials from %s" % ("the URL" if spec["cred"] else "netrc") if right else "no authentication", "redirected" if hops else "direct")
    check(exc is not None, "%s: there was no error (but %d bytes)", what if what != "ok" else "the server refuses the credentials", len(got or b""))
    return Info(True, "error: %s" % (what if what != "ok" else "refused"))


def http_st():
    return st.fixed_dictionaries({
        "segments": SEGMENTS, "long": gen.weighted((6, st.just(0)), (1, st.sampled_from([200, 246, 247, 300, 4000, 5000]))),
        "query": gen.weighted((4, st.just("")), (1, st.sampled_from(["a=1", "a=b&c=d%20e", "file=/etc/x", "?", "x@y:z"]))),
        "seed": gen.ints(0, 20), "n": st.one_of(gen.ints(1, 5000), gen.ints(1, 300000)), "host": st.sampled_from(["127.0.0.1", "127.0.0.1", "localhost", "[::1]"]),
        "mode": st.sampled_from(["length", "chunked", "close"]), "cred": gen.weighted((2, st.none()), (1, st.tuples(NAMES, WORDS).map(list))),
        "auth": gen.weighted((2, st.just("")), (2, st.just("url")), (2, st.just("netrc")), (1, st.just("other"))), "realm": st.sampled_from(["images", "My Realm", "a,b=c"]),
        "netrc": st.fixed_dictionaries({"kind": st.sampled_from(["none", "machine", "machine", "default", "other", "broken"]), "user": NAMES, "pw": WORDS, "comment": st.booleans(),
                                        "other": st.booleans(), "multiline": st.booleans()}),
        "what": gen.weighted((6, st.just("ok")), (1, st.sampled_from(["missing", "status", "garbage", "closed", "nohost"]))),
        "status": st.sampled_from([400, 403, 404, 410, 500, 502, 503]), "garbage": st.sampled_from(["", "hello\r\n", "HTTP/1.1 banana\r\n\r\n", "\r\n\r\n", "\x16\x03\x01\x02\x00"]),
        "tls": gen.weighted((4, st.just("")), (3, st.just("good")), (1, st.sampled_from(["otherhost", "expired", "untrusted"]))), "trust": gen.weighted((7, st.just(True)), (1, st.just(False))),
        "plainhop": st.booleans(), "hopauth": st.booleans(), "cross": gen.weighted((3, st.just(False)), (1, st.just(True))), "hops": gen.weighted((3, st.just(0)), (1, gen.ints(1, 3))), "hopstatus": st.sampled_from([301, 302, 303, 307])})


def run_proxy(spec):
    d = util.scratch("ext")
    data = content({"seed": spec["seed"]}, spec["n"])
    with open(os.path.join(d, "image"), "wb") as f:
        f.write(data)
    with open(os.path.join(d, "other"), "wb") as f:
        f.write(b"without the proxy")
    srv = remote.http()
    t = "/" + "/".join(spec["segments"] + ["image.img"])
    tls = spec["tls"]
    host = "localhost:%d" % (srv.tls_port if tls else srv.port) if spec["local"] else spec["far"]
    if host.startswith("[") and (tls or spec["no"] == "this"):
        host = "some.host.invalid"
    name = urllib.parse.urlsplit("//" + host).hostname
    right = None
    route = {"file": os.path.join(d, "image")}
    cred = ""
    if spec.get("auth"):
        # The server behind the proxy asks for credentials
        right = ["joe", "secret"]
        route["auth"] = right
        if spec["auth"] == "url":
            cred = ":".join(right) + "@"
        else:
            with open(os.path.join(d, ".netrc"), "w") as f:
                f.write("machine %s login %s password %s\n" % (name, right[0], right[1]))
            os.chmod(os.path.join(d, ".netrc"), 0o600)
    # (a proxy gets the whole URL as the target)
    routes = {"http://" + host + t: route, t: dict(route, file=os.path.join(d, "other"))}
    if tls:
        # (or is asked for a tunnel)
        tunnel = host if urllib.parse.urlsplit("//" + host).port else host + ":443"
        routes = {t: route, "connect:" + tunnel: {}}
    srv.routes(routes)
    scheme = "https" if tls else "http"
    env = {"HOME": d, scheme + "_proxy" if spec["lower"] else scheme.upper() + "_PROXY": "http://127.0.0.1:%d" % srv.port + ("/" if spec["slash"] else ""),
           "no_proxy": {"none": None, "other": "other.example", "this": name}[spec["no"]]}
    with remote.path_env(**dict(remote.TRUST, **env)):
        got, exc = fetch(scheme + "://" + cred + host + t)
    direct = spec["no"] == "this"
    if direct and not spec["local"]:
        check(exc is not None, "the host does not exist and the proxy is not for it, but there were %d bytes", len(got or b""))
        check(not srv.log(), "the proxy is not for this host, but was asked for %r", srv.log())
        return Info(True, "unreachable without the proxy")
    check(exc is None, "there is a %s, but: %s", "server" if direct else "proxy", exc)
    check_same(got, b"without the proxy" if direct and not tls else data, "the image", 4096)
    if tls:
        log = srv.log()
        check(all(r["target"] == tunnel and not r["tls"] for r in log if r["method"] == "CONNECT"), "requests %r", log)
        check(bool([r for r in log if r["method"] == "CONNECT"]) == (not direct), "the proxy is %sto be used, but the requests were %r", "not " if direct else "", log)
        check(all(r["tls"] and r["target"] == t for r in log if r["method"] != "CONNECT"), "requests %r", log)
        check(not [r for r in log if r["method"] == "CONNECT" and [h for h in r["headers"] if "authorization" in h[0]]], "the proxy was told the password")
    return Info(True, "direct" if direct else "through the proxy", scheme, "with credentials" if right else "without credentials")


def proxy_st():
    return st.fixed_dictionaries({"segments": SEGMENTS, "seed": gen.ints(0, 20), "n": gen.ints(1, 50000), "local": st.booleans(), "far": st.sampled_from(["some.host.invalid", "[2001:db8::7]", "[2001:db8::7]:8080", "some.host.invalid:81"]), "tls": st.booleans(), "lower": st.booleans(), "slash": st.booleans(),
                                  "no": st.sampled_from(["none", "other", "this"]),
                                  "auth": st.sampled_from(["", "url", "netrc"])})


def run_ftp(spec):
    d = util.scratch("ext")
    data = content({"seed": spec["seed"]}, spec["n"])
    with open(os.path.join(d, "image"), "wb") as f:
        f.write(data)
    with open(os.path.join(d, "other"), "wb") as f:
        f.write(b"something else")
    srv = remote.http()
    what = spec["what"]
    t = "/" + "/".join(s.replace(";", "%3B") for s in spec["segments"]) + "/" * bool(spec["segments"]) + spec["name"] + ".img"
    path = os.path.normpath(urllib.parse.unquote(t))
    known = spec["cred"]
    right = {"": None, "url": known or ["user", "secret"], "other": ["someone", "else"], "anonymous": ["anonymous", "anonymous@"]}[spec["auth"]]
    cred = ":".join(known) + "@" if known else ""
    expected = list(known) + [""] * (2 - len(known)) if known else ["anonymous", "anonymous@"]
    via = spec["via"]
    host = "localhost:%d" % srv.ftp_port
    route = {"file": os.path.join(d, "image"), "size": spec["size"]}
    routes = {"ftp:": {"auth": right, "epsv": spec["epsv"]}, "ftp:" + path: route}
    for near in (path + "x", path.lower(), path.replace(" ", "%20"), "/" + os.path.basename(path)):
        routes.setdefault("ftp:" + near, {"file": os.path.join(d, "other")})
    if what == "missing":
        del routes["ftp:" + path]
    elif what == "greet":
        routes["ftp:"]["greet"] = spec["greet"]
    env = {"HOME": d}
    url = srv.ftp_url(t, cred, "localhost")
    if what == "closed":
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        url = url.replace(":%d/" % srv.ftp_port, ":%d/" % s.getsockname()[1])
        util.at_case_end(s.close)
    elif what == "nohost":
        url = url.replace("localhost:", "nowhere.invalid:")
    if via == "redirect":
        routes["/hop"] = {"to": url, "status": 302}
    elif via == "proxy":
        # (the proxy is an HTTP server which gets the whole URL as the target)
        host = "some.host.invalid"
        url = "ftp://" + cred + host + t
        routes = {"ftp://" + c + host + t: {"file": os.path.join(d, "image")} for c in ("", cred)}
        if what != "ok":
            routes = {}
        env["no_proxy"] = None
        env["ftp_proxy" if spec["lower"] else "FTP_PROXY"] = "http://127.0.0.1:%d/" % srv.port
    srv.routes(routes)
    with remote.path_env(**env):
        got, exc = fetch(srv.url("/hop") if via == "redirect" else url)
    log = srv.log()
    logins = [[r["user"], r["password"]] for r in log if r.get("what") == "login"]
    for login in logins:
        check(login == expected, "the credentials are %r, but the login was %r", known, login)
    for r in log:
        if r.get("what") == "retr":
            check(r["path"] == path, "%r was asked for instead of %r", r["path"], path)
    if via == "proxy":
        check(not [r for r in log if r.get("ftp")], "there is a proxy, but the server was asked")
        bad = what != "ok"
    else:
        bad = what != "ok" or right and right != expected
    if bad:
        check(exc is not None, "%s: there was no error (but %d bytes)", what if what != "ok" else "the server refuses the login", len(got or b""))
        return Info(True, "error: %s" % (what if what != "ok" else "refused"))
    check(exc is None, "%r: %s", url, exc)
    check_same(got, data, "the image", 4096)
    if via != "proxy":
        check(logins, "there was no login")
    return Info(True, "fetched", via, "as somebody" if known else "anonymously", "size announced" if spec["size"] else "size not announced")


def ftp_st():
    return st.fixed_dictionaries({
        "segments": SEGMENTS, "name": st.sampled_from(["image", "my%20image", "A+b", "a%3Fb", "x=1", "%C3%BC"]), "seed": gen.ints(0, 20), "n": st.one_of(gen.ints(1, 5000), gen.ints(1, 300000)),
        "cred": gen.weighted((3, st.none()), (4, st.tuples(NAMES, WORDS).map(list)), (1, st.tuples(NAMES).map(list))),
        "auth": gen.weighted((2, st.just("")), (4, st.just("url")), (1, st.just("other")), (1, st.just("anonymous"))), "size": st.booleans(), "epsv": st.booleans(), "lower": st.booleans(),
        "via": gen.weighted((5, st.just("direct")), (1, st.just("redirect")), (1, st.just("proxy"))),
        "what": gen.weighted((6, st.just("ok")), (1, st.sampled_from(["missing", "greet", "closed", "nohost"]))),
        "greet": st.sampled_from(["421 too many users", "530 go away", "banana"])})


def run_bad(spec):
    """Names which are neither files nor usable URLs."""
    d = util.scratch("ext")
    with remote.path_env(HOME=d):
        got, exc = fetch(spec["url"].replace("@D@", d), own=False)
    check(exc is not None, "%r gave %d bytes", spec["url"], len(got or b""))
    return Info(True, "refused")


BAD = ["nosuchfile", "/nosuch/file", "@D@/none.img", "foo://bar/x", "http://", "http:///x", "http://[::1", "http://[zz]/x", "http://127.0.0.1:99999/x", "http://127.0.0.1:port/x", "http://u:p@127.0.0.1:port/x",
       "http://u:p@127.0.0.1:99999/x", "file:///nosuch/file", "file://other.host/x", "", "x" * 300, "x" * 5000, "http://127.0.0.1:1/x", "ftp://127.0.0.1:1/x", "http://127.0.0.1/a b", "://", "a:b", "C:\\x",
       "http://a..b/", "http://.../", "@D@/x\0y"[:0] + "file:nosuch", "data:,x"[:4], "http://u:p@[::1/x"]


def bad_st():
    return st.one_of(st.sampled_from(BAD), st.text("htpfile:/[]@.#?%-a1 ", min_size=1, max_size=20).filter(lambda s: not s.strip("/. ") == "" and not s.strip().startswith("/"))).map(
        lambda u: {"url": u if u in BAD or u.split(":")[0] in ("http", "ftp", "foo") else "nosuch-" + u})


PATHS = st.one_of(
    st.sampled_from(["i.img", "dir/i.img", "my image.img", "it's.img", 'a"b.img', "$(touch PWNED).img", "`touch PWNED`", "a;touch PWNED", "a|b", "a&b", "*.img", "~root", "-n", "a\\b", "$HOME", "ü.img", "a%20b", "x=y",
                     "(a)", "{a,b}", "!x", "a  b", "a:b", "<x>", "tab"]),
    st.text("ab '\"\\$;&|()*~-.é%:=", min_size=1, max_size=12).filter(lambda s: s.strip("./") != "" and s == s.strip() and s not in (".", "..")))


def run_ssh(spec):
    d = util.scratch("ext")
    data = content({"seed": spec["seed"]}, spec["n"])
    home = os.path.join(d, "home")
    os.mkdir(home)
    form = spec["form"]
    rel = spec["path"]
    if form == "relative":
        # "user@host:path/to/image" of the manual: relative to the home directory
        rel = "rel-" + rel.replace(":", "").replace("@", "").replace("/", "") + "/" + rel
    elif form == "bare":
        # (what looks like a port number is not claimed)
        rel = "".join(c for c in rel if c not in ":@/")
        rel = rel + "f" if rel.isdigit() or not rel.strip(".") else rel
    full = os.path.join(home, rel)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    what = spec["what"]
    if what == "dir":
        os.makedirs(full)
    elif what != "missing":
        with open(full, "wb") as f:
            f.write(data)
    # A decoy: what an unquoted path might hit
    with open(os.path.join(home, "decoy.img"), "wb") as f:
        f.write(b"decoy")
    cred = ""
    if spec["user"]:
        cred = spec["user"] + (":" + spec["pw"] if spec["pw"] else "") + "@"
    url = "ssh://" + cred + spec["host"] + {"absolute": full, "colon": ":" + full, "relative": ":" + rel, "bare": ":" + rel}[form]
    if what == "option":
        # A host (or user) which the ssh client would take for an option
        url = "ssh://" + (spec["opt"] + "@" + spec["host"] if spec["user"] else cred + spec["opt"]) + full
    gone = []
    if what == "nossh":
        gone = ["ssh"]
    elif what == "nosshpass":
        gone = ["sshpass"]
    bins = remote.bin_dir(remote.TOOLS, extra={n: s for n, s in remote.fake_ssh().items() if n not in gone})
    env = {"SSH_LOG": os.path.join(d, "ssh.log"), "SSH_HOME": home, "PATH": bins, "SSH_PLAN": os.path.join(d, "plan"), "HOME": home}
    plan = {}
    if what == "refuse":
        plan["refuse"] = spec["code"]
    elif what == "sshpass":
        plan["sshpass"] = 5
    with open(env["SSH_PLAN"], "w") as f:
        json.dump(plan, f)
    with remote.path_env(**env):
        got, exc = fetch(url)
    log = remote.ssh_log(env["SSH_LOG"])
    files = sorted(os.listdir(home))
    check("PWNED" not in files or rel == "PWNED", "the path was executed by the remote shell")
    password = spec["pw"] if spec["user"] and spec["pw"] else None
    for entry in log:
        if entry["tool"] == "ssh" and what == "option":
            check(not [o for o in entry["opts"] if o.lower() == spec["opt"].lower()], "ssh was called with the option %s", spec["opt"])
        elif entry["tool"] == "ssh":
            want = (spec["user"] + "@" if spec["user"] else "") + spec["host"].lower()
            check(entry["host"].lower() == want.lower(), "ssh was asked for %r, not %r", entry["host"], want)
            check(entry["pass"] == password, "the password was %r, not %r", entry["pass"], password)
    bad = what in ("missing", "dir", "refuse") or what == "nosshpass" and password or what == "sshpass" and password or what in ("nossh", "option")
    if bad:
        check(exc is not None, "%s: there was no error (but %d bytes)", what, len(got or b""))
        if what == "nossh" and not password:
            check("ssh" in str(exc), "the error is %s", exc)
        if what == "nosshpass":
            check("sshpass" in str(exc), "the error is %s", exc)
        if what == "sshpass":
            check("password" in str(exc), "the error is %s", exc)
        return Info(True, "error: %s" % what)
    check(exc is None, "%r: %s", url, exc)
    check_same(got, data, "the image", 4096)
    return Info(True, "fetched", form, "password" if password else "no password")


def ssh_st():
    return st.fixed_dictionaries({
        "path": PATHS, "form": st.sampled_from(["absolute", "colon", "relative", "bare"]), "opt": st.sampled_from(["-oProxyCommand=touch", "-v", "-lroot", "-", "--", "-F"]), "user": gen.weighted((1, st.just("")), (2, NAMES)), "pw": gen.weighted((1, st.just("")), (1, WORDS)),
        "host": st.sampled_from(["host", "my.server.org", "10.0.0.1", "h-1"]), "seed": gen.ints(0, 20), "n": st.one_of(gen.ints(1, 5000), gen.ints(1, 300000)),
        "what": gen.weighted((5, st.just("ok")), (3, st.sampled_from(["missing", "dir", "refuse", "nossh", "nosshpass", "sshpass", "option"]))), "code": st.sampled_from([1, 2, 255])})


def run_slow(spec):
    d = util.scratch("ext")
    data = content({"seed": spec["seed"]}, spec["n"])
    src = remote.Source(spec["source"], d, "image.img", data, route={"delay": spec["delay"]})
    with remote.path_env(HOME=d, **src.env):
        got, exc = fetch(src.url)
    check(exc is None, "the server is slow, but it has the image: %s", exc)
    check_same(got, data, "the image", 4096)
    return Info(True, "fetched slowly", spec["source"], "slow to reply" if spec["delay"][0] else "a pause in the data")


def slow_st():
    return st.fixed_dictionaries({"source": st.sampled_from(["http", "http-chunked", "https", "ftp"]), "seed": gen.ints(0, 20), "n": gen.ints(2, 300000),
                                  "delay": st.sampled_from([[10.5, 0], [0, 10.5], [11, 11], [1, 3]])})


SLOW = [{"source": s, "seed": 1, "n": 50000, "delay": w} for w in ([10.6, 0], [0, 10.6]) for s in ("http", "https", "ftp")]


PROPERTY = Property(
    "T05",
    "HTTP and HTTPS URLs of all shapes against a server (with good certificates, expired ones, ones for another host, ones of an unknown authority) which records requests and asks for credentials, redirects, refuses, or talks nonsense; credentials in the URL and in netrc files of several shapes; "
    "FTP URLs against a server which records logins and paths and refuses some; proxies named by the environment; names which are no URLs; ssh URLs (absolute paths, paths after a colon) with users, passwords and paths full of shell syntax against a stand-in for the ssh client which records how it is "
    "called and runs the commands in a shell. Every case is non-trivial.",
    [Facet("http", http_st, run_http, quick=700, thorough=9000, shards=3),
     Facet("proxy", proxy_st, run_proxy, quick=150, thorough=1500, shards=1),
     Facet("ftp", ftp_st, run_ftp, quick=250, thorough=3000, shards=2),
     Facet("bad", bad_st, run_bad, quick=150, thorough=2000, shards=1, corner=[{"url": u} for u in BAD]),
     # (the waiting is for real: the interesting limit is at 10 seconds)
     Facet("slow", slow_st, run_slow, quick=0, thorough=24, shards=6, corner=SLOW),
     Facet("ssh", ssh_st, run_ssh, quick=300, thorough=4000, shards=3)],
    ["user names and passwords without characters which need escaping in a URL", "the ssh client behaves like the stand-in: it runs the words after the host in a shell"],
)
