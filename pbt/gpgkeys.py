"""
Keys in every state that matters, and signatures of the bmaps made in advance;
everything lives in a keyring below the scratch directory of the worker.
"""

import base64
import os
import subprocess

from pbt import util

KEYS = ("good", "full", "untrusted", "unknown", "expkey", "expsig", "revoked")
TRUSTED = ("good", "full")
PAST = "20200101T000000"
STATE = {}


def gpg(home, *args, **kw):
    data = kw.get("data")
    cmd = ["gpg", "--homedir", home, "--batch", "--yes", "--no-tty", "--quiet"] + list(args)
    proc = subprocess.run(cmd, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=False, timeout=60,
                          stdin=subprocess.DEVNULL if data is None else None)
    if kw.get("check", True) and proc.returncode != 0:
        raise RuntimeError("gpg %r failed: %s" % (args, proc.stderr.decode(errors="replace")))
    return proc


def make(home, name, *extra, expire="0"):
    gpg(home, "--passphrase", "", *extra, "--quick-gen-key", "The %s key <%s@example.com>" % (name, name), "ed25519", "sign", expire)


def setup(documents):
    """'documents': {name: bytes}. Makes the keyrings and all single signatures."""
    base = os.path.join(util._W["ext"], "gpg")
    os.mkdir(base)
    mine, other = os.path.join(base, "m"), os.path.join(base, "o")
    for h in (mine, other):
        os.mkdir(h, 0o700)
    try:
        make(mine, "good")
        for name in ("full", "untrusted", "unknown", "revoked"):
            make(other, name)
        make(other, "expkey", "--faked-system-time", PAST, expire="30d")
        make(other, "expsig", "--faked-system-time", PAST)
        sigs = {}
        for doc, data in documents.items():
            for key in KEYS:
                home = mine if key == "good" else other
                extra = []
                if key in ("expkey", "expsig"):
                    extra += ["--faked-system-time", PAST]
                if key == "expsig":
                    extra += ["--default-sig-expire", "10d"]
                extra += ["--digest-algo", "SHA512", "--local-user", "%s@example.com" % key]
                sigs[doc, key, "detached"] = gpg(home, *extra, "--detach-sign", data=data).stdout
                clear = gpg(home, *extra, "--clearsign", data=data).stdout
                head, _, armor = clear.partition(b"-----BEGIN PGP SIGNATURE-----\n")
                sigs[doc, key, "clear"] = dearmor(armor)
                sigs[doc, key, "head"] = head
        # Revoke after the fact
        fpr = [l.split(":")[9] for l in gpg(other, "--with-colons", "--fingerprint", "revoked@example.com").stdout.decode().splitlines() if l.startswith("fpr")][0]
        with open(os.path.join(other, "openpgp-revocs.d", fpr + ".rev"), "rb") as f:
            rev = f.read()
        gpg(other, "--import", data=rev[rev.index(b":-----BEGIN"):].replace(b":-----BEGIN", b"-----BEGIN", 1))
        pub = {}
        for name in KEYS[1:]:
            pub[name] = gpg(other, "--export", "%s@example.com" % name).stdout
            if name != "unknown":
                gpg(mine, "--import", data=pub[name])
        for name in ("full", "expkey", "expsig", "revoked"):
            fpr = [l.split(":")[9] for l in gpg(mine, "--with-colons", "--fingerprint", "%s@example.com" % name).stdout.decode().splitlines() if l.startswith("fpr")][0]
            gpg(mine, "--quick-lsign-key", fpr, check=name in ("full", "expsig"))
        gpg(mine, "--check-trustdb")
        STATE.update(home=mine, sigs=sigs, pub=pub, docs=documents)
    finally:
        for h in (mine, other):
            subprocess.run(["gpgconf", "--homedir", h, "--kill", "all"], check=False, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def dearmor(text):
    body = (b"\n" + text).split(b"\n\n", 1)[1].split(b"-----END")[0]
    return base64.b64decode(b"".join(l for l in body.splitlines() if not l.startswith(b"=")))


def armor(raw):
    crc = 0xB704CE
    for byte in raw:
        crc ^= byte << 16
        for _ in range(8):
            crc <<= 1
            if crc & 0x1000000:
                crc ^= 0x1864CFB
    b64 = base64.b64encode(raw)
    lines = [b64[i:i + 64] for i in range(0, len(b64), 64)]
    return (b"-----BEGIN PGP SIGNATURE-----\n\n" + b"\n".join(lines) + b"\n=" + base64.b64encode((crc & 0xFFFFFF).to_bytes(3, "big")) +
            b"\n-----END PGP SIGNATURE-----\n")


def detached(doc, signers, armored):
    raw = b"".join(STATE["sigs"][doc, s, "detached"] for s in signers)
    return armor(raw) if armored else raw


def clear(doc, signers, body_of=None):
    """The clear-signed document; with 'body_of' another document's text."""
    raw = b"".join(STATE["sigs"][doc, s, "clear"] for s in signers)
    return STATE["sigs"][body_of or doc, signers[0], "head"] + armor(raw)


def judge(sig, data=None):
    """What the gpg command says: (all signatures valid and trusted - None: debatable -, plaintext)."""
    args = ["--status-fd", "2"]
    if data is not None:
        proc = gpg(STATE["home"], *args, "--verify", sig, data, check=False)
    else:
        proc = gpg(STATE["home"], *args, "--output", "-", "--decrypt", sig, check=False)
    lines = [l.split()[1:] for l in proc.stderr.decode(errors="replace").splitlines() if l.startswith("[GNUPG:] ")]
    kinds = [l[0] for l in lines]
    total = kinds.count("NEWSIG")
    good = min(kinds.count("GOODSIG"), kinds.count("VALIDSIG"), kinds.count("TRUST_FULLY") + kinds.count("TRUST_ULTIMATE"))
    ok = proc.returncode == 0 and total > 0 and good == total
    if not ok and good > 0 and not set(kinds) & {"BADSIG", "ERRSIG", "EXPSIG", "EXPKEYSIG", "REVKEYSIG", "TRUST_UNDEFINED", "TRUST_NEVER", "TRUST_MARGINAL"}:
        # Something good followed by something which is no signature at all
        ok = None
    elif ok and set(kinds) & {"NODATA", "UNEXPECTED", "ERROR", "FAILURE"}:
        ok = None
    return ok, proc.stdout
