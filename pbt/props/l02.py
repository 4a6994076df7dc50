"""L02: a bmap with a bad or untrusted signature is not used."""

import os

from hypothesis import strategies as st

from pbt import gen, gpgkeys, remote, util
from pbt.core import Facet, Info, Property
from pbt.util import build_bmap, check, fast_pattern

BS = 4096
BLOCKS = 12
DATA = fast_pattern(3, BLOCKS * BS - 77)
DOCS = {}
for _v in ("1.2", "2.0"):
    for _i in range(3):
        DOCS["%s-%d" % (_v, _i)] = build_bmap(_v, len(DATA), BS, [[0, 0], [2 + _i, 2 + _i]], DATA, style=1, checksums=_v != "1.2")


def result_of(doc):
    want = bytearray(len(DATA))
    for b in (0, 2 + int(doc[-1])):
        want[b * BS:(b + 1) * BS] = DATA[b * BS:(b + 1) * BS]
    return bytes(want)


def setup():
    gpgkeys.setup(DOCS)


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)


def spoil(sig, how, pos):
    if how == "trunc":
        return sig[:pos % len(sig)]
    if how == "flip":
        i = pos % len(sig)
        return sig[:i] + bytes([sig[i] ^ (1 << (pos // len(sig)) % 8)]) + sig[i + 1:]
    if how == "empty":
        return b""
    if how == "garbage":
        return fast_pattern(pos, 300)
    if how == "pubkey":
        return gpgkeys.STATE["pub"]["full"]
    if how == "twice":
        return sig + sig
    return sig


def run(spec):
    d = util.scratch("ext")
    put(os.path.join(d, "img"), DATA)
    doc = "%s-%d" % (spec["version"], spec["doc"])
    other = "%s-%d" % (spec["version"], (spec["doc"] + 1) % 3)
    signers = list(dict.fromkeys(spec["signers"]))
    trusted = all(s in gpgkeys.TRUSTED for s in signers)
    bmap = os.path.join(d, "img.bmap" if spec["find"] else "some.map")
    opts = [] if spec["find"] else ["--bmap", "some.map"]
    how, where, pos = spec["tamper"], spec["where"], spec["pos"]
    sure = None  # what has to happen if it is known without asking gpg
    sigpath = None
    used = doc  # the bmap described by the file
    if where == "clear":
        text = gpgkeys.clear(doc, signers, other if how in ("bmap", "swap") else None)
        if how in ("bmap", "swap"):
            used = other
        elif how == "prepend":
            text = [b"\n", b" ", b"<!-- -->\n", b"\xef\xbb\xbf"][pos % 4] + text
        elif how == "append":
            text += [b"extra\n", b"<!-- -->\n", DOCS[other], gpgkeys.clear(other, ["untrusted"])][pos % 4]
        elif how == "edit":
            lines = text.split(b"\n")
            i = pos % len(lines)
            lines[i] += [b" ", b"\t", b"x", b"<"][pos // len(lines) % 4]
            text = b"\n".join(lines)
        elif how in ("trunc", "flip"):
            text = spoil(text, how, pos)
        elif how != "none":
            how = "none"
        put(bmap, text)
    else:
        put(bmap, DOCS[other if how == "bmap" else doc])
        if how == "bmap":
            used = other
    if where in ("named", "asc", "sig"):
        sig = gpgkeys.detached(other if how == "swap" else doc, signers, spec["armor"])
        sig = spoil(sig, how, pos)
        if how in ("prepend", "append", "edit"):
            how = "none"
        sigpath = {"named": os.path.join(d, "the signature"), "asc": bmap + ".asc", "sig": bmap + ".sig"}[where]
        if how != "missing":
            put(sigpath, sig)
        if where == "named":
            opts += ["--bmap-sig", "the signature"] if not spec["nover"] else []
        if where == "asc" and spec["second"] and how != "missing":
            # Both exist: the second one is of the same quality
            put(bmap + ".sig", sig)
    if how == "none" and where != "none":
        sure = trusted
    if spec["nover"]:
        opts.append("--no-sig-verify")
    dst = os.path.join(d, "dst")
    # What the gpg command says
    plain = None
    if where == "none" or (how == "missing" and where in ("asc", "sig")):
        ok = True
    elif how == "missing" and where == "named":
        ok = False
    elif where == "clear":
        ok, plain = gpgkeys.judge(bmap)
    else:
        ok, _ = gpgkeys.judge(sigpath, bmap)
    if sure is not None and sure != ok:
        raise RuntimeError("gpg says %s for %r" % (ok, spec))
    env = {"GNUPGHOME": gpgkeys.STATE["home"]}
    before = util.tree_state(d)
    if spec["remote"]:
        srv = remote.http()
        routes = {}
        for name in os.listdir(d):
            routes["/" + name.replace(" ", "%20")] = {"file": os.path.join(d, name)}
        srv.routes(routes)
        opts = [srv.url("/some.map") if o == "some.map" else srv.url("/the%20signature") if o == "the signature" else o for o in opts]
        image = srv.url("/img") if spec["find"] else "img"
    else:
        image = "img"

    def gpg_module():
        import sys

        if spec["nogpg"]:
            sys.modules["gpg"] = None
        elif spec["lenient"]:
            # As other versions of the module do, return the results of bad signatures instead of raising an exception
            import gpg

            real = gpg.Context.verify

            def verify(*args, **kwargs):
                try:
                    return real(*args, **kwargs)
                except gpg.errors.BadSignatures as exc:
                    return exc.results

            gpg.Context.verify = verify

    res = util.run_cli(["copy"] + opts + [image, "dst"], d, env=env, child_setup=gpg_module)
    got = b""
    if os.path.exists(dst):
        with open(dst, "rb") as f:
            got = f.read()
    after = util.tree_state(d)
    after.pop("dst", None)
    check(before == after, "files were changed")
    if where == "clear" and not text.startswith(b"-----BEGIN PGP SIGNED MESSAGE-----"):
        # Neither a bmap nor a signed one
        expect = False
    elif where == "clear":
        good = plain in (DOCS[doc], DOCS[other])
        if good:
            used = doc if plain == DOCS[doc] else other
        if spec["nogpg"]:
            expect = False
        elif spec["nover"]:
            # How much of a damaged message can be extracted is up to gpg
            expect = True if good and how in ("none", "bmap", "swap") else None
        else:
            expect = ok and good
            if ok is not False and not good:
                expect = None  # e.g. white space at line ends is not signed
    elif spec["nover"]:
        expect = True
    elif spec["nogpg"]:
        expect = where == "none" or (how == "missing" and where != "named")
    else:
        expect = ok
    if expect is None:
        if res.code == 0 and plain is not None and got not in (result_of(doc), result_of(other)):
            check(False, "success, but the destination is not what the bmap describes")
    elif expect:
        check(res.code == 0, "%s: the copy failed: %r", "signature checking is off" if spec["nover"] else "all is well", res)
        check(got == result_of(used), "the destination is not what the bmap describes")
    else:
        check(res.code > 0, "the signature is bad (%s, %s, %r), but: %r", where, how, signers, res)
        check(not got, "the signature is bad, but %d bytes were written", len(got))
    labels = ["%s %s" % (where, how), "%s signature" % ("untrusted" if not trusted else "trusted"), "checking %s" % ("off" if spec["nover"] else "on"),
              "accepted" if res.code == 0 else "refused"]
    if spec["remote"]:
        labels.append("remote")
    if spec["nogpg"]:
        labels.append("no gpg module")
    return Info(where != "none", *labels)


def strategy():
    trusted = st.sampled_from(gpgkeys.TRUSTED)
    anyone = st.sampled_from(gpgkeys.KEYS)
    signers = gen.weighted((4, st.lists(trusted, min_size=1, max_size=2)), (3, st.lists(anyone, min_size=1, max_size=1)), (2, st.lists(anyone, min_size=2, max_size=3)),
                           (1, st.tuples(trusted, anyone).map(list)), (1, st.tuples(anyone, trusted).map(list)))
    return st.fixed_dictionaries({
        "where": gen.weighted((3, st.just("clear")), (2, st.just("named")), (2, st.just("asc")), (2, st.just("sig")), (1, st.just("none"))),
        "version": st.sampled_from(["1.2", "2.0"]), "doc": gen.ints(0, 2), "signers": signers, "armor": st.booleans(), "find": st.booleans(),
        "tamper": gen.weighted((5, st.just("none")), (3, st.sampled_from(["bmap", "swap"])), (2, st.sampled_from(["trunc", "flip"])),
                               (2, st.sampled_from(["prepend", "append", "edit"])), (2, st.sampled_from(["empty", "garbage", "missing", "pubkey", "twice"]))),
        "pos": gen.ints(0, 20000), "nover": gen.weighted((4, st.just(False)), (1, st.just(True))), "second": st.booleans(),
        "remote": gen.weighted((5, st.just(False)), (1, st.just(True))), "nogpg": gen.weighted((12, st.just(False)), (1, st.just(True))),
        "lenient": gen.weighted((3, st.just(False)), (1, st.just(True)))})


def base(**kw):
    spec = {"where": "named", "version": "1.2", "doc": 0, "signers": ["good"], "armor": False, "find": False, "tamper": "none", "pos": 0, "nover": False, "second": False,
            "remote": False, "nogpg": False, "lenient": False}
    spec.update(kw)
    return spec


CORNER = [base(where=w, signers=s, tamper=t) for w in ("named", "asc", "sig", "clear") for s, t in (
    (["good"], "none"), (["full"], "none"), (["good", "full"], "none"), (["untrusted"], "none"), (["unknown"], "none"), (["expkey"], "none"), (["expsig"], "none"),
    (["revoked"], "none"), (["good", "untrusted"], "none"), (["untrusted", "good"], "none"), (["good"], "bmap"), (["good"], "swap"), (["good", "unknown"], "none"))]
CORNER += [dict(c, lenient=True) for c in CORNER if len(c["signers"]) == 1]

PROPERTY = Property(
    "L02",
    "Every key state (own, certified, uncertified, unknown, expired, expired signature, revoked) and combinations of up to three signers x named, discovered and clear-signed "
    "signatures, armored or not x tampering with bmap or signature (replaced by a valid other one, truncated, bit flips, edits around and inside) x checking on/off x local/remote x "
    "gpg module missing; the bmaps have no checksum of their own in half of the cases so that only the signature protects them. Non-trivial: there is a signature.",
    [Facet("sig", strategy, run, quick=1000, thorough=16000, shards=6, corner=CORNER, setup=setup, noise="vpn")],
    assumptions=["the verdict of the gpg command (GOODSIG, VALIDSIG and full or ultimate trust for every signature, exit status 0) defines 'valid and from a trusted key'; for undamaged "
                 "signatures it is cross-checked against the state of the key"],
)
