_PBT = "property-based testing (Hypothesis): "
_STD = "Bounded search over generated cases, deterministic in VERIF_SEED; a pass means no counterexample among them, not absence. "
NOTES = {
    "C01": (_PBT + "random sparse-file histories against the harness's own record of data and never-allocated holes", _STD + "Trusts the scratch file systems to report holes truthfully; ext4 (extent map and, with the ioctl masked, hole seeking) and tmpfs."),
    "C02": (_PBT + "generated bmaps re-read by an independent parser and re-hashed", _STD + "Trusts hashlib and ElementTree."),
    "C03": (_PBT + "metamorphic comparison of creations through different channels, before/after state of the image", _STD + "Access times are ignored."),
    "C04": (_PBT + "partition and agreement laws over random windows, plus a model of the file layout", _STD + "Windows inside the file; block sizes other than 4096 are simulated at the system-call level."),
    "K01": (_PBT + "copies compared with a reference copy, all raw writes recorded and bounded by the listed blocks", _STD + "Trusts the recorder below the file object."),
    "K02": (_PBT + "copies without bmap compared with the image over sizes, sources and destinations", _STD),
    "K03": (_PBT + "create/copy round trip over sparse images, contents and kernel-reported holes compared", _STD + "Trusts the kernel's hole report."),
    "K04": (_PBT + "differential verdict: the reference compares the listed ranges of two images", _STD),
    "K05": (_PBT + "mutation of self-checksummed bmaps, with sweeps over every byte offset of small files; rejection without writes expected", _STD + "Small files are swept byte by byte; larger ones sampled."),
    "K06": (_PBT + "one injected fault per bmap or image, and bmaps mutated as trees and as bytes, error class and outcome compared with the statement and an independent reader", _STD),
    "K07": ("fault injection at every operation of generated copies, driven by property-based generation", "For each generated copy all operations up to 12 per kind (spread ones beyond) are failed one at a time; the copies themselves are sampled."),
    "K08": ("property-based testing with recorded destinations: contents photographed at every synchronization, compared with the final contents", "Every synchronization of every generated copy is examined; the copies are sampled. Trusts fsync()."),
    "K09": (_PBT + "generated stall schedules of source and destination, read-ahead measured at each read", _STD + "Schedules are forced at the transfer level; interleavings inside the queue primitives are left to the run."),
    "K10": (_PBT + "every progress value compared with the recorded writes; geometry compared with the bmap", _STD),
    "B01": (_PBT + "copies to a stand-in block device with recorded opens, writes and synchronizations", _STD + "The stand-in is a file that claims to be a block device; no real device is available."),
    "B02": (_PBT + "copies to a stand-in device with kernel-like tunables and injected faults, final values compared with initial ones", _STD + "As B01."),
    "T01": (_PBT + "compress with other implementations, read back through every kind of source", _STD + "ssh is a stand-in."),
    "T02": (_PBT + "operation sequences against a model file", _STD),
    "T03": (_PBT + "cut and corrupted sources; differential against a separate run of the decompressor", _STD),
    "T04": (_PBT + "processes, threads and descriptors compared before and after closing readers in generated states", _STD + "Processes get a grace time to vanish."),
    "T05": (_PBT + "requests recorded by local HTTP, HTTPS and FTP servers and stand-ins for ssh/sshpass compared with a model of URL and credentials", _STD + "Loopback only; no real ssh."),
    "L01": (_PBT + "model of the bmap discovery; every bmap lists different blocks so that the copy identifies it", _STD),
    "L02": (_PBT + "generated signatures and tampering; differential against the gpg command and the known state of the keys", _STD + "Trusts gpg."),
    "L03": (_PBT + "model of the command line's outcome over states of inputs, options and process-level faults", _STD),
    "L04": (_PBT + "standard output and messages compared with a model of what was asked for and what happened", _STD + "Exact wording is not judged."),
    "L05": (_PBT + "histories of commands, cut short at chosen calls, against the outcome of each command on its own", _STD + "Commands are cut at Python calls of the main thread; the device is a stand-in."),
    "H01": (_PBT + "exact rational arithmetic over boundary-biased sizes and durations", _STD),
    "H02": (_PBT + "model of the decision over generated df reports and parameter files", _STD + "df is a stand-in; a ZFS is not available."),
    "X01": (_PBT + "differential: script against reference copy and the main tool", _STD),
}
