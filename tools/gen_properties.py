#!/usr/bin/env python3
"""Writes ../properties.jsonl (one place to edit the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


CR, CP, FM, TR, CL, HL = ("bmaptools/BmapCreate.py", "bmaptools/BmapCopy.py", "bmaptools/Filemap.py",
                          "bmaptools/TransRead.py", "bmaptools/CLI.py", "bmaptools/BmapHelpers.py")

prop("C01", "A generated block map covers all data and no never-allocated hole",
     "Every block of the image that holds a non-zero byte is inside a range of the block map generated for it, and no block that was never allocated and has stayed a hole is listed, however the file is laid out, whatever the block size, whichever hole-detection method (extent map or hole/data seeking) the file system offers, and even if data are still in the buffer of the open file object given. Blocks allocated but never written may be listed or not.",
     ["inputs", "configurations"],
     "all sparse layouts (image size aligned or not, any number of extents incl. more than one extent-map call returns, huge sparse files, data still dirty in the page cache or in the buffer of the file object, block sizes other than the granularity of holes, preallocated and hole-punched areas, data at the very end) x file systems with and without the extent-map ioctl",
     "The API test compares with its own random mapped list on one file system with few extents; it never reaches several extent-map calls, preallocation, punched holes, or unaligned tails on both methods.",
     [CR, FM], [("FIEMAP walk and merge", FM), ("SEEK_DATA/SEEK_HOLE walk", FM), ("range emission", CR)],
     observe=["BlockMap ranges of the generated file"])
prop("C02", "A generated bmap describes itself and the image consistently",
     "A generated bmap file is well-formed, declares format 2.0, and its image size, block size, block counts and human-readable remarks agree with the image and with the listed ranges, which are ascending, disjoint, non-adjacent (but for storage which was allocated and never written) and inside the image. Its own checksum matches its contents with the checksum field zeroed, and each range carries the checksum of exactly the image bytes it covers, in the requested hash type, or none at all when range checksums are disabled.",
     ["inputs", "configurations"],
     "all images x hash types the hash library offers x checksums on/off x ways of passing image and output (path, file object, command line)",
     "Tests feed the generated file only to this package's own reader; a writer/reader pair that agrees on a wrong convention, or a mistake limited to partial last blocks, other hash types or comment fields, is invisible to them.",
     [CR], [("header template and back-patching of counts and checksum", CR), ("range checksum", CR)],
     observe=["text of the generated bmap file", "attributes of the creator object"])
prop("C03", "Creating a bmap changes nothing but the bmap and is repeatable",
     "Generating a block map leaves the image's bytes, size, modification time and caller-visible file position unchanged and leaves no other file behind. The bmap text depends only on the image: every way of asking for it (path, open file, command-line output file or standard output, image replicated in another place with the same layout) yields the same bytes.",
     ["inputs", "histories"],
     "all images x output channels x positions of the caller's file object x both hole-detection methods",
     "No test looks at the image or its directory after creation or compares two output channels.",
     [CR, FM, CL], [("file position save/restore", CR), ("temporary probe file", FM), ("output stream selection", CL)],
     observe=["image file and directory before/after", "bmap bytes"])
prop("C04", "Mapped and unmapped queries partition any window exactly and agree",
     "For any window of blocks inside a file, the mapped ranges and the unmapped ranges reported for the window are ascending, within the window, and together cover every block of it exactly once. Each agrees with the per-block mapped/unmapped answers, with the answers for any other window, and with where data was written, also when several queries are under way at the same time.",
     ["inputs", "configurations"],
     "all file layouts x all windows (start, count), incl. windows that start or end inside an extent or a hole, one-block windows, and windows ending at an unaligned end of file x both hole-detection methods",
     "The file-map test samples a few windows over small random files and skips what the host does not support; boundaries inside extents and multi-call extent walks are left to chance.",
     [FM], [("window clipping in the extent walk", FM), ("seek-based range walk", FM), ("range merging and inversion", FM)],
     observe=["ranges yielded", "per-block answers"])

prop("K01", "Copying with a bmap reproduces mapped blocks and touches nothing else",
     "After a successful copy with a bmap of any supported format version, every listed block in the destination equals the image's block, a regular destination has exactly the image's size, and no byte outside the listed blocks was written (new files read zero there, devices keep what they had). This holds for any block size, range layout, batch boundary and image size, whether or not data remains after the last listed block.",
     ["inputs", "configurations"],
     "all range lists (single blocks, adjacent, touching the end, longer than one transfer batch, beyond 4 GiB) x block sizes from 1 byte to several MiB x format versions 1.0-1.4 and 2.0 x destination kinds (new file, existing longer/shorter file, device)",
     "Tests copy with block size 4096 only and compare whole files that were zero in the holes, so writes outside the listed blocks, other block sizes and most batch boundaries are not observed.",
     [CP], [("range parsing and batching", CP), ("destination seek/write and truncation", CP)],
     observe=["destination bytes", "recorded writes"])
prop("K02", "Copying without a bmap produces an identical file",
     "When no bmap is used, a successful copy makes the destination byte-identical to the (uncompressed) image, whether or not the size is known in advance and whatever the destination held before.",
     ["inputs", "configurations"],
     "all image sizes (empty, below a block, around batch boundaries) x declared/undeclared size x image objects that return data from files, pipes or decompressors x old destination contents",
     "One test copies without bmap for a handful of images; sizes around block and batch boundaries with unknown length are not enumerated.",
     [CP, CL], [("endless range generator for unknown size", CP), ("final size setting", CP)],
     observe=["destination bytes and size", "reported geometry"])
prop("K03", "Create then copy round-trips an image and keeps it sparse",
     "Generating a bmap for an image and copying the image (plain or compressed, from a file or a stream) with it yields a file equal to the image byte for byte, with verification succeeding, and the destination allocates no storage for the image's holes.",
     ["inputs", "configurations"],
     "all sparse images x file systems x compression formats x image source kinds",
     "The end-to-end test covers a fixed set of image shapes on one file system and does not look at destination allocation.",
     [CR, CP, TR, FM], [("bmap generation", CR), ("bmap-driven copy", CP), ("forward-only reading", TR)],
     observe=["destination bytes", "destination extents"])
prop("K04", "A mapped range whose data does not match its checksum fails the copy",
     "If the bytes of any listed range that carries a checksum differ from what the checksum was computed over, the copy fails with an error and never reports success. Differences outside the listed ranges are not reported, ranges without a checksum are not verified, and with verification switched off such a copy succeeds and copies the data as it is.",
     ["inputs", "configurations"],
     "all bmaps with range checksums (formats 1.0-1.4, 2.0, every hash type) x all corrupted positions (first/last byte of a range, inside any batch, partial last block) x verification on/off",
     "No test corrupts image data; verification could be disabled for some formats, hash types, batches or ranges without any test noticing.",
     [CP, CL], [("range hash accumulation across batches", CP), ("comparison at range end", CP), ("format-dependent attribute names", CP)],
     observe=["outcome of the copy", "exit status"])
prop("K05", "Any alteration of a self-checksummed bmap is rejected before writing",
     "A bmap file of a format that carries its own checksum (1.3, 1.4, 2.0) that was altered in any byte, truncated or extended is rejected with an error before any data is written to the destination. Only an alteration that makes the file declare an older format, which has no such checksum, is exempt.",
     ["inputs"],
     "all generated bmaps x all single and multiple byte edits, insertions, deletions, truncations, extensions, wherever they fall (counts, ranges, checksum values, comments, whitespace)",
     "No test alters a bmap file; which bytes the self-checksum covers is not observed anywhere.",
     [CP], [("self-checksum verification", CP), ("bmap parsing", CP)],
     observe=["outcome of opening the bmap", "destination writes"])
prop("K06", "A bmap that is unsupported, malformed or foreign is never a success",
     "A bmap that is not well-formed, declares a newer major format than supported, names an unknown hash, has contradictory geometry, a reversed range, a mapped count that disagrees with its ranges, or an image size that disagrees with a declared or actual too-short image makes the operation fail with the package's own error that says why; a missing or meaningless field and a range outside the image do the same. Whatever bytes a bmap file consists of, the copy either does what they say or fails with an own error (and the tool with exit status 1 and a message): it neither reports a success which is none, nor crashes or hangs.",
     ["inputs"],
     "all mutations of valid bmaps at XML-tree level and at byte level, all format version numbers, all mismatching image sizes, given as plain files or through the command line",
     "Tests only use valid bmaps; error paths are never executed (several of them crashed with unrelated exceptions).",
     [CP, CL], [("bmap parsing and consistency checks", CP), ("final written-blocks check", CP)],
     observe=["exception class and message", "exit status"])
prop("K07", "No I/O failure during a copy is ever reported as success",
     "If reading the image, or seeking, writing, resizing, flushing or synchronizing the destination fails at any point of a copy, the copy fails with an error naming the problem; it neither reports success nor hangs.",
     ["fault_sequences", "inputs"],
     "every operation index at which a fault can hit x kind of fault (error, short/early end of data) x bmap/no bmap x file/device destination x sync on/off",
     "No test injects a fault.",
     [CP], [("reader thread passing errors through the queue", CP), ("error conversion around write/truncate/flush/sync", CP)],
     observe=["outcome of the copy"])
prop("K08", "A synchronized copy is durable when it reports success",
     "When a copy that was asked to synchronize (or a later explicit synchronization, or a successful command-line copy) reports success, everything written to the destination, including its final size, was handed to the operating system before the last synchronization request on that file. Destinations that cannot be synchronized by nature (the null device) do not make it fail.",
     ["crash_points", "histories", "inputs"],
     "all copies (bmap or not, file or device, known or unknown size) x sync in the copy call, afterwards, or through the command line",
     "Without crashing the machine, data that was not synchronized looks identical to data that was; tests compare through the page cache.",
     [CP, CL], [("flush then fsync at the end of copy", CP), ("explicit sync after copy", CL)],
     observe=["order of write/truncate/fsync calls on the destination"])
prop("K09", "Read-ahead is bounded and reader/writer speed never changes the result",
     "During a copy, the data read from the image but not yet written to the destination never exceeds a fixed bound of a few transfer batches (16 MiB for usual block sizes), and the result is the same whatever the relative speed of the image source and the destination. The operation ends in every such schedule.",
     ["schedules", "inputs"],
     "all interleavings of reader and writer progress: slow reader, slow writer, alternating stalls, failures of either side at any point, images much larger than the bound",
     "Tests run at disk speed with small images; back-pressure never engages.",
     [CP], [("bounded batch queue between reader and writer threads", CP)],
     state=[("batch queue", "batches read but not yet written", CP)],
     observe=["bytes read minus bytes written at every step", "final destination"])
prop("K10", "Progress and reported geometry are truthful",
     "Progress percentages shown on the console or sent to the splash pipe never decrease, stay within 0-100, equal the share of mapped blocks written so far rounded down, and end at 100 on success. The reported image geometry (sizes, counts, percentage) matches the bmap or the image, and a missing, closed or full splash pipe or non-pipe never disturbs the copy.",
     ["inputs", "configurations"],
     "all copies x progress output on/off, format strings, known/unknown size x splash path states (missing, regular file, pipe without reader, with reader, reader that leaves)",
     "No test enables progress output or the splash pipe.",
     [CP], [("progress update", CP), ("best-effort splash pipe write", CP)],
     observe=["progress stream", "splash pipe contents", "copier attributes"])

prop("B01", "Writing to a block device is guarded, exclusive and bounded",
     "Copying to a block device opens it exclusively, refuses before writing anything if the known image size exceeds its capacity, never resizes it, and only writes the listed blocks. While it runs, the amount written since the last synchronization never exceeds a few MiB plus one batch.",
     ["inputs", "configurations", "histories"],
     "all device capacities around the image size x bmaps x block sizes x devices that are busy or unopenable x direct and command-line use",
     "No test writes to a block device (it needs privileges); the whole specialised path is unexecuted.",
     [CP, CL], [("capacity check", CP), ("exclusive open", CL), ("periodic synchronization watermark", CP)],
     observe=["open flags", "writes, truncations and fsyncs on the device"])
prop("B02", "Device tuning is always undone and never gets in the way",
     "While copying to a block device the I/O scheduler and the write-buffering limit of the whole disk are set to the optimized values, and when the copy ends, in success or failure, they read what they read before. If they cannot be read or set, the copy goes on, says which one failed and why, and leaves the other one tuned and restored. A value that is already right is not written, and failing to put an old value back is an error.",
     ["histories", "fault_sequences", "configurations"],
     "all initial values (plain value or list with the active one in brackets, already tuned) x whole disk/partition x absent/unreadable/unwritable tunables x copy outcomes (success, read fault, write fault)",
     "No test reaches the tuning code.",
     [CP], [("temporary sysfs change context", CP)],
     observe=["writes to the tunables in order", "log messages", "final values"])

prop("T01", "Any supported image yields its uncompressed bytes, wherever it comes from",
     "Reading an image through the transparent reader yields exactly the bytes that were compressed or archived, for every documented file-name extension and for plain files, whether the image is a local file, a URL (http, https, ftp, file, ssh) or standard input, and with any of the interchangeable decompressor programs. Unknown extensions are read as they are. If no program for the format is installed, opening the image fails and names the program.",
     ["inputs", "configurations"],
     "all contents and sizes x all documented extensions x sources (path, file URL, HTTP and HTTPS with length/chunked, FTP, standard input, ssh) x read sizes x installed decompressor sets",
     "Tests compress one image per format with a command-line tool from a local path; URLs, standard input, alternative tools and read-size patterns are not covered.",
     [TR], [("extension detection and decompressor choice", TR), ("reader thread feeding the decompressor", TR)],
     observe=["bytes returned"])
prop("T02", "The transparent reader behaves like a forward-only file",
     "For any sequence of read, forward seek and position queries, the reader returns the bytes and positions that the same sequence on the uncompressed contents would, regardless of the source; seeking past the end stops at the end for streams. Seeking backwards or with an unsupported origin on a stream is an error and never yields wrong data.",
     ["histories", "inputs"],
     "all sequences of read(n), read(), seek(absolute/relative), tell over all source kinds",
     "Tests only copy from start to end; position bookkeeping of emulated seeking is never compared with a model.",
     [TR], [("emulated forward seek", TR), ("position counter", TR)],
     state=[("position", "offset in the uncompressed contents", TR)],
     observe=["returned data and positions"])
prop("T03", "A damaged or cut-short source is an error, not a shorter image",
     "If a compressed image is truncated or corrupted so that its decompressor rejects it, if the decompressor or the ssh client fails or is killed, or a download ends before the announced length, reading the image to its end raises an error and a copy of it fails, with or without a bmap that needs the missing part; bytes delivered before the error are a prefix of the right ones when the source was only cut short.",
     ["inputs", "fault_sequences"],
     "all truncation points and corruptions of every format x local/URL x interrupted downloads at any byte x bmap/no bmap",
     "No test damages a compressed file or interrupts a download.",
     [TR, CP, CL], [("decompressor exit status at end of data", TR), ("download length check", TR)],
     observe=["exception or exit status", "delivered bytes"])
prop("T04", "Closing the reader releases everything it started",
     "After the transparent reader is closed or discarded at any point of reading, no child process, thread or open file descriptor that it created remains, and closing never blocks or fails.",
     ["histories", "configurations"],
     "all source kinds and formats x amount read before closing (nothing, part, all, after an error) x close/close twice/garbage collection",
     "Tests never look at processes, threads or descriptors after closing, nor close early.",
     [TR], [("destructor/close", TR), ("reader thread termination", TR)],
     observe=["child processes, threads, descriptors of the process"])
prop("T05", "Remote images are fetched as asked, with the right credentials",
     "For a URL the reader requests exactly that resource, through the proxy if the environment names one for it, sends user name and password taken from the URL or, failing that, from the user's netrc file (HTTP) and only when the server asks for them (FTP: logs in as the user in the URL, or anonymously), and shows refusals, missing resources, unreachable hosts and servers without a valid certificate (https) as the package's own error. For ssh URLs the named remote file is streamed through the ssh client (with the password helper when a password is given), whatever characters its path contains (other than those which end the path of a URL), and nothing in the URL is taken for an option or a command. A server which has the image but is slow to answer or pauses is waited for.",
     ["inputs", "configurations"],
     "all URL shapes (http, https and ftp, ports, queries, long paths, credentials) x netrc contents x server behaviours (auth, status codes, resets, certificates) x ssh outcomes (refused, missing file, odd paths) x installed helper programs",
     "No test opens a URL.",
     [TR], [("URL opening and authentication", TR), ("ssh command construction", TR)],
     observe=["requests seen by the server", "commands seen by the ssh client", "errors"])

prop("L01", "The bmap used is the one asked for, or the right one next to the image",
     "A copy uses the bmap named by the user; otherwise the first existing one of image name plus .bmap, then the image name with its extensions removed one by one plus .bmap; with neither it refuses to copy unless told to go without one. A remote bmap is used in full whatever its size, and not at all if it does not arrive completely. Contradictory options, and giving the bmap as the image, are refused before anything is written.",
     ["configurations", "inputs"],
     "all image names (number of extensions, dots in directories, compressed names) x sets of bmap files present x option combinations",
     "Tests only pass matching explicit files; discovery order is not tested.",
     [CL], [("bmap discovery", CL), ("option checks", CL)],
     observe=["destination contents", "exit status"])
prop("L02", "A bmap with a bad or untrusted signature is not used",
     "If a signature accompanies the bmap (named by the user, found next to it, or wrapping it), the copy goes on only if the signature (each one, if there are several) is valid and from a trusted key and covers exactly the bmap used; otherwise it fails before writing any image data. With signature checking switched off, the bmap is used regardless of the signature.",
     ["inputs", "configurations"],
     "detached (named, .asc, .sig) and wrapping signatures x trusted/untrusted/unknown/expired keys x tampered bmap or signature, swapped signatures, several signatures x checking on/off",
     "The four stable tests only assert that four broken cases fail; that valid ones succeed and that tampering of any place is noticed is not established (the positive test fails because its key expired).",
     [CL], [("detached signature verification", CL), ("clearsign verification and extraction", CL), ("result evaluation", CL)],
     observe=["exit status", "destination contents"])
prop("L03", "The command-line tool's exit status tells the truth",
     "For any arguments and input files, the tool exits with zero only if the requested work was completely done (the destination equals what the image and bmap prescribe, or the bmap written is right), and otherwise exits non-zero with a message; it never exits zero after an error. The image and the bmap it was given are never modified, not even when they are named as the destination or output.",
     ["inputs", "configurations"],
     "all option combinations x image/bmap/destination states (missing, unreadable, directory, same file, mismatched, damaged) x verbosity x create/copy",
     "Tests call the command line for four signature failures only.",
     [CL], [("argument parsing and command dispatch", CL), ("error_out", CL)],
     observe=["exit status", "messages", "files"])
prop("L04", "What the tool prints is true, complete and in the right place",
     "Standard output carries nothing but the block map asked for (create without an output file), byte for byte what goes to an output file; all messages go to standard error. With --quiet a successful command prints nothing but warnings, with --debug it only prints more, neither changes the result, errors are printed in any case, and both together are refused before anything is touched. The messages name the image, bmap and destination used, and everyone whose signature was accepted (name, address, fingerprint) and nobody else; the time and speed told agree with the time that passed and the amount copied, even if the clock is set meanwhile. There is a warning if the destination is a path below /dev which is no device, or if the image mapped has no holes, and not otherwise.",
     ["inputs", "configurations"],
     "all commands x verbosity options x images with and without holes x bmaps found, given or absent x destinations inside and outside /dev under any name x signers",
     "No test looks at any output of the tool.",
     [CL], [("logger setup", CL), ("messages of the copy and create commands", CL), ("report of verified signatures", CL)],
     observe=["standard output", "standard error"])

prop("L05", "A command's outcome does not depend on what ran before it",
     "What a command does depends on its arguments and on what the files they name hold when it starts, and on nothing else: after any history of commands, including ones that failed, were interrupted or killed at any point, and of changes to the files, creating a bmap or repeating a copy ends as it would on its own, on a device as well as on a file. No command, however it ends, changes any file but its output or any block of a device but the listed ones, and one that ends by itself leaves no temporary file behind.",
     ["histories", "crash points"],
     "all sequences of creations and copies over shared images, bmaps and destinations x kill, termination and interrupt at any point x changes between them",
     "Tests run single operations on fresh files, and none is ever interrupted.",
     [CL, CP, CR], [("command implementations", CL), ("copying", CP), ("bmap generation", CR)],
     observe=["files", "device contents", "exit status"])

prop("H01", "Sizes and times shown to the user are accurate",
     "The human-readable form of any size differs from the true size by at most the rounding of one decimal digit in the unit shown, using the largest fitting binary unit, and the human-readable form of any duration adds up to it within a tenth of a second.",
     ["inputs"],
     "all sizes from 0 to the EiB range and durations from 0 to weeks, in particular around unit boundaries",
     "No test calls these functions; unit boundaries are never sampled.",
     [HL], [("size and time formatting", HL)],
     observe=["formatted strings"])
prop("H02", "Images on file systems that hide holes wrongly are refused",
     "A block map is generated only if the file system holding the image (after resolving links) is not ZFS, or ZFS is set up to report holes of unsynchronized files; otherwise, or when this cannot be found out, creation fails with an error. All other file-system types are accepted.",
     ["inputs", "configurations"],
     "all file-system type names and layouts of the df report x states of the ZFS parameter (absent, 0, 1, garbage, unreadable) x direct and symlinked images",
     "Tests replace the type lookup by a stand-in that returns a different kind of value than the real one, so the real guard was never exercised (it never triggered).",
     [HL, FM], [("file-system type lookup", HL), ("compatibility decision", HL), ("guard in the file-map constructor", FM)],
     observe=["success or error of creation"])
prop("X01", "The standalone writer script copies the same blocks as the main tool",
     "For an uncompressed image and its bmap, the standalone script writes exactly the listed blocks, produces a file of the image's size whenever the bmap's listed blocks allow it, and agrees byte for byte with the main tool's copy; what it wrote is synchronized before it ends successfully, destinations whose size cannot be changed are written as well, and it fails on a missing image or bmap.",
     ["inputs"],
     "all valid bmaps (single-block and multi-block ranges, spacing, unaligned ends, any block size) and images",
     "No test runs the script.",
     ["contrib/bmap_write.py"], [("range parsing and copy loop", "contrib/bmap_write.py")],
     observe=["output file", "exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
