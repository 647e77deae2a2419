#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Session commands are accepted only in the documented order",
 "In every session the library vendor executable answers a command positively only where the protocol allows it: version negotiation first (a version below the supported minimum is refused and can be retried), then at most one tool-list request, then the library path exactly once, then any mix of feature, licence and file requests. "
 "A command that is out of order, or that only the executable may send, is answered with ERROR code 1 and has no effect: every later command is answered exactly as if it had not been sent.",
 ["histories"], "every sequence of well-formed commands, of every command word, up to a depth",
 "The repository's tests drive a handful of fixed, well-ordered sessions; the property quantifies over every order of every command word.",
 ["src/lve/mlle_lve.c", "src/lve/mlle_protocol_lve_state.c", "src/common/mlle_protocol.c"],
 [("receive loop and command dispatch", "src/lve/mlle_lve.c"), ("state transition table", "src/lve/mlle_protocol_lve_state.c")],
 "replies on the TLS channel of the library vendor executable")

prop("P02", "Every message gets exactly one well-formed reply, whatever its bytes",
 "For every message (of at most one TLS record) a connected peer sends, the executable sends exactly one reply whose header and declared length match the bytes that follow, in request order, and keeps serving. "
 "A malformed message (unknown command, wrong number of arguments, non-numeric or negative number, no data, fewer data bytes than declared, an empty library path) is answered with ERROR and leaves the session as it was. "
 "No message makes the executable crash, hang, or read or write outside its buffers.",
 ["inputs", "histories"], "every message over a grammar of headers, separators, numbers, length/data mismatches and sizes, in every session state",
 "Unit tests feed a few dozen hand-written strings to the tokenizer only; the running executable is never given a malformed or mis-sized message.",
 ["src/lve/mlle_lve.c", "src/common/mlle_parse_command.c", "src/common/mlle_utils.c", "src/common/mlle_io.c", "src/common/mlle_ssl.c"],
 [("tokenize and parse", "src/common/mlle_parse_command.c"), ("data extraction", "src/common/mlle_utils.c"), ("message read", "src/common/mlle_ssl.c")],
 "replies on the TLS channel; exit status; address/undefined-behaviour sanitizer")

prop("P03", "Only a tool holding a trusted key ever receives library content",
 "A peer that does not prove possession of the private key of one of the public keys embedded at build time - including a peer that presents no certificate - never receives a byte of any library file, encrypted or plain, in any session, and each of its file requests is answered with ERROR. "
 "A peer that proves possession of any one of the embedded keys, whatever its position in the list, is served.",
 ["histories", "configurations"], "every peer credential (each trusted key, near-miss keys, unknown key, non-RSA key, none) x every list of trusted keys up to a size x every command sequence up to a depth",
 "The tests connect with one tool key and one trusted key, in one order of commands; no test connects an unapproved peer and then varies what it asks.",
 ["src/lve/mlle_lve_pubkey.c", "src/lve/mlle_ssl_lve.c", "src/lve/mlle_lve_file.c", "src/common/mlle_ssl.c"],
 [("key capture in the TLS handshake", "src/lve/mlle_ssl_lve.c"), ("comparison with the embedded list", "src/lve/mlle_lve_pubkey.c"), ("gate in the file command", "src/lve/mlle_lve_file.c")],
 "replies on the TLS channel")

prop("P04", "A served file is byte-for-byte the original, for every library and order",
 "For every library whose Modelica files were encrypted with the provided encryption, a file request for an encrypted file returns exactly the bytes of the original source file, and a request for any other file in the library returns its stored bytes unchanged. "
 "The answer depends only on the library and the requested path, never on which files were requested before in the session.",
 ["inputs", "histories"], "every small library tree (which directories have a package file, empty and block-boundary sizes, nesting) x every encryption order the encryptor accepts x every request sequence up to a depth",
 "The tests serve one fixed three-level library in one order; key masks are inherited and cached per directory, so errors depend on tree shape and request history.",
 ["src/decryptors/default/src/mlle_cr_decrypt.c", "src/decryptors/default/src/mlle_cr_encrypt.c", "src/lve/mlle_lve_file.c", "src/common/mlle_io.c"],
 [("directory key masks and their cache", "src/decryptors/default/src/mlle_cr_decrypt.c"), ("mask generation", "src/decryptors/default/src/mlle_cr_encrypt.c")],
 "FILECONT replies on the TLS channel")

prop("P05", "A damaged encrypted file is refused and never yields content",
 "If an encrypted file, or the package file of a directory whose key it depends on, has been altered in any byte, truncated, extended, replaced by a file encrypted under another directory's key or by arbitrary bytes, then a request for it is answered with ERROR and returns no content at all. "
 "The failure affects nothing else: files that do not depend on the damaged one are still served intact in the same session, and the damaged one is refused however often it is requested.",
 ["inputs", "histories", "fault_sequences"], "every single-bit/byte change, every truncation and extension length, every swap between directories of a small library, followed by every short request sequence",
 "No test requests a damaged file.",
 ["src/decryptors/default/src/mlle_cr_decrypt.c", "src/lve/mlle_lve_file.c"],
 [("HMAC check over IV and plaintext", "src/decryptors/default/src/mlle_cr_decrypt.c"), ("error reply", "src/lve/mlle_lve_file.c")],
 "replies on the TLS channel")

prop("P06", "File requests cannot leave the library directory",
 "Whatever path a file request names, the executable returns only content of files inside the library directory given for the session; a path with a '..' element that would lead outside of it is answered with ERROR. "
 "Ordinary names, including those that merely contain dots, are served.",
 ["inputs"], "every path built from up to a bounded number of elements of a small element alphabet ('.', '..', names, empty, dotted names, absolute prefixes) with both separators, encrypted and plain targets",
 "The tests only request well-behaved relative paths.",
 ["src/lve/mlle_lve_file.c", "src/lve/mlle_lve_libpath.c"],
 [("path concatenation", "src/lve/mlle_lve_file.c")],
 "replies on the TLS channel")

prop("P07", "Licence answers are exactly the licence manager's decisions",
 "A feature request is answered YES if and only if the licence manager granted exactly the named feature for the session's library at that request, and NO with the manager's message otherwise; returning a feature is answered YES if and only if the manager accepted the return, and ERROR otherwise; if the manager cannot be set up the answer is ERROR and never YES. "
 "Every request is passed to the manager exactly once with the exact bytes of the name, in order, and a manager that was set up is released exactly once when the session ends, however it ends: closed by the tool, end of input, a broken message, or the tool ending without closing the connection or reading the reply.",
 ["histories", "fault_sequences"], "every sequence of feature, return, licence and file requests up to a depth x every assignment of the manager's answers (grant, deny, setup failure)",
 "The only licence manager in the tests always answers from one constant name; denial, setup failure and recovery afterwards are never combined.",
 ["src/lve/mlle_lve_feature.c", "src/lve/mlle_lve_license.c", "src/lve/mlle_lve.c"],
 [("checkout and checkin commands", "src/lve/mlle_lve_feature.c"), ("manager lifetime", "src/lve/mlle_lve.c")],
 "replies on the TLS channel; calls into the licence-manager interface")

prop("P08", "A vendor-wide licence that is refused locks the whole library",
 "In a build with a library-wide licence feature, giving the library path checks out that feature, and if the licence manager cannot be set up or refuses it, the library path is answered with ERROR code 7 carrying the manager's message and no file request in that session ever returns content. "
 "If it is granted the library is served as usual, and for a tool without a trusted key giving the library path checks out nothing.",
 ["histories", "configurations", "fault_sequences"], "every command sequence up to a depth x every manager answer x trusted and untrusted peer, in the global-licence build",
 "The global-licence build configuration is not built or tested at all.",
 ["src/lve/mlle_lve_libpath.c", "src/lve/mlle_lve_feature.c", "src/lve/mlle_lve_file.c"],
 [("global checkout on LIB", "src/lve/mlle_lve_libpath.c")],
 "replies on the TLS channel; calls into the licence-manager interface")

prop("P09", "Command-line feature checkout exits 0 only for a real checkout",
 "Run with a feature to check out and a library path, the executable exits 0 if and only if each option was given exactly once with a value, the path is an existing directory and the licence manager granted exactly that feature; every other command line except a lone version or help request, or a session start, exits non-zero. "
 "No command line makes it crash.",
 ["inputs", "fault_sequences"], "every command line up to a number of words over all options and representative values x every manager answer",
 "ctest runs three fixed command lines.",
 ["src/lve/lve.c", "src/lve/mlle_lve_libpath.c", "src/lve/mlle_lve_feature.c"],
 [("option parsing and checkout", "src/lve/lve.c")],
 "process exit status")

prop("P10", "The tool API reports success exactly when the executable agreed",
 "Each call of the tool-side API (version, library path, feature, return feature, licence, return licence, file) reports success if and only if the reply to that very request was the documented positive reply, with a protocol version inside the caller's range for version. "
 "On any other reply it reports failure and sets an error, whose text carries the executable's message (possibly cut after about 2000 bytes) when the reply was ERROR, or NO to a feature or licence request.",
 ["inputs", "histories"], "every API call x every reply command word, number, message and data size, and every short sequence of calls",
 "The tests run the API against the real executable, which can produce only a few of the replies.",
 ["src/tool/mlle_licensing.c", "src/common/mlle_utils.c", "src/common/mlle_parse_command.c"],
 [("reply matching", "src/tool/mlle_licensing.c"), ("reply reading", "src/common/mlle_utils.c")],
 "return value and error object of the API; bytes sent by the tool")

prop("P11", "A file reaches the tool intact however it is split in transit or read",
 "The size and bytes the tool API delivers for a file equal those the executable sent, for every file size including zero and sizes around buffer and TLS-record limits, however the reply was split over TLS records or pipe reads, and whatever sequence of buffer sizes the caller reads with. "
 "After the last byte the API signals the end, repeatedly, and the size it reports stays the same throughout.",
 ["inputs", "schedules"], "every file size in a set around all internal limits x every placement of up to two record boundaries in a set x every read-size sequence over a small alphabet",
 "The tests fetch a few small files with one buffer size.",
 ["src/common/mlle_ssl.c", "src/common/mlle_utils.c", "src/common/mlle_io.c", "src/tool/mlle_licensing.c"],
 [("record reassembly", "src/common/mlle_utils.c"), ("chunked read", "src/tool/mlle_licensing.c"), ("buffer growth while reading", "src/common/mlle_ssl.c")],
 "bytes returned by the API")

prop("P12", "A dying or misbehaving executable yields an error, never a hang or crash",
 "Whenever the executable dies, closes its output, sends a truncated or malformed reply, or was never a valid executable - at any point of start-up, handshake or session - the pending call of the tool-side API returns failure with an error set, in bounded time, and so does every later call once the connection is lost, without crashing, aborting or touching memory outside its buffers, and never reporting truncated content as a complete file. (An executable that stays alive and silent is out of scope.)",
 ["crash_points", "fault_sequences"], "every byte position of the executable's output at which it stops or closes, and every malformed reply of a grammar, in every API call",
 "No test stops the executable or makes it misbehave.",
 ["src/tool/mlle_licensing.c", "src/tool/mlle_spawn_posix.c", "src/tool/mlle_ssl_tool.c", "src/common/mlle_utils.c", "src/common/mlle_ssl.c"],
 [("spawn and pipe ends", "src/tool/mlle_spawn_posix.c"), ("reply reading", "src/common/mlle_utils.c"), ("handshake", "src/tool/mlle_ssl_tool.c")],
 "return of the API calls, process liveness")

prop("P13", "Encrypt and decrypt commands succeed completely or fail visibly",
 "The file encryption and decryption commands exit 0 only if the named destination then holds the complete result: for encryption a file that decrypts to the original (and that the executable serves, when a base directory was given), for decryption the exact original. On any failure - unreadable input, unusable key chain, damaged ciphertext, short write, full disk, failing close - they exit non-zero and leave no new or partial destination file behind. "
 "They never alter their input or any other file (source and destination being different files).",
 ["inputs", "fault_sequences"], "every invocation form over a small directory tree x every single failing file-system or random-number call",
 "Tests only run the commands on valid inputs; no I/O failure is injected.",
 ["src/encrypt_decrypt/encrypt_file.c", "src/encrypt_decrypt/decrypt_file.c", "src/decryptors/default/src/mlle_cr_encrypt.c", "src/decryptors/default/src/mlle_cr_decrypt.c"],
 [("encryption command", "src/encrypt_decrypt/encrypt_file.c"), ("decryption command", "src/encrypt_decrypt/decrypt_file.c")],
 "exit status and directory contents")

prop("P14", "Ciphertext is fresh, keyed per directory, and reveals no plaintext",
 "Encrypting the same content twice never yields the same ciphertext, no two encryptions share an initialisation vector, two directories with package files never share a key, and no 16-byte block of plaintext or of any key appears in an encrypted file. "
 "A file encrypted in one such directory cannot be decrypted as a file of another, and if the random generator fails, encryption fails.",
 ["inputs", "histories", "fault_sequences"], "every small tree and encryption sequence up to a length x every failing random-number request",
 "The tests check only that files decrypt.",
 ["src/decryptors/default/src/mlle_cr_encrypt.c", "src/decryptors/default/src/mlle_cr_context.h"],
 [("IV, mask and HMAC generation", "src/decryptors/default/src/mlle_cr_encrypt.c")],
 "bytes of the encrypted files")

prop("P15", "A packaged library is complete, and contains no cleartext Modelica source",
 "When the packaging tool reports success for an encrypted library, the archive contains, under the library's name, every regular file of the source library (a .library directory of the source is replaced by the generated one): each Modelica source only in encrypted form, which decrypts to the original, and every other file unchanged - plus the support files and executables, and nothing else. "
 "Without encryption every file is contained unchanged, and in both cases the source library is left untouched and nothing is left in the temporary area.",
 ["inputs", "schedules", "configurations"], "every small directory tree over a name alphabet (package files in any letter case, hidden files, nested and empty directories) x every directory-listing order x encryption on/off",
 "The packaging tool is neither built nor run by the stable tests.",
 ["src/packagetool/utils.c", "src/packagetool/packagetool.c"],
 [("staging copy, encryption walk and archive walk", "src/packagetool/utils.c")],
 "archive contents, file system")

prop("P16", "Packaging that cannot be completed is reported as a failure",
 "If any file or directory of the library cannot be read, copied, encrypted or added to the archive, the packaging tool exits non-zero; it never crashes and never exits 0 for an archive that misses a file, holds truncated content, or holds cleartext source of an encrypted library.",
 ["fault_sequences"], "every single failing file-system, archive or random-number call during packaging of small libraries",
 "The packaging tool is neither built nor run by the stable tests, and no fault is ever injected.",
 ["src/packagetool/utils.c", "src/packagetool/manifest.c", "src/packagetool/packagetool.c"],
 [("error propagation in the copy, encrypt and archive walks", "src/packagetool/utils.c")],
 "exit status, archive contents")

prop("P17", "The manifest is well-formed XML that carries exactly the given values",
 "For every accepted command line the manifest is well-formed XML in which each given value (title, description, version, build, date, language version, copyright, licence, enabled flag, icon, library name) appears exactly once in its documented place and reads back as given (printable text; white space around the text of an element is not significant), values not given do not appear, the tool and dependency lists are included completely after their first line, the icon entry names the icon's path in the library, and one entry per shipped executable names its path and platform.",
 ["inputs", "configurations"], "every subset of the options x values over an alphabet with every XML special character, spaces, non-ASCII text and long text x list files with every line-length and line-ending variation in a set",
 "The packaging tool is not run by the stable tests; XML escaping is never exercised.",
 ["src/packagetool/manifest.c", "src/packagetool/arguments.c"],
 [("XML writing", "src/packagetool/manifest.c"), ("option storage", "src/packagetool/arguments.c")],
 "the manifest file")

prop("P18", "Embedded keys are exactly the keys that were given or generated",
 "For every key file given to the embedding tool, the array a program obtains from the generated header holds exactly the file's bytes with carriage returns removed, zero-terminated, with the right length; for every generated random key it holds exactly the 32 generated bytes, whatever their values. "
 "After the generated clearing step no byte of the key remains, and an unreadable input or unwritable output is reported by a non-zero exit status.",
 ["inputs"], "every byte value at every position class, every length in a set, every placement of carriage returns in short files",
 "The build embeds three fixed keys and one random key and only checks that they work.",
 ["src/embedfile/obfuscate_utils.c", "src/embedfile/obfuscate.c", "src/embedfile/randomize_key.c", "src/obfuscators/dummy/src/obfuscator.c"],
 [("header generation", "src/embedfile/obfuscate_utils.c"), ("byte encoding", "src/obfuscators/dummy/src/obfuscator.c")],
 "array contents in a program compiled against the generated header")

prop("P19", "Decrypted content and keys leave the executable only inside TLS replies",
 "In every session, with or without the log enabled, neither decrypted source text nor any key or key mask is ever written to a file, the log, the error stream, or unprotected to the output stream, and the executable creates or modifies no file other than its log.",
 ["histories", "configurations"], "every command sequence up to a depth over trusted and untrusted peers, intact and damaged files, log on and off",
 "No test looks at the log, the raw output stream or the file system during a session.",
 ["src/lve/mlle_lve.c", "src/lve/mlle_lve_file.c", "src/decryptors/default/src/mlle_cr_decrypt.c", "src/common/mlle_io.c"],
 [("log output", "src/decryptors/default/src/mlle_cr_decrypt.c"), ("reply writing", "src/common/mlle_ssl.c")],
 "raw output bytes, log file, error stream, file system")

prop("P20", "The packaging tool rejects invalid command lines before touching anything",
 "A command line is accepted only if every option is a known option introduced by a dash, given at most once and followed by a non-empty value, all mandatory options are present, and the named library directory, icon and list files exist; otherwise the tool exits non-zero without creating an archive or temporary files (a help request prints help and exits 0). "
 "An accepted command line gives every option exactly the value the user wrote, whatever the order, and no command line makes the tool crash.",
 ["inputs"], "every command line up to a number of options over all option names, near-miss names, values and malformed words",
 "The argument parser is compiled but never run by the stable tests.",
 ["src/packagetool/arguments.c", "src/packagetool/packagetool.c"],
 [("argument table", "src/packagetool/arguments.c")],
 "exit status, file system, manifest values")

prop("P21", "The sessions and open files of one tool are independent of each other",
 "A tool may hold several sessions with executables and several decrypted files open at once, and interleave calls on them in any order: every call gives the result it gives when its session is the only one, every open file keeps its own content, size and position until it is closed, and errors of one session never show in another. "
 "Closing a session, or starting one that fails, ends that session's executable promptly and releases its licences while the other sessions go on; when the tool ends without closing, every executable it started ends and releases its licences.",
 ["histories", "schedules"], "every interleaving of the calls of two sessions and of several open files up to bounded lengths, every order of opening and closing, with working, refusing and failing executables",
 "The tests hold one session at a time and never interleave two, so shared state between sessions, connections inherited by later executables and executables left running are not seen.",
 ["src/tool/mlle_licensing.c", "src/tool/mlle_spawn_posix.c", "src/common/mlle_io.c"],
 [("spawning and ending the executable", "src/tool/mlle_spawn_posix.c"), ("session object and tool API", "src/tool/mlle_licensing.c"), ("file content returned by the API", "src/tool/mlle_licensing.c")],
 "results of the tool API, the licence manager's log, the processes left running")

prop("P22", "A failing file operation or a changing library spoils only the request it hits",
 "When opening, reading or measuring a library file fails during a request, or a file is too large to be held or sent, that request is answered with exactly one ERROR reply (or, if the failure did not matter, the right content), never with partial or wrong content, a missing reply or a crash, and every later request of the session is answered as if the failure had not happened. "
 "When files or directories of the library are replaced, removed or rewritten by another program at any moment of a request, the reply is an error or the complete text of one version of a file; an encrypted file never yields anything but a complete authentic text.",
 ["fault_sequences", "schedules"], "every call of every file and allocation function a request makes failing once, in every short request history; every change of a set of changes placed before every call",
 "The tests read intact files of an unchanging library; failures in the middle of a request and replacements between two calls cannot be produced from a unit test.",
 ["src/common/mlle_io.c", "src/lve/mlle_lve_file.c", "src/decryptors/default/src/mlle_cr_decrypt.c"],
 [("reading a library file", "src/common/mlle_io.c"), ("answering a file request", "src/lve/mlle_lve_file.c"), ("key mask lookup", "src/decryptors/default/src/mlle_cr_decrypt.c")],
 "replies on the TLS channel")

prop("P23", "Sessions and requests can go on without end: nothing they use is kept",
 "No request to the executable, whether it succeeds, fails, is malformed or meets a failing file operation, leaves open files or memory behind that grow with the number of requests; and no tool API call or session opened and closed by a tool, successful or not, leaves open descriptors or memory behind that grow with their number.",
 ["histories", "fault_sequences"], "every kind of request, failing call, and pair of requests repeated; every API call x kind of reply or end of the executable repeated within a session and with a session each",
 "A leak changes no result a test compares; it shows only after as many requests or sessions as a tool makes in hours.",
 ["src/lve", "src/tool/mlle_licensing.c", "src/tool/mlle_ssl_tool.c", "src/common/mlle_io.c", "src/common/mlle_ssl.c"],
 [("requests in the executable", "src/lve/mlle_lve.c"), ("session set-up and end in the tool", "src/tool/mlle_ssl_tool.c")],
 "descriptors and allocated memory of the process after each request or call")

prop("P24", "Packaging alters no source file and leaves no copy behind, however it ends",
 "Whatever the packaging tool is given and whichever of its file operations fails, it never changes the library it packages, the list files it reads or its own folder; it creates nothing in the working directory but the archive <library>.mol; and once it has ended, successfully or not, no copy of a library file is left in temporary storage (unless removing it is itself what fails).",
 ["fault_sequences", "inputs"], "every file operation of a packaging run fails once, on encrypted and plain libraries with every optional file; all files before and after are compared",
 "Tests package one library successfully and look at the archive; what a failed run leaves behind shows only when each operation fails in turn.",
 ["src/packagetool/packagetool.c", "src/packagetool/utils.c"],
 [("staging, removal", "src/packagetool/utils.c"), ("order of the steps and of the clean-up", "src/packagetool/packagetool.c")],
 "source library, tool folder, working directory and temporary folder before and after a run")

prop("P25", "Requests count only when they arrive over an intact, strong TLS connection",
 "Whatever bytes reach the library vendor executable, it acts on a request (answers it, asks the licence manager) only when a TLS handshake was completed and every byte up to the end of that request arrived unaltered, in order and exactly once; input that is not TLS, is cut, altered, lost, repeated or reordered makes the executable end promptly with no crash, with every licence manager released, and with no library content readable on the wire. Both sides refuse connections older than TLS 1.2 and suites that do not encrypt with at least 128 bits or do not authenticate.",
 ["inputs", "fault_sequences"], "a session of a trusted tool over TLS 1.2 and 1.3, cut at every byte, altered at every byte, every record lost, repeated, exchanged, split or preceded by every kind of unprotected record; every cipher suite and TLS version offered alone to each side",
 "Tests run one undisturbed handshake; a weakened configuration, an ignored handshake result or a retry that never ends is invisible there.",
 ["src/lve/mlle_ssl_lve.c", "src/tool/mlle_ssl_tool.c", "src/common/mlle_ssl.c", "src/lve/lve.c"],
 [("TLS configuration", "src/common/mlle_ssl.c"), ("handshake of the executable", "src/lve/mlle_ssl_lve.c"), ("handshake of the tool", "src/tool/mlle_ssl_tool.c")],
 "replies, licence manager calls, raw bytes on the wire and end of the executable")

prop("P26", "Packaging runs that overlap do not disturb each other",
 "When two runs of the packaging tool overlap in time in any way, from different working directories, each ends exactly as if the other had not run: same exit status, the same complete archive with the files and values of its own library, and nothing of its own left in temporary storage - whether the libraries are the same, different or of the same name, and whether the other run succeeds, fails or is killed at any point, now or earlier.",
 ["schedules", "crash_points"], "two runs, every switch point before a file-system call of the first (the second run as a whole inside), every pair of switch points for small libraries, and every point at which the other run is killed",
 "Tests run one packaging at a time; sharing of temporary names shows only in particular overlaps.",
 ["src/packagetool/utils.c", "src/packagetool/packagetool.c"],
 [("staging folder", "src/packagetool/utils.c"), ("archive name and clean-up", "src/packagetool/packagetool.c")],
 "exit status, archive, working directory and temporary folders of each run")

prop("P27", "Archives written with the bundled archive code hold exactly what was added",
 "After any sequence of additions of memory blocks to an archive file with the bundled archive code (ThirdParty/miniz, mz_zip_add_mem_to_archive_file_in_place, which the packaging tool uses on Windows), at any compression level and for any content, names and comments, every zip reader - and the bundled one - finds exactly the entries added so far, in order, with their exact names, comments and bytes. An addition that is not possible (invalid name or level, data for a directory, more than 65535 entries, a file that is no archive) or whose file operation or memory allocation fails is reported as failed, never crashes, and - unless writing itself failed - leaves the earlier entries as they were.",
 ["inputs", "histories", "fault_sequences"], "all contents up to 8 bytes over two letters and 4 over four, every length/distance code boundary of the compressor, 1-256 symbols, steep frequencies, sizes around its buffers, all levels; all sequences of up to three additions over 14; every failing call of the last addition",
 "No test of the repository uses this code; a compressor bug shows only for particular lengths, distances, frequencies or buffer positions.",
 ["ThirdParty/miniz/miniz.c", "src/packagetool/utils.c"],
 [("compressor, archive writer and reader", "ThirdParty/miniz/miniz.c"), ("use on Windows", "src/packagetool/utils.c")],
 "result of each addition, the archive as read by an independent reader and by the bundled one")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
