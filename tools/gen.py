#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json from the list below."""
import json, os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe))


RT = "runtime monitoring: "
CODEC_NOTE = ("Sampled, not exhaustive: the number of frames is in the evidence. Trusts the harness's own table of the "
              "bit layout, field order and timestamp formats (ref.go), which was written from the protocol draft and the frame comments.")

prop("C01", "Header flags: each named field reads back and never disturbs another",
     "Setting any frame-header, directory-entry or timestamp flag field to any of its named values makes that field read back as that value and leaves every other field of the header as it was. "
     "An unknown field or value is reported as an error (and an unassigned value as an empty name) without changing the header or ending the process.",
     ["inputs"], "every 32, 16 and 8 bit header value, every field and every option, known and unknown",
     "The existing tests never set a flag on an arbitrary header; 2^32 headers times the fields cannot be listed in examples.",
     ["sarflags/sarflags.go"], [("Set, Get, SetStr, GetStr, SetD.., SetT..", "sarflags/sarflags.go")],
     RT + "oracle on every call, random and boundary headers, process-death watch",
     "Sampled headers (all fields and options are covered on every run). Trusts the independent bit table of the harness.")
prop("C02", "Data frames survive the wire unchanged",
     "Any data frame that can be built decodes, after encoding, to the same header flags, session, offset, timestamp and payload bytes. "
     "The bytes on the wire are those of the protocol's layout, whichever constructor built the frame and whatever the structs held before. A frame is not built from flags that do not exist or apply, or from values they do not have, but refused; decoding keeps nothing of the receive buffer.",
     ["inputs"], "every combination of flags, session, offset within the descriptor, timestamp type and payload",
     "The one data test encodes a single frame and only prints it.",
     ["data/data.go", "timestamp/timestamp.go"], [("New, Make, Encode, Decode", "data/data.go")],
     RT + "round-trip and wire-format oracle on generated frames", CODEC_NOTE)
prop("C03", "Status frames survive the wire unchanged, holes included",
     "Any status frame that can be built decodes, after encoding, to the same header flags, session, progress, in-response-to, timestamp and list of holes, in order. "
     "The bytes on the wire are those of the protocol's layout, and a frame carries only its own holes even when its struct is reused. A frame is not built from flags that do not exist or apply, or from values they do not have, but refused; decoding keeps nothing of the receive buffer.",
     ["inputs", "histories"], "every combination of flags, descriptor, timestamp type, 0 to several hundred holes, reused structs",
     "The one status test prints one frame with fixed holes.",
     ["status/status.go", "holes/holes.go"], [("New, Make, Encode, Decode", "status/status.go")],
     RT + "round-trip and wire-format oracle on generated frames", CODEC_NOTE)
prop("C04", "Request frames survive the wire unchanged",
     "Any request frame that can be built decodes, after encoding, to the same header flags, session, file name byte for byte, and authentication field. "
     "The bytes on the wire are those of the protocol's layout. A frame is not built from flags that do not exist or apply, or from values they do not have, but refused; decoding keeps nothing of the receive buffer.",
     ["inputs"], "every combination of request flags, session, file name of non-NUL bytes and authentication field",
     "The one request test checks one name.",
     ["request/request.go"], [("New, Make, Encode, Decode", "request/request.go")],
     RT + "round-trip and wire-format oracle on generated frames", CODEC_NOTE)
prop("C05", "Metadata frames and directory entries survive the wire unchanged",
     "Any metadata frame and directory entry that can be built decodes, after encoding, to the same flags, session, checksum, size, modification and creation times and path. "
     "The bytes on the wire are those of the protocol's layout. A frame is not built from flags that do not exist or apply, or from values they do not have, but refused; decoding keeps nothing of the receive buffer.",
     ["inputs"], "every combination of metadata and directory entry flags, checksum, size within the descriptor, times and path bytes",
     "The metadata test needs a file that is not there and fails; there is no directory entry test.",
     ["metadata/metadata.go", "dirent/dirent.go"], [("Encode, Decode", "metadata/metadata.go"), ("Encode, Decode", "dirent/dirent.go")],
     RT + "round-trip and wire-format oracle on generated frames", CODEC_NOTE)
prop("C06", "Beacons survive the wire unchanged",
     "Any beacon that can be built decodes, after encoding, to the same header flags, free space and endpoint identifier; free space is present exactly when it is advertised. "
     "The bytes on the wire are those of the protocol's layout. A frame is not built from flags that do not exist or apply, or from values they do not have, but refused; decoding keeps nothing of the receive buffer.",
     ["inputs"], "every combination of beacon flags, free space descriptor and value, and identifier",
     "There is no beacon test.",
     ["beacon/beacon.go"], [("New, Make, Encode, Decode", "beacon/beacon.go")],
     RT + "round-trip and wire-format oracle on generated frames", CODEC_NOTE)
prop("C07", "Timestamps keep the time to the precision of their type",
     "A time put in a timestamp of any type is carried on the wire in that type's format and comes back as the same time to the precision of the type. "
     "A time the type cannot represent, or an unknown type, is refused.",
     ["inputs"], "every timestamp type and every time, including the ends of each type's range",
     "The timestamp test prints the current time in a few types.",
     ["timestamp/timestamp.go"], [("New, Now, Encode, Decode, Print", "timestamp/timestamp.go")],
     RT + "independent encoder compared on generated times", CODEC_NOTE)
prop("C08", "No byte sequence from the network can bring a decoder down",
     "Decoding any byte sequence as any kind of frame, directory entry or timestamp returns a frame or an error: it never panics, ends the process, hangs, or accepts a frame shorter than its own header calls for. "
     "The outcome depends only on the bytes, and what was accepted can be printed and re-encoded safely.",
     ["inputs"], "every byte sequence, every decoder, fresh and reused structs",
     "No existing test decodes malformed input.",
     ["data/data.go", "status/status.go", "request/request.go", "metadata/metadata.go", "dirent/dirent.go", "beacon/beacon.go", "timestamp/timestamp.go", "sarflags/sarflags.go"],
     [("Decode", "*/*.go")],
     RT + "grammar-aware mutation fuzzing in watched worker processes (panic, exit, hang), differential oracle fresh/reused struct",
     "Sampled byte strings. A worker that dies or stops is attributed to the input it was handling.")
prop("C09", "A value too large for its descriptor is refused, never truncated",
     "Encoding a frame whose offset, progress, in-response-to, hole bounds, free space or file size does not fit the frame's descriptor fails. "
     "When encoding succeeds the receiver decodes exactly the value that was sent.",
     ["inputs"], "every frame kind with descriptor-sized fields, every descriptor, every 64 bit value",
     "No test goes near the limit of a descriptor.",
     ["data/data.go", "status/status.go", "beacon/beacon.go", "dirent/dirent.go"], [("Encode", "data/data.go, status/status.go, beacon/beacon.go, dirent/dirent.go")],
     RT + "boundary-value oracle on encode results", "Sampled values concentrated at the limits of each descriptor.")
prop("C10", "Received ranges and holes always say exactly which bytes are missing",
     "After any sequence of received byte ranges, the ranges kept are exactly the maximal runs of received bytes in order, and the holes reported are exactly the missing runs before the highest received byte. "
     "Order, overlap, repetition and empty ranges make no difference.",
     ["histories"], "every sequence of ranges",
     "No test covers the holes package.",
     ["holes/holes.go"], [("Add, Getholes", "holes/holes.go")],
     RT + "online checker against a bitmap after every step of random histories", "Sampled histories over bounded offsets (and shifted large offsets).")
prop("C11", "A file sent over a lossy, reordering network arrives byte-identical",
     "For any loss, duplication and reordering of frames, a receiver that asks for its holes and a sender that answers them end with a file identical to the one sent, with the announced size and checksum. "
     "At every moment the receiver asks for exactly the bytes it lacks and its file holds only bytes that were sent, at their place, also when several transfers are mixed.",
     ["inputs", "schedules", "fault_sequences"], "every file, chunking, descriptor, timestamp type, and every loss, duplication and reordering of data and status frames",
     "The tests never move a file.",
     ["data/data.go", "status/status.go", "metadata/metadata.go", "request/request.go", "holes/holes.go", "fileio/fileio.go"],
     [("frame codecs", "data, status, metadata, request"), ("hole bookkeeping", "holes/holes.go"), ("positioned file access", "fileio/fileio.go")],
     RT + "fault-injecting network simulation with an online byte-conservation monitor",
     "The sender and receiver loops are the harness's (the repository's own transfer loop is unfinished); everything they call is the repository's. Sampled files, faults and schedules.")
prop("C12", "Local file operations do exactly what was asked, and never clobber",
     "Opening for receive creates a new file and fails if one exists, also when several openers race; opening for send never changes the file; reads and writes move exactly the bytes at the given offset; removing removes exactly that file. "
     "A directory asked for is made, usable and alone, and no operation moves the program to another directory. What several do at once with one open file, each at its own offset, does not get mixed up. Existence and metadata queries report the state of the file, and failures change nothing.",
     ["histories", "schedules"], "every sequence of file operations on several files, directories and handles, concurrent opens of one name, and concurrent use of one open file",
     "TestFileio fails for lack of a fixture and no test runs sequences or concurrent openers.",
     ["fileio/fileio.go"], [("FileOpen, FileRead, FileWrite, FileSeek, FileClose, FileRm, FileDelete, FileExists, FileMeta", "fileio/fileio.go")],
     RT + "model-based checker comparing the whole directory after every operation", "Sampled histories on a local file system; concurrent opens by up to 16 goroutines.")
prop("C13", "File names cannot reach outside the saratoga directory",
     "No name given to any file operation, however it is written, can read, create, change, remove or reveal anything outside the saratoga directory. "
     "Names that stay inside keep working.",
     ["inputs"], "every name (parent references in any position, absolute names, doubled slashes, sibling prefixes) and every operation taking a name",
     "No test uses a hostile name.",
     ["fileio/fileio.go", "fileio/checksum.go", "dirent/dirent.go", "metadata/metadata.go"], [("path containment", "fileio/fileio.go")],
     RT + "snapshot comparison of everything outside the directory around every call, as an unprivileged user",
     "Sampled names. Symbolic links an operator places in the directory are not covered.")
prop("C14", "Checksums are those of the file's bytes",
     "The CRC32, MD5 or SHA1 reported for a file is that of exactly its content, whatever its size, name and location in the directory, and none gives no checksum. "
     "An unknown checksum type or a file that cannot be read is an error, never a checksum.",
     ["inputs"], "every file content, size and name, every checksum type",
     "No test computes a checksum.",
     ["fileio/checksum.go"], [("Checksum", "fileio/checksum.go")],
     RT + "recomputation oracle over generated files", "Sampled contents, mostly up to 4 MB. Trusts the Go standard library's digests.")
prop("C15", "Metadata describes the file as it is",
     "Metadata built for a file, directory or stream carries its true size, modification time, path, kind and checksum, with a descriptor large enough for the size, and survives the wire; a directory entry built alone carries the same of it. "
     "Asking for the wrong kind, a missing file, a time a directory entry cannot say or a checksum of something that has none is refused.",
     ["inputs", "histories"], "every file size (to 8 GiB), time, kind, transfer and checksum type; fresh and reused structs",
     "TestMetadata fails for lack of a fixture.",
     ["metadata/metadata.go", "dirent/dirent.go", "fileio/checksum.go"], [("New, Make", "metadata/metadata.go"), ("New", "dirent/dirent.go")],
     RT + "oracle from the harness's own knowledge of the file system state", "Sampled files; sizes up to 8 GiB are sparse and taken without checksum.")

prop("C16", "The peer table holds each peer once, with what its latest beacon said",
     "After any history of beacons the peer table has exactly one entry per address that sent one, in order of arrival, each holding what that peer's latest beacon said, and each beacon's answer says whether anything was learned. "
     "This also holds when beacons arrive concurrently and while the table is listed, without data races.",
     ["histories", "schedules"], "every history and interleaving of beacons from any set of addresses",
     "There is no beacon or peer test.",
     ["beacon/beacon.go"], [("NewPeer, Peers, Pmu", "beacon/beacon.go")],
     RT + "Go race detector plus a model-based checker of the peer table over histories and concurrent deliveries",
     "Sampled histories and interleavings (2-12 goroutines).")
prop("C17", "Every request is answered once, correctly, and has only its own effect",
     "Every request a responder receives gets exactly one status, addressed to the requester and carrying the request's session: success exactly when it can be honoured, otherwise an error code whose condition really holds. "
     "An accepted request is recorded as one transfer even if repeated, a successful delete removes exactly the named file, and nothing else changes in the transfers or the directory, also for concurrent requests.",
     ["inputs", "histories", "schedules"], "every request frame, from any peers, in any order, sequential or concurrent",
     "No test drives the responder.",
     ["trans/trans.go", "sarwin/sarwin.go", "request/request.go", "fileio/fileio.go"], [("AddRxTran", "trans/trans.go")],
     RT + "Go race detector plus a model of replies, transfers and directory compared after every request",
     "Sampled histories; the reply is read from the channel the responder answers on. Requests that would change the directory by means other than delete are unfinished in the repository (getdir).")
prop("C18", "Transfers are tracked exactly: created once, found by key, removed on request",
     "A transfer, whether begun by a call, a command or a peer's request, is in the transfer table exactly from its creation to its removal, is found by its own direction, session and peer and by no other key, has a session number of its own and keeps the settings in force when it began. "
     "A request is accepted exactly when its file is there to be read or removed, or not there and to be written, and a request that comes again, even at the same time, is no second transfer. "
     "A refused transfer changes neither the table nor the directory. Metadata of its file is taken over as a whole or, refused, not at all. All of this holds under concurrent use without data races.",
     ["histories", "schedules"], "every history and interleaving of starting, finding, listing, updating and removing transfers, of every type and to any peers",
     "No test creates a transfer.",
     ["sarwin/sarwin.go", "trans/trans.go"], [("NewInitiator, NewResponder, Lookup, Match, Remove", "sarwin/sarwin.go")],
     RT + "Go race detector plus a model of the transfer table compared after every operation",
     "Sampled histories and interleavings (2-10 goroutines).")
prop("C19", "A status report sends every hole exactly once, in datagrams that fit",
     "Sending the status of a transfer puts on the wire every hole exactly once, in order, in as many datagrams as needed, none larger than the maximum frame size, each with the transfer's session, progress, in-response-to and flags; allholes says yes exactly when one datagram carries them all. "
     "An error status is a single datagram without holes, and a failure to send is reported.",
     ["inputs"], "every set of holes, flags, timestamp type, descriptor and maximum frame size",
     "No test sends a status.",
     ["sarwin/sarwin.go", "status/status.go", "holes/holes.go"], [("WriteStatus", "sarwin/sarwin.go")],
     RT + "wire-level checker over datagrams received on a real socket", "Sampled sets of up to several hundred holes, over loopback.")
prop("C20", "Commands change exactly the setting they name, or nothing",
     "A valid command sets exactly the setting it names to exactly the value given and a query shows the current value; any other line (unknown command, wrong or surplus argument, number out of range, help) changes no setting, transfer or file and is answered with the usage, help or an error. "
     "Only exit and quit end the program, with the exit level given, and commands issued at the same time do not lose each other's changes.",
     ["inputs", "histories", "schedules"], "every sequence and interleaving of command lines",
     "No test runs a command.",
     ["sarwin/sarwin.go", "sarflags/sarflags.go"], [("Run and the cmd functions", "sarwin/sarwin.go")],
     RT + "Go race detector plus a model of the settings compared after every command", "Sampled histories. Commands the repository does not implement (cancel, history, home, ls) are only required to change nothing.")
prop("C21", "A running node survives any traffic and accounts for every datagram",
     "Whatever datagrams arrive, over IPv4 or IPv6 and from any number of senders, the running program neither stops, hangs nor races: it still takes beacons and typed commands, and exits when told to, with the level told. "
     "Every well-formed frame is handled exactly once with its own session (shown, answered, or its peer learned) and every malformed one is reported as an error and has no other effect.",
     ["inputs", "histories", "schedules"], "every stream of datagrams and typed commands, in any order and at any rate the socket can hold",
     "No test starts the program.",
     ["saratoga/saratoga.go", "sarnet/sarnet.go", "sarwin/sarwin.go", "trans/trans.go"], [("listen, main", "saratoga/saratoga.go")],
     RT + "race-instrumented real program in a network namespace, offline checker of its screen log against the datagrams sent",
     "Sampled sessions. Status replies are observed where the node shows them (the repository does not transmit them yet). The terminal library is replaced by a stand-in; without leave to make a network namespace only IPv4 over loopback is exercised.")

prop("C22", "The configuration file is exactly what the program runs with",
     "After a configuration file is loaded every setting, timer, command text and flag table is exactly what the file says, whatever was loaded before, except that SARDIR in the environment overrides the directory. "
     "A file that is missing, malformed, has a value of the wrong type or an invalid or absent header flag default is refused with an error. Copies of the settings are equal and independent, and the flags made for a frame type are exactly the settings that apply to it.",
     ["inputs", "histories"], "every configuration file and sequence of loads",
     "No test loads anything but the one configuration, and none looks at the result.",
     ["sarflags/sarflags.go"], [("ReadConfig, CopyCliflags, Setglobal", "sarflags/sarflags.go")],
     RT + "oracle comparing all loaded state with an independent reading of generated configuration files",
     "Sampled files grown from the repository's own. Numbers are whole and non-negative.")
prop("C23", "Beacons go out as asked: to each address given, as many, with current settings",
     "The beacon command sends the set number of beacons to every address or multicast group named and to no other, each with the current header flags, the true free space if it is advertised, and the sender's own address and process as identifier; invalid addresses are reported and do not keep the others from being served; off sends nothing. While beacons are being sent other commands are answered. "
     "Addresses are parsed to exactly the host given, and beacons go to the configured port. This also holds for beacon commands given at the same time, without data races.",
     ["inputs", "schedules"], "every set of addresses, settings, count and interval, and concurrent commands",
     "No test sends a beacon.",
     ["sarwin/sarwin.go", "beacon/beacon.go", "sarnet/sarnet.go"], [("cmdBeacon, sendbeacons", "sarwin/sarwin.go"), ("Send", "beacon/beacon.go"), ("UDPAddress, RemoveUDPAddrValue", "sarnet/sarnet.go")],
     RT + "Go race detector plus wire-level checker over receivers on every address of a network namespace",
     "Sampled commands and settings. With interval 0 both one beacon and the full count are accepted (the code's comment and its behaviour differ).")

prop("C24", "What is opened is closed and what is locked is unlocked, on every path",
     "After any history of operations, refused and failed ones included, the process holds open exactly the sockets and files of the transfers in its table: a checksum, metadata, beacon, request, refused or removed transfer leaves nothing open, and no operation leaves a lock held. "
     "An operation that finds no descriptor left fails with an error, changes neither the table nor the directory, and works again when there are descriptors.",
     ["histories", "fault_sequences", "schedules"], "every history of operations, exhaustion of descriptors at any point, concurrent use",
     "Leaks show only after many operations and on failure paths no test takes.",
     ["sarwin/sarwin.go", "fileio/fileio.go", "fileio/checksum.go", "sarnet/sarnet.go", "trans/trans.go"], [("NewInitiator, Remove, sendbeacons", "sarwin/sarwin.go"), ("FileOpen, FileClose", "fileio/fileio.go"), ("Checksum", "fileio/checksum.go"), ("SetMulticastLoop", "sarnet/sarnet.go")],
     RT + "descriptor and lock monitor (garbage collector off) with injected descriptor exhaustion, plus the Go race detector",
     "Sampled histories. Transfers begun by command and never removed keep their descriptors, as do their waiting goroutines (unfinished code).")

prop("C25", "What is shown of a frame is what it carries, in its window, whole and once",
     "The long and the short text of a received frame show its header, session, offsets, sizes, names, checksum, times and holes exactly as they were on the wire, none that it does not carry, and the long text also every flag that applies to its kind. "
     "Each message printed to a window appears in that window and no other, once, whole and in the colour asked for, after what the same printer printed there before, also when several are printed at the same time; clearing a window empties that one only, of what was printed before.",
     ["inputs", "schedules"], "every frame of every kind, and every set of messages printed at the same time",
     "The tests print frames but nobody compares the text; windows are not tested.",
     ["beacon/beacon.go", "data/data.go", "status/status.go", "request/request.go", "metadata/metadata.go", "dirent/dirent.go", "sarwin/sarwin.go"],
     [("Print, ShortPrint", "beacon, data, status, request, metadata"), ("MsgPrintf and the like, Clearwin", "sarwin/sarwin.go")],
     RT + "monitor reading the printed text back against the bytes on the wire, and a window write observer, under the Go race detector",
     "Sampled frames and messages. The order of messages that different goroutines print at the same time is not judged. Names on the wire are printable here.")

prop("C26", "The command run is exactly the line as it was edited at the prompt",
     "Whatever keys are pressed and whatever the prompt, the command window shows the prompt and what was typed and corrected, and Enter runs exactly that line, once, keeps it in the list of commands and shows the next prompt; Enter on an earlier line runs that one again, Enter on an empty line runs nothing. "
     "The prompt cannot be erased, backspace, left and right work on the character before or at the cursor, also on lines that wrap, keys pressed in the other windows neither edit nor run anything, Ctrl-Space goes round all windows shown and back, and up and down reach every row of a window. Output to the other windows meanwhile disturbs none of this.",
     ["inputs", "histories", "schedules"], "every sequence of keys, size of the terminal, and output meanwhile",
     "No test presses a key.",
     ["sarwin/sarwin.go"], [("GetLine, prompt, BackSpace, CursorLeft, CursorRight, CursorDown, CursorUp, switchView, Keybindings", "sarwin/sarwin.go")],
     RT + "model of the line compared with the windows after every step of generated key sequences on the real main loop, under the Go race detector",
     "Sampled key sequences on a stand-in for the terminal; keys wait until the screen is drawn after Enter and near the edge of the window. The Insert key is pressed only where no line wraps (the library loses its place there).")

prop("C27", "What is done at the same time does not mix",
     "Frames, timestamps, header flags, received ranges, checksums, metadata, addresses and files handled at the same time by several goroutines each give exactly the bytes, values, text, errors and file content they give when handled alone, without data races. "
     "What an operation returned is not changed by another frame or file handled later.",
     ["schedules", "histories"], "every set of operations on frames, flags, ranges and files, of the same and of different kinds, and every interleaving of them",
     "The tests run one operation at a time, once.",
     ["data/data.go", "status/status.go", "request/request.go", "metadata/metadata.go", "dirent/dirent.go", "beacon/beacon.go", "timestamp/timestamp.go", "sarflags/sarflags.go", "holes/holes.go", "fileio/fileio.go", "fileio/checksum.go", "sarnet/sarnet.go"],
     [("New, Make, Encode, Decode, Print", "data, status, request, metadata, dirent, beacon, timestamp"), ("Get, Set, Setglobal", "sarflags/sarflags.go"), ("FileOpen, FileRead, FileWrite", "fileio/fileio.go"), ("Checksum", "fileio/checksum.go")],
     RT + "Go race detector plus the oracles of C01-C10, C14 and C15 on 2-8 goroutines at once",
     "Sampled work and interleavings (2-8 goroutines). The settings do not change meanwhile (C20, C22 and C23 cover that).")

prop("C28", "The screen shows the windows and their text whatever the size of the terminal",
     "Whatever the size of the terminal and whenever it is resized, the node keeps running. With room for them (16 columns and rows) the windows are within the terminal: command line and errors side by side at the bottom, messages above, packets over the messages at the right when switched on; "
     "the first three show the end of all text printed there, wrapped to their width, in its colours, text in an unknown colour in white on red; the frame marks the window with the focus. "
     "A resize loses no text, keeps the focus and the cursor in its place in the line being typed, and the prompt is there for the next key as soon as a command was given, however narrow the window and whatever characters the prompt has.",
     ["inputs", "histories"], "every size of the terminal, sequence of resizes, keys and output",
     "No test makes a window.",
     ["sarwin/sarwin.go"], [("Layout, place, prompt, moveto, position, showPacket, switchView, setcolour", "sarwin/sarwin.go")],
     RT + "cell-by-cell comparison of the terminal (a stand-in that keeps its cells) with a model of what was typed and printed, after every step of generated sessions on the real main loop",
     "Sampled sessions, sizes 1x1 to 400x150. With less room only the running, the line, the focus and the commands are judged. Characters of double width, and cursors moved above the part of a long line that fits in the window, are not generated.")

prop("C29", "A node starts as it was told or says why not, and leaves the terminal as it was",
     "Started with a configuration and an interface, the program runs in the saratoga directory named by SARDIR or the configuration (relative ones from where it was started), touches no other, listens on the configured port to the configured IPv4 and IPv6 groups on that interface and to unicast, takes frames up to what the interface's MTU leaves and none larger, and shows all this truthfully. "
     "Nodes with the same port and groups see each other's multicast beacons, with the count and identifier sent, those at another port do not. "
     "With the wrong number of arguments, an unreadable or invalid configuration, a missing directory or interface, a group or port that cannot be had, or no terminal it ends, saying what is wrong, without a panic and without changing anything. "
     "However it ends (exit, quit, Ctrl-C, a failing start) the terminal has its modes and settings back, and exit and quit give the exit status asked for.",
     ["inputs", "histories", "faults"], "every configuration, directory, interface, MTU, port, group and terminal, and every way to end",
     "No test starts the program.",
     ["saratoga/saratoga.go", "sarnet/sarnet.go", "sarflags/sarflags.go", "sarwin/sarwin.go"], [("main, listen, gocuimainloop", "saratoga/saratoga.go"), ("UDPAddress, SetMulticastLoop", "sarnet/sarnet.go"), ("ReadConfig", "sarflags/sarflags.go"), ("GetLine, Quit", "sarwin/sarwin.go")],
     RT + "Go race detector on real processes in a network namespace, judged by /proc, the wire, their windows and their directories; and the build with the real toolkit on a pseudo terminal read by a screen emulator",
     "Sampled starts. The exit status of refusals is not judged. Without leave to make a network namespace only unicast over loopback is exercised.")

# MORE

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": list(p["observe"]), "hook_needed": None},
            }) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
         "notes": "No hooks in /repo: the monitors observe exported state, files, sockets and the screen, through stand-ins for the terminal library that replace it at build time."}
    for p in P:
        m["checks"].append({
            "property": p["id"], "quick_cmd": "./check.sh " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
            "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
