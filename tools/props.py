#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand after editing)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
G, S, C, F = "protocol/genout.go", "protocol/server.go", "protocol/client.go", "filesystem/filesystem.go"
GEN = "protocol/gen.go"
prop("C01", "Encoding then decoding a message gives the same message back",
 "For every message type and for directory entries, decoding what was encoded from any field values (strings and stat data up to 65535 bytes) succeeds and gives back exactly those values and the same tag. The encoding does not depend on what the destination buffer held before.",
 ["inputs"], "every value of every integer field, every content and length of strings, data and lists",
 "The one encoding test compares a few hand-written messages with small numbers; a wrong shift or a lost high byte of a length only shows on other values.",
 [G, GEN, "protocol/protocol.go"], [("generated encoders and decoders", G), ("generator of both", GEN)], obs=["bytes produced by the encoders", "values returned by the decoders"])
prop("C02", "Messages on the wire have the 9P2000 layout",
 "Every encoded message and directory entry is laid out byte for byte as the 9P2000 manual says: little-endian size including itself, type number, tag, then the fields in order with 2-byte counts for strings, lists and stat data and 4-byte counts for read and write data. The decoders read that same layout, so that any other 9P2000 implementation can be talked to.",
 ["inputs"], "every value and length of every field of every message type",
 "Client and server share the generated code, so round-trip tests cannot see an error made on both sides; the only byte-exact test has a handful of messages.",
 [G, GEN, "protocol/protocol.go"], [("generated encoders and decoders", G), ("message type numbers and field order", "protocol/protocol.go")])
prop("C03", "Decoding arbitrary bytes never crashes and accepts only well-formed ones",
 "Whatever the bytes, a decoder returns: it accepts them exactly when they are one complete well-formed message of that type with nothing missing and nothing left over (for a directory entry: nothing missing), and then the values are those the bytes stand for. Otherwise it returns an error; it never crashes and never uses bytes beyond those it was given.",
 ["inputs"], "every byte string up to the bound, including those cut anywhere and those whose counts point past the end",
 "Tests only decode what the encoders produced; no malformed or truncated input is ever decoded.",
 [G, GEN], [("length checks before each field", G), ("left-over check after decoding", G)])
prop("C04", "Each request is performed once, exactly as sent, and answered once",
 "A well-formed request makes the server perform the requested operation exactly once with exactly the arguments in the message, and send exactly one reply with the request's tag: the reply of that request's type carrying exactly the operation's results, or, if the operation fails, an error reply with the error's text (cut to 65535 bytes if longer). Replies come in the order of the requests.",
 ["inputs", "histories"], "every request type, all argument and result values, success and failure, sequences of requests on a connection",
 "Tests call each operation with one set of constants against an echoing server.",
 [S, G, GEN], [("dispatch on the message type", S + " Dispatch"), ("generated server stubs", G + " SrvR*"), ("connection loop", S + " serve")], obs=["calls on the file server", "bytes written to the connection"])
prop("C05", "Nothing is served before the version is agreed",
 "On a connection where no version request has been received yet, every other message, whatever its type and content, is answered with an error reply carrying its tag and performs no operation. The first version request lifts this, on that connection only.",
 ["inputs", "histories"], "every first message and sequences of messages before the version request, on several connections",
 "No test sends anything before Tversion.",
 [S], [("Versioned check", S + " Dispatch")], state=[("Versioned", "a Tversion was received on this connection", S)])
prop("C06", "A malformed or unknown request gets an error reply and does nothing",
 "A complete message that does not decode as its type says (too short, too long, a count past the end) or whose type is not a request the server supports is answered with one error reply carrying its tag and performs no operation. The connection goes on working: the next request is served normally.",
 ["inputs", "histories"], "every message body up to the bound for each request type, every other type number, followed by a good request",
 "Tests never send a malformed message or an unknown type.",
 [S, G, GEN], [("decode error answered in the stubs", G + " SrvR*"), ("default case", S + " Dispatch, ServerError")])
prop("C07", "The server frames requests however the network splits the bytes",
 "What the server does with a stream of bytes depends on the bytes only, not on how reads deliver them: every complete message is handled as if it had arrived alone. A last message cut short by the end of the connection or a read error is neither performed nor answered, and the connection is closed.",
 ["inputs", "fault_sequences"], "every split of a stream of messages into reads, every point at which the stream ends or fails",
 "In the tests every message arrives in one piece over a pipe.",
 [S], [("header and body reads", S + " serve")], obs=["calls on the file server", "bytes written to the connection", "close of the connection"])
prop("C08", "No bytes from a client can crash the file server",
 "Whatever bytes a client sends to the file server, in whatever order of requests, the server process does not panic or exit and does not loop without reading: each complete message gets one reply, or the connection is closed. This holds with debug tracing on as well.",
 ["inputs", "histories"], "every message body up to the bound in reachable server states, with and without the debug layer",
 "A panic in one connection's goroutine ends the whole process for all clients; tests send only well-formed requests in the expected order.",
 [S, G, F, "pkg/debugfs/debug.go"], [("decoders' checks", G), ("fid checks of each operation", F)])
prop("C09", "A client call sends exactly its request and returns exactly the reply",
 "Each client call writes exactly one well-formed request with the arguments given (strings and stat data up to 65535 bytes) and returns exactly the values of the reply that came for it. An error reply becomes an error with that text, and a reply of another type or that does not decode becomes an error, never a success with wrong values.",
 ["inputs"], "every call, all argument values, every reply body up to the bound",
 "Tests talk to the library's own server with constants; no test replies with another type or with malformed bytes.",
 [G, C, GEN], [("generated calls", G + " CallT*"), ("request writer", C + " IO")])
prop("C10", "Concurrent calls each get their own reply",
 "When several goroutines make calls on one client at the same time, each request goes out whole with a tag that no other outstanding request has and that is neither 0 nor the reserved tag, and each call returns the reply with its own tag, whatever the order in which replies come and goroutines run. A reply whose tag nobody waits for affects no call, and every tag becomes free again once its call has returned.",
 ["schedules", "inputs"], "all interleavings of the callers, the request writer and the reply readers, all orders of replies, all reply contents",
 "The test with many calls makes them one after another; the goroutine schedule is never controlled.",
 [C, G], [("tag pool", C + " Tags"), ("table of outstanding calls", C + " RPC, IO")], state=[("RPC", "outstanding call by tag", C), ("Tags", "free tags", C)])
prop("C11", "The client frames replies however the network splits the bytes",
 "What calls return depends on the bytes of the replies, not on how reads deliver them. A reply cut short by the end of the connection is never handed to a call as if it were whole: the call fails.",
 ["inputs", "fault_sequences"], "every split of the reply stream into reads, every point at which it ends",
 "In the tests every reply arrives in one piece over a pipe.",
 [C], [("header and body reads", C + " readNetPackets")])
prop("C12", "File identifiers and tags handed out by a client are never the same",
 "The fids a client hands out are all different from one another for as long as the 32-bit space lasts, also when goroutines ask at the same time, and the tags it has handed out or put on outstanding requests are all different and never 0 or the reserved one.",
 ["schedules", "histories"], "all interleavings of requests for fids and tags; any number of them handed out before",
 "The tag test takes all tags in one goroutine; fids are taken one after another.",
 [C], [("atomic counter", C + " GetFID"), ("tag pool", C + " NewClient, GetTag")])
prop("C13", "When the connection is lost, client calls fail instead of hanging",
 "When the server closes the connection, the stream fails or a request cannot be written, every call without a reply returns an error, every later call returns an error, and none hangs; the client's process does not crash or exit. A call whose reply came before the stream ended returns it, unless a request could not be written as well.",
 ["schedules", "fault_sequences"], "every point at which reading or writing fails, all interleavings with calls in progress",
 "No test ever closes a connection under a client.",
 [C, G], [("failing of outstanding calls", C + " fail"), ("lost-connection error", G + " CallT*")], state=[("Dead", "the connection is lost", C)])
prop("C14", "Clients cannot reach files outside the exported root by name",
 "Whatever names a client sends in attach, walk, create and rename requests (with dots, slashes, or absolute), every file the server looks at or changes is the root directory or has a path below it, for every non-empty value of the root setting. Walking up from the root stays at the root.",
 ["inputs", "histories", "configurations"], "every name and aname up to the bound in sequences of requests, several roots",
 "The file server's tests walk to a few plain names under /.",
 [F], [("containment of joined paths", F + " contains, join"), ("cleaning of attach and rename names", F + " Rattach, Rwstat")], state=[("fullName", "host path of a fid", F)], obs=["every path passed to the host's file calls"])
prop("C15", "A fid stands for one file from its creation until clunk or remove",
 "A fid comes into being by a successful attach or walk only and stands for the file at that path, independently of all other fids, until it is clunked, removed, walked elsewhere, moved by a create or reset by a version request; operations on a fid that does not exist are refused, as are attaching or walking to a fid already in use. A fid is open only after a successful open or create of its own; opening it twice is refused; once clunked or removed it is gone, even if the removal failed, and its open file is closed exactly once.",
 ["histories", "inputs"], "all sequences of requests up to the bound with arbitrary fids",
 "Tests follow one scripted sequence with distinct fids.",
 [F], [("fid table", F + " files"), ("in-use checks", F + " Rwalk, Rattach, Ropen, Rcreate"), ("clunk", F + " clunk")], state=[("files", "fid table", F)])
prop("C16", "A walk moves to its target only if every name exists",
 "A walk answers with the qids of the files visited, in order, as far as names exist; if the first name does not exist it is an error. The new fid stands for the final file exactly when all names were walked, and otherwise neither it nor the starting fid changes; a walk of no names makes a second fid for the same file.",
 ["inputs", "histories"], "every tree, list of names and position of the first missing name up to the bound, new fid equal or different",
 "Tests walk one missing name and one or two present ones.",
 [F], [("element-wise walk", F + " Rwalk")])
prop("C17", "Reads and writes transfer exactly the requested bytes at the offset",
 "A read of an open file returns exactly the bytes of the file at the given offset, as many as asked for (or as fit in a message of the agreed size) up to the end of file, none beyond it; a write stores exactly the given bytes at the given offset and reports how many, leaving all others unchanged. If the host fails, an error is returned, not other data.",
 ["inputs", "histories", "fault_sequences"], "all contents, offsets, counts and data up to the bound, sequences of writes and reads, host errors",
 "Tests read one small file from offset 0 and write one string.",
 [F], [("ReadAt and WriteAt at the request's offset", F + " Rread, Rwrite")])
prop("C18", "Reading a directory lists every entry exactly once",
 "Reading an open directory until it returns nothing gives every entry exactly once, in whole entries of at most the count asked for, each with the values a stat of that entry would give; reading from offset 0 starts over. An entry that does not fit the count is not lost: it comes with the next read that is large enough.",
 ["inputs", "histories"], "every number of entries, names and sequence of counts up to the bound",
 "The directory test reads with one large count.",
 [F, "filesystem/filesystem_unix.go"], [("one entry per read, kept when too large", F + " Rread, oflow"), ("rewind", "filesystem/filesystem_unix.go resetDir")])
prop("C19", "Stat and qids describe the file",
 "The stat of a fid gives the file's name, length, modification time, permission bits and directory bit, the user name the server was started with (-user) as owner and group, and a qid; every qid the server gives for a file has its inode number as path, a version from its modification time, and the directory and symbolic-link type bits exactly when it is one. Two different files never share a qid path, and while the file is unchanged the qid is the same whether it comes from attach, walk, open, create, stat or a directory read.",
 ["inputs"], "all modes, sizes, times and inode numbers",
 "Tests look at the type of one file.",
 ["filesystem/ninep.go", "filesystem/ninep_unix.go", F], [("conversion of file information", "filesystem/ninep.go dirTo9p2000Dir, filesystem/ninep_unix.go fileInfoToQID")])
prop("C20", "Changing a file's attributes changes exactly what was asked",
 "A wstat changes exactly the attributes whose fields are not the protocol's don't-touch values: permission bits, name, length, modification and access time become those given and all others stay; with all don't-touch it changes nothing. A change of owner or group, a rename onto an existing directory and a malformed entry are refused without any change, and after a rename the fid stands for the file under its new name.",
 ["inputs", "histories"], "every combination of set and unset fields and their values",
 "Tests have no wstat at all.",
 [F], [("don't-touch checks", F + " Rwstat")])
prop("C21", "Open, create and remove do to the host file what was asked, or fail",
 "Open and create use the access mode asked for (read, write, both, execute as read) and truncate when asked; create makes a file or directory of the given name and permission bits in the fid's directory and moves the fid to it; remove deletes the fid's file. If the host refuses, the client gets an error and the fid is unchanged (except that remove clunks it), never a success.",
 ["inputs", "fault_sequences"], "every mode and permission value, every host error at every call",
 "Tests open one file for reading and create one.",
 [F, "filesystem/ninep.go"], [("mode mapping", "filesystem/ninep.go modeToUnixFlags"), ("error returns", F + " Ropen, Rcreate, Rremove")])
prop("C22", "The debug layer changes nothing",
 "With the debug layer in front of a file server, every operation is passed on exactly once with the same arguments, and its results and errors come back unchanged. Nothing it logs makes it fail, whatever the arguments and results.",
 ["inputs"], "every operation, all arguments and results, including undecodable stat data",
 "No test uses the debug layer.",
 ["pkg/debugfs/debug.go"], [("wrapper of each operation", "pkg/debugfs/debug.go")])
prop("C23", "Connections are independent and a listener survives temporary errors",
 "Each accepted connection is served on its own file server state, and what one does or how it fails does not affect another's replies. On each listener by itself, a temporary accept error is retried after a pause of 5 ms that doubles up to 1 s and starts over after a success; any other accept error ends serving on that listener and closes it, and a shutdown closes every listener and so ends serving on all of them.",
 ["histories", "fault_sequences", "schedules"], "every sequence of accept results up to the bound; requests on two connections in every order",
 "Tests use one connection and never make accept fail.",
 [S], [("accept loop", S + " Serve"), ("one server per connection", S + " newConn"), ("Shutdown", S + " Shutdown, trackListener")])
prop("C24", "Version negotiation accepts 9P2000 and nothing else",
 "A version request for exactly \"9P2000\" is answered with that version and a message size not above the one offered; a request for any other version string is refused with an error. The result does not depend on earlier requests.",
 ["inputs", "histories"], "every version string up to the bound and every message size",
 "Tests offer one version and one wrong one.",
 [F], [("version check", F + " Rversion")])
prop("C25", "A version request starts a new session with no fids",
 "A successful version request on a connection that already has fids forgets all of them and closes their open files: from then on every old fid is unknown and can be attached or walked to anew. A refused version request changes nothing.",
 ["histories", "inputs"], "all states of the fids before the version request, all fids after it", "Tests send one version request per connection.",
 [F], [("reset of the fid table", F + " Rversion")])
prop("C26", "Replies to reads fit in the message size agreed on",
 "Once a version request has been answered with a message size m, no reply to a read is longer than m bytes, and a size that open or create announces for reads and writes (iounit, unless 0) leaves 24 bytes of m for the header. A read that asks for more than fits returns as much as fits: no byte of a file and no directory entry gets lost for a client that goes on reading where the last reply ended. The last accepted version request counts; a refused one changes nothing.",
 ["inputs", "histories"], "every message size and every count, files and directories, sequences of version requests",
 "Tests read a few bytes with a size of 8000; a reply that is too long only shows with a count above the agreed size.",
 [F], [("message size kept", F + " Rversion"), ("limit of the data", F + " Rread, Ropen, Rcreate")], state=[("msize", "message size of the session", F)])
prop("C27", "When a connection ends, its open files are closed",
 "However a connection ends (closed by the client, cut in the middle of a message, a read or write that fails), every host file that its fids still had open is closed, once, and the host's files are not changed by it. Files open on other connections stay open and usable.",
 ["histories", "fault_sequences"], "every state of the fids up to the bound and every way in which a connection can end",
 "Tests end with the connection and never look at what is left open; a server that leaks runs out of file descriptors only after days.",
 [S, F, "pkg/debugfs/debug.go"], [("end of the connection loop", S + " serve, hangup"), ("closing the files of all fids", F + " Hangup")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
