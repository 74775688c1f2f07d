#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
G='protocol/genout.go'; GEN='protocol/gen.go'; S='protocol/server.go'; C='protocol/client.go'
U='filesystem/filesystem.go'; N='filesystem/ninep.go'; NU='filesystem/ninep_unix.go'; D='pkg/debugfs/debug.go'
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Every message is encoded in the exact 9P2000 wire layout",
 "For every message kind the library can send and every field values the format can represent (counted strings, names, qids and stat data up to 65535, total below 4 GiB), encoding leaves in the output buffer exactly one message: a 4-byte little-endian size equal to the total length, the type byte, the given 2-byte tag, and the fields in protocol order (little-endian integers, 16-bit-counted strings, lists and stat data, 32-bit-counted read/write data). Whatever the buffer held before is replaced.",
 ["inputs"],"all message kinds, all tags, all integer values, all strings, byte slices and lists of any representable length, all prior buffer contents",
 "TestEncode compares two kinds (Tversion, Rversion) on one value each; the round-trip tests would not notice an error made symmetrically in encoder and decoder.",
 [G,"protocol/protocol.go"],[("Marshal*Pkt",G),("message type constants","protocol/protocol.go")],observe=["bytes left in the buffer by the encoder"])
p("C02","Decoding inverts encoding for every message kind",
 "For every message kind, decoding the part of a valid message that follows the type byte reports no error and returns exactly the tag and the field values that were encoded, including every element of name and qid lists, and consumes the whole message.",
 ["inputs"],"all message kinds and all well-formed message bodies of any length",
 "The tests decode only the handful of messages the RPC tests exchange; multi-byte values, long strings, and lists with several elements are hardly sampled.",
 [G],[("Unmarshal*Pkt",G)],observe=["returned fields, tag and error"])
p("C03","Malformed messages are rejected without crashing",
 "For any sequence of bytes offered as a message body, of any message kind, decoding terminates without panicking, never returns data from outside the message, and reports an error whenever the bytes are not exactly one valid body: cut short at any byte (also inside an integer), a count larger than what follows, or bytes left over.",
 ["inputs"],"all byte sequences of any length, for every message kind",
 "No existing test decodes a malformed message.",
 [G],[("bounds checks in Unmarshal*Pkt",G),("bytes left over check",G)],observe=["returned error, absence of panic"])
p("C04","Directory entries survive encoding and decoding; bad ones are errors",
 "Encoding any directory entry whose strings fit yields exactly the stat(5) layout with a leading 16-bit length of the rest, and decoding those bytes returns the same entry and leaves unread exactly what follows it. Decoding arbitrary bytes never panics and reports an error when the entry is cut short at any byte.",
 ["inputs"],"all entries (all integer fields, all strings up to 65535 with total below 65536) and all byte sequences",
 "Only directory entries of one small real directory are decoded in TestMount, and the decoded values are not compared.",
 [G],[("Marshaldir, Unmarshaldir",G)],observe=["encoded bytes, decoded entry, unread remainder"])
p("C05","Nothing is served before version negotiation",
 "On a connection on which no Tversion has arrived yet, every other request, of whatever type byte, is answered with an Rerror carrying its tag and no file-server operation is invoked; from the first Tversion on, requests are no longer refused for that reason. The file server accepts exactly the version string 9P2000, echoing the offered msize and version, and answers any other with an error.",
 ["inputs","histories"],"all type bytes, all message bodies with a tag, both negotiation states, all version strings and msizes",
 "One Tattach before Tversion and two version strings are sampled.",
 [S,U],[("Dispatch",S),("Rversion",U)],[("Versioned","a Tversion has been seen on this connection",S)],observe=["reply bytes, file-server calls"])
p("C06","Every request gets exactly one well-formed reply bearing its tag",
 "For every request of at least a tag, whatever its type byte and body, handling it produces exactly one complete well-formed message that carries the request's tag and whose type is the reply type of that request or Rerror; requests of an unsupported type get an Rerror. Handling never panics as long as the file server's own operations do not, and error texts too long for the format still give a well-formed Rerror.",
 ["inputs"],"all type bytes, all bodies, all results (within the wire format's limits) and all errors of the file server",
 "Tests exchange a few well-formed requests and look at one reply at a time; malformed bodies, unsupported types and long errors are never sent.",
 [S,G],[("Dispatch",S),("SrvR*",G),("ServerError",G)],observe=["reply bytes"])
p("C07","Requests reach the file server faithfully, and its answers the client",
 "A well-formed request makes exactly one call to the file-server operation of its kind, with exactly the decoded field values, and the reply carries exactly the values that call returned, or an Rerror with the error's text if it failed. A request whose body is malformed is answered with an Rerror without any file-server operation being invoked.",
 ["inputs"],"all twelve request kinds, all bodies, all results and errors of the file server",
 "The echo server of the tests ignores most arguments and returns constants; no malformed request is sent.",
 [S,G],[("SrvR*",G),("Dispatch",S)],observe=["file-server calls with arguments, reply bytes"])
p("C08","Server framing does not depend on how the bytes arrive",
 "However the transport splits the incoming bytes into reads, the server handles exactly the messages delimited by their size fields, in order, each with its own type byte and exactly its own bytes, and writes each reply once and completely before taking the next message. It stops serving only at end of input, on a transport error, or on a size field smaller than the 7-byte header, and a message cut short by the end of input is never acted on.",
 ["inputs","schedules","fault_sequences"],"all byte streams, all ways of splitting them into reads, all points at which reads or writes fail or the stream ends",
 "The tests use an in-memory pipe that delivers each message in one or two whole reads and never fails.",
 [S],[("conn.serve read loop",S)],[("dead","connection is finished",S)],observe=["requests dispatched, bytes written, connection close"])
p("C09","Connections do not share session state",
 "Every accepted connection is served by exactly one serving loop with a file server newly created for it and a session that has not negotiated a version, independent of all other connections and of the listener's history. When serving ends, for whatever reason, that connection is closed.",
 ["histories"],"any number and order of accepted connections and any reason for a connection to end",
 "Every test accepts a single connection.",
 [S,U],[("Listener.newConn, Accept, conn.serve",S),("NewUFS",U)],observe=["file-server creations, session state, connection close"])
p("C10","Shutdown closes every listener and Serve survives temporary errors",
 "Shutdown closes every network listener that is being served, forgets them, and returns the first close error if any. Serving a listener hands every accepted connection to exactly one session in order, retries after temporary accept errors with a delay that starts at 5 ms, doubles and never exceeds 1 s, and ends by returning the first permanent accept error, closing the listener and no longer tracking it.",
 ["histories","fault_sequences"],"all sets of listeners, all close results, all sequences of accept results",
 "No test calls Serve or Shutdown.",
 [S],[("Listener.Serve, Shutdown, trackListener, closeListenersLocked",S)],[("listeners","set of listeners being served",S)],observe=["Close calls, return values, delays"])
p("C11","Outstanding requests have distinct tags; replies reach their requester",
 "A client never has two outstanding requests with the same tag and never uses tag 0 or NOTAG; each request is registered under its tag before its bytes are sent, and only the tag bytes of the request are changed. Each reply is delivered, unmodified and once, to the caller whose outstanding request has the reply's tag, after which the tag becomes available again; replies whose tag belongs to no outstanding request are delivered to nobody and do not crash the client.",
 ["schedules","histories","inputs"],"any number of concurrent calls, any order of replies, any tags in incoming replies, client with or without tracing",
 "The tests issue one call at a time, always with tracing enabled, and the server always answers in order with valid tags.",
 [C],[("Client.IO sender and receiver loops",C),("NewClient tag pool",C)],[("Tags","pool of free tags",C),("RPC","outstanding requests by tag",C)],observe=["bytes written to the server, replies delivered to callers, tag pool"])
p("C12","Client calls return exactly what the server answered",
 "Each client call sends one request that is the exact encoding of its arguments and waits for one reply; if that reply is the well-formed reply of the same kind it returns exactly the decoded values without error, if it is an Rerror it fails with exactly the server's error text, and if it is of any other kind or malformed it fails.",
 ["inputs"],"all twelve calls, all argument values the format can represent, all reply messages of any type and body",
 "The tests make each call once or twice with small constants and only well-formed replies of the right kind.",
 [G],[("CallT*",G)],observe=["request bytes, returned values and error"])
p("C13","Fids handed out by a client are distinct",
 "The fids obtained from a client are pairwise distinct over its lifetime, also when requested concurrently, for up to 2^32-3 requests, and are never the reserved no-fid value within that range.",
 ["schedules","histories"],"all interleavings of concurrent requests and all histories of fewer than 2^32-3 requests",
 "No test calls it.",
 [C],[("Client.GetFID atomic counter",C)],[("FID","last fid handed out",C)],observe=["returned fids"])
p("C14","Client framing does not depend on how the bytes arrive",
 "However the transport splits the incoming bytes into reads, the client's receiver extracts exactly the messages delimited by their size fields, in order and byte for byte, and passes each on once. It stops only at end of input, on a transport error, or on a size field smaller than the 7-byte header, and then marks the client dead and closes the connection; a message cut short is never passed on.",
 ["inputs","schedules","fault_sequences"],"all byte streams, all ways of splitting them into reads, all points at which reads fail or the stream ends",
 "The tests use an in-memory pipe that delivers whole messages and never fails.",
 [C],[("Client.readNetPackets",C)],[("Dead","client is finished",C)],observe=["replies passed on, client state, connection close"])
p("C15","No request reaches a path outside the exported root",
 "Whatever requests a client sends, every path on which the file server performs an operating-system operation is lexically the exported root directory or below it: attach names, walk elements, created names and new names given to wstat, with any number of dot-dot elements or slashes, never lead above the root, and the root directory itself is never renamed. (Symbolic links inside the exported tree are followed by the operating system and are not covered.)",
 ["inputs","histories"],"all request sequences, all names (absolute, relative, with .., ., empty, slashes), all clean absolute root directories",
 "TestMount exports / and uses plain names, so leaving the root is impossible there.",
 [U],[("path handling in Rattach, Rwalk, Rcreate, Rwstat",U)],[("rootPath","exported root",U),("fullName","path a fid stands for",U)],observe=["paths passed to operating-system calls"])
p("C16","Each fid stands for one file, independently of all other fids",
 "An operation on a fid that is not in use fails and touches nothing; attach and walk never take over a fid that is in use for something else; a fid stays valid, standing for the same file and open handle, until it is itself walked, created through, renamed, clunked or removed, whatever happens to other fids. Clunk and remove free exactly that fid even when the removal fails, close its open file once and leave all other fids and their open files as they were; clones never share an open file. A flush succeeds and touches no fid. No operation crashes the server, whatever its arguments (memory permitting).",
 ["inputs","histories"],"all fid tables and all operations with all fids, in any order",
 "TestMount uses four fids in one fixed order.",
 [U],[("getFile, clunk, Rattach, Rwalk, Ropen, Rcreate",U)],[("files","fid table",U)],observe=["operation results, open handles, fid table"])
p("C17","Attach and walk reach the named files in order and move fids only on success",
 "Attach makes an unused fid stand, unopened, for the attached name inside the exported root and returns its qid, or fails changing nothing. A walk of n names returns the qids of the files reached element by element in order; it fails if the first element cannot be reached, returns the qids up to the first unreachable element otherwise, and only when all n are reached does the new fid come to stand for the last one, unopened, with its qid. A walk of no names makes the new fid stand for the same file; a walk that does not reach all elements changes no fid.",
 ["inputs","histories"],"all fid tables, all name lists of any length, all outcomes of the file lookups",
 "TestMount walks a few existing paths and one whose first element is missing.",
 [U],[("Rwalk",U)],[("files","fid table",U)],observe=["returned qids, fid table"])
p("C18","Reads and writes act on exactly the requested bytes of the open file",
 "A read of an opened file at an offset with a count returns exactly the bytes the file has there, at most count of them, reaching end of file being no error; a write writes exactly the given bytes at exactly the given offset and reports how many were written or the error. On fids that are not open they fail, no count or offset crashes the server, and directory reads return at most count bytes consisting of whole entries, restarting from the beginning at offset 0 and failing without losing the entry when it does not fit.",
 ["inputs","histories"],"all offsets, counts (also zero and negative as signed values), data, file contents and directory contents",
 "TestMount reads and writes a few bytes at small offsets with large enough counts.",
 [U,"filesystem/filesystem_unix.go"],[("Rread, Rwrite, resetDir",U)],[("oflow","directory entry that did not fit the last read",U)],observe=["operating-system reads and writes, returned data and errors"])
p("C19","Wstat changes exactly what was asked, nothing else",
 "A wstat changes mode, name, length and times only if the entry's corresponding field is not the don't-touch value, to exactly the requested values and only on the fid's file, leaving an untouched one of access and modification time as it was; after a rename the fid stands for the new name. A request to change owner or group, or with a malformed entry, is refused with nothing changed, a rename never replaces an existing directory, and a request that changes nothing flushes the file if it is open.",
 ["inputs"],"all stat entries with any combination of don't-touch fields, all fids, all outcomes of the operating-system calls",
 "No existing test sends a wstat to the file server.",
 [U],[("Rwstat",U)],observe=["operating-system calls with arguments, result"])
p("C20","Open, create and remove do what was asked or report the failure",
 "Open opens the fid's file with the access mode (and truncation) corresponding to the request and nothing more, fails on a fid that is already open, and returns the fid's qid; create makes the named file or directory inside the fid's directory with the requested permission bits, moves the fid to it and returns its qid; remove deletes the fid's file. Whenever the operating system refuses, the operation reports an error and the fid stands for what it stood for before.",
 ["inputs","fault_sequences"],"all open modes, permissions, names and outcomes of the operating-system calls",
 "TestMount covers five opens and two successful creates; failing creates are not tested.",
 [U,N],[("Ropen, Rcreate, Rremove",U),("modeToUnixFlags",N)],observe=["operating-system calls with arguments, results, fid state"])
p("C21","Qids and stat entries describe the file truthfully",
 "The qid of a file has the file's inode number as path, its modification time in milliseconds modulo 2^32 as version, and a type that has the directory bit exactly for directories and the symlink bit exactly for symbolic links and no other bits; its stat entry carries that qid, the nine permission bits, the directory mode bit exactly for directories, its modification time, length and name, and Tstat returns exactly the encoding of the entry of the fid's file.",
 ["inputs"],"all file attributes",
 "TestMount only logs qids and stat entries.",
 [N,NU,U],[("fileInfoToQID, dirToQIDType, dirTo9p2000Mode, dirTo9p2000Dir",N),("Rstat",U)],observe=["returned qids and stat bytes"])
p("C22","The debugging layer is transparent",
 "With debugging on, every operation of the wrapped file server is invoked exactly once with exactly the same arguments and its results are returned unchanged, for all twelve operations, all arguments and all results.",
 ["inputs"],"all twelve operations, all arguments, all results and errors",
 "No existing test uses the debugging layer.",
 [D],[("DebugFileServer methods",D)],observe=["calls to the wrapped server, returned values"])
p("C23","Regenerating the stubs gives a codec with the same guarantees",
 "Running the stub generator on the current message definitions produces code that compiles and has the same encoding, decoding and dispatch guarantees as required of the committed stubs.",
 ["programs"],"the generator's output for the message definitions in the tree, over all inputs of the generated functions",
 "No test runs the generator.",
 [GEN,"protocol/protocol.go"],[("emitter functions and templates",GEN)],observe=["generated source"])
p("C24","Calls on a dead client fail instead of blocking",
 "Once a client's connection has ended (end of input, a read or write error, a message cut short or with an impossible size, or no connection to read from), every call outstanding on it and every later call returns an error instead of waiting for ever, calls whose replies had arrived before return these, and the process goes on.",
 ["schedules","fault_sequences"],"all interleavings of calls with the end of the connection",
 "No test closes the connection while calls are made.",
 [C,G],[("IO, readNetPackets, done",C),("CallT*",G)],observe=["return of the call"])
p("C25","Concurrent use of a client is free of data races",
 "No two goroutines using one client, including its internal ones, access the same memory without synchronisation when at least one access is a write.",
 ["schedules"],"all interleavings of concurrent calls and incoming replies",
 "The tests use one goroutine and run without the race detector.",
 [C],[("channels of the client",C)],observe=["memory accesses"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
