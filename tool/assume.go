package main

// What is trusted, and assumed, beyond the obligations.

func trustedBase() []string {
	return []string{
		"the Go front end and SSA construction of golang.org/x/tools v0.52.0 (the verified text is the SSA form of /repo's current source; nothing is dropped)",
		"/verif/tool: the symbolic semantics of SSA instructions, the loop rule and the verification-condition generator",
		"z3 5.3.2, cvc5 1.1.2",
	}
}

func assumptions(prop string) []string {
	a := []string{
		"slices, strings and buffers are shorter than 2^40 bytes, and loops run fewer than 2^40 times",
		"machine integers are bit-vectors of their real width; nothing is treated as mathematical",
		"memory allocation succeeds",
	}
	return append(a, propAssumptions[prop]...)
}

var seqPerConn = "a connection's requests are handled one at a time (C08) by a file server no other connection uses (C09), so its operations are verified as running alone"

var fsModel = []string{
	seqPerConn,
	"operating-system calls return arbitrary results within their documented types; a path given to two calls may name different files (other processes may change the tree in between)",
	"lexical facts about cleaned paths are axioms of the uninterpreted functions join2, pathdir and within (a cleaned join below a root is within it; the parent of a path within a root, other than the root, is within it)",
	"flag variables are set (flag.Parse), ufs.user is set by its initialiser, io.EOF is not nil; the user name is shorter than 16384 bytes",
	"file names delivered by the operating system are at most 4096 bytes",
	"symbolic links inside the exported tree are followed by the operating system",
}

var clientModel = []string{
	"the client's fields are used only by the functions named in the users/writers frames (checked in the repository; code outside it must not touch them either)",
	"the options given to NewClient set only ToNet, FromNet, Msize, Trace and Dead",
	"a goroutine's channel operations are verified against the channel invariant (a tag in the pool is held by nobody; a value received was sent); the interleaving argument is the ownership of tags, requests and the table entry of an outstanding tag",
}

var codecModel = []string{
	"a bytes.Buffer given to an encoder, decoder or handler is used by nobody else during the call",
}

var propAssumptions = map[string][]string{
	"C01": codecModel, "C02": codecModel, "C03": codecModel, "C04": codecModel,
	"C05": append([]string{"the map RPCNames is not modified by importers"}, codecModel...),
	"C06": append([]string{"the map RPCNames is not modified by importers", "the file server's operations return without panicking, with results the format can represent (an over-long result list or string cannot be sent in any well-formed reply)"}, codecModel...),
	"C07": append([]string{"the file server's operations return results the format can represent"}, codecModel...),
	"C08": {"a net.Conn's Read delivers the bytes of one stream in order, in pieces of any size, with an error at the end; Write sends all bytes or returns an error (io.Writer's contract)", "the dispatcher may change the buffer it is given in any way and may panic"},
	"C09": {"the options given to NewListener set only Trace", "the function given to NewListener returns a new file server at each call (shown for NewUFS)"},
	"C10": {"a net.Listener's Accept returns a connection or an error and not both", "between the release and the next acquisition of the lock other goroutines may change the table in any way that keeps nil out of it"},
	"C11": clientModel, "C12": append([]string{"the delivery loop hands each request the reply bearing its tag (C11)", "a received reply has at least 7 bytes (C14)"}, clientModel...),
	"C13": {"atomic.AddUint64 is atomic and returns the new value; the counter is changed by nothing else (frame checked)"},
	"C14": {"Read of the transport delivers the bytes of one stream in order, in pieces of any size, with an error at the end", "Dead is set only by the client's own goroutines"},
	"C15": fsModel, "C16": fsModel, "C17": fsModel, "C18": append([]string{"ReadAt and WriteAt of an open handle return as documented: n bytes at the offset, an error whenever n is less than asked"}, fsModel...),
	"C19": append([]string{"a change already made is not undone when a later system call of the same wstat fails (the failure is reported)"}, fsModel...), "C20": fsModel,
	"C21": append([]string{"the file information of os.Stat and os.Lstat is truthful, and its Sys() is a *syscall.Stat_t"}, fsModel...),
	"C22": {"the log package's functions do not change their arguments"},
	"C24": append([]string{"closing the connection ends a Read on it", "goroutines that can run do run; loops without a wait are not shown to end (the loops of the client wait in every iteration)", "the pool of tags has room for every tag (C11), so returning one does not wait"}, clientModel...),
	"C23": {"the generator is run on the repository's own message definitions with the installed Go toolchain"},
}
