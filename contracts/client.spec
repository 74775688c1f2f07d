# The client: tags and delivery (C11), calls (C12), fids (C13), framing (C14).

# ---- C11: IO and the goroutine it starts ----
#
# A tag is always in exactly one place: in the channel c.Tags (free), with the
# goroutine that took it from there, in the table c.RPC (outstanding), or with
# the goroutine that took it out of the table. What travels through the channel
# is the permission to fill the tag's entry, which is empty.

ghost hold [protocol.Tag]int   # 1: a free tag taken from c.Tags; 2: a tag taken out of the table
ghost req *protocol.RPCCall    # the request being sent
ghost tosend bool              # ... which has not been written yet
ghost regTag protocol.Tag      # the tag it was registered under, 0 if it was not yet
ghost cur *protocol.RPCReply   # the reply being delivered
ghost curTag protocol.Tag
ghost owes bool                # its requester is waiting for it
ghost taken *protocol.RPCCall  # the request taken out of the table
ghost delivered bool
ghost ended bool               # the end of the connection has been seen
ghost told int                 # how often requesters have been told of it
ghost wfail bool               # writing a request has failed
ghost cut bool                 # ... and the connection has been closed

def tagof(p) = protocol.Tag(idx(p, c.RPC)+1)

contract (*protocol.Client).IO(c)
  requires c != nil && len(c.RPC) == 65534 && c.ToNet != nil && c.Tags != nil && c.FromServer != nil && c.FromClient != nil
  requires c.done != nil && !ended && told == 0 && !wfail && !cut
  requires (forall t protocol.Tag :: hold[t] == 0) && req == nil && !tosend && regTag == 0 && cur == nil && !owes && taken == nil && !delivered
  nopanic [C11]
  spawn
  inv no tag is lost: forall t protocol.Tag :: hold[t] == 0
  inv sent: !tosend
  inv delivered: !owes
  inv not over: !ended && told == 0
  on wait()
    assert [C24] nothing is waited for after the end of the connection: !ended
  on goexit()
    assert [C11 C24] sending ends only with the connection: ended || wfail
    assert [C24] a failed write ends the connection: wfail ==> c.FromNet == nil || cut
  on close:struct{}(ch)
    assert [C24] requesters are told once: ch == c.done && told == 0
    assert [C11 C12 C24] requesters are told of the end when there are no more replies: ended && !spawned()
    set told = told + 1
  on recv:struct{}(ch, v, ok bool)
    assert [C24] the end is awaited where it is announced: ch == c.done
    assume nothing is sent there: !ok
    set ended = true
  on (io.Closer).Close(w) (e)
    assert [C11 C24] the connection is given up only when writing has failed: wfail || ended
    set cut = cut || w == c.FromNet
  on dyn:protocol.Tracer(s)
    assume true
  on elem:*protocol.RPCCall(s, i)
    havoc s
    assume entries of tags held here stay empty: forall j int :: 0 <= j && j < len(c.RPC) && hold[protocol.Tag(j+1)] != 0 ==> c.RPC[j] == nil
    assume only the receiver empties entries: cur != nil ==> (forall j int :: 0 <= j && j < len(c.RPC)
       && before("elem:*protocol.RPCCall", -1, c.RPC[j]) != nil ==> c.RPC[j] == before("elem:*protocol.RPCCall", -1, c.RPC[j]))
  on recv:*protocol.RPCCall(ch, r *protocol.RPCCall, ok)
    open
    assert [C11] requests are taken from the client's queue: ch == c.FromClient
    assert [C11] the previous request was sent: !tosend
    assert [C24] a failed write ends the connection: wfail ==> c.FromNet == nil || cut
    assert [C11] no tag is kept: forall t protocol.Tag :: hold[t] == 0
    assume what the calls put in: r != nil && len(r.b) >= 7 && r.Reply != nil
    set req = r
    set tosend = true
    set regTag = 0
  on recv:protocol.Tag(ch, t protocol.Tag, ok)
    open
    assert [C11] tags are taken from the client's pool: ch == c.Tags
    assume a free tag is valid and not held: t >= 1 && t != 65535 && hold[t] == 0
    havoc c.RPC
    assume its entry is empty: c.RPC[int(t)-1] == nil
    set hold[t] = 1
  on store:*protocol.RPCCall(p, v *protocol.RPCCall, was *protocol.RPCCall)
    assert [C11] an entry is filled with the request being sent: v != nil ==> v == req && tosend && regTag == 0
    assert [C11] an entry is filled only with its own tag at hand: v != nil ==> into(p, c.RPC) && hold[tagof(p)] == 1
    assert [C11] an entry is emptied only for its reply, once: v == nil ==> cur != nil && was != nil && taken == nil && into(p, c.RPC) && curTag == tagof(p)
    set regTag = ite(v != nil, tagof(p), regTag)
    set hold[tagof(p)] = ite(v != nil, 0, 2)
    set taken = ite(v != nil, taken, was)
  on (io.Writer).Write(w, d []byte) (n, e error)
    assert [C11] requests are written to the server: w == c.ToNet
    assert [C11] a request is written once: tosend
    assert [C11] a request is registered before it is written: regTag != 0
    assert [C11] the request carries the tag it is registered under: len(d) >= 7 && le16(d, 5) == uint16(regTag)
    assert [C11] nothing else of the request is changed: len(d) == len(req.b) && (forall j int :: 0 <= j && j < len(d) && j != 5 && j != 6
       ==> d[j] == after("recv:*protocol.RPCCall", -1, req.b[j]))
    set tosend = false
    set wfail = e != nil
  on recv:*protocol.RPCReply(ch, r *protocol.RPCReply, ok bool)
    assert [C11] replies are taken from the receiver: ch == c.FromServer
    assert [C11] the previous reply was delivered if its requester was waiting: !owes
    assert [C11] no tag is kept: forall t protocol.Tag :: hold[t] == 0
    assume what readNetPackets put in: ok ==> r != nil && len(r.b) >= 7
    havoc c.RPC
    assume entries of tags held here are empty: forall j int :: 0 <= j && j < len(c.RPC) && hold[protocol.Tag(j+1)] != 0 ==> c.RPC[j] == nil
    set ended = ended || !ok
    set cur = r
    set curTag = ite(ok, protocol.Tag(le16(r.b, 5)), 0)
    set taken = nil
    set delivered = false
    set owes = ok && curTag >= 1 && curTag != 65535 && c.RPC[int(curTag)-1] != nil
  on send:[]byte(ch, d []byte)
    assert [C11] a reply is delivered once, to the request that bears its tag: cur != nil && taken != nil && !delivered && ch == taken.Reply
    assert [C11] a reply is delivered unmodified: same(d, after("recv:*protocol.RPCReply", -1, cur.b))
    set delivered = true
    set owes = false
  on send:protocol.Tag(ch, t protocol.Tag)
    assert [C11] tags are returned to the client's pool: ch == c.Tags
    assert [C11] only a tag at hand is returned: hold[t] != 0
    assert [C11] a tag is free again only after its reply was delivered: hold[t] == 2 ==> delivered
    set hold[t] = 0
  ensures [C11] one sender is started: ncalls("go:*") == 1
  ensures [C11] it ends only when there are no more replies: cur == nil
  ensures [C24] requesters are told of the end: told == 1

# The pool starts with every tag but 0 and NOTAG, once each, and an empty table.

ghost sentT [protocol.Tag]bool

contract protocol.NewClient(opts) (c, err)
  requires forall t protocol.Tag :: !sentT[t]
  requires forall i int :: 0 <= i && i < len(opts) ==> opts[i] != nil
  nopanic [C11]
  on dyn:protocol.ClientOpt(x *protocol.Client) (e error)
    havoc addr(x.ToNet)
    havoc addr(x.FromNet)
    havoc addr(x.Msize)
    havoc addr(x.Trace)
    havoc addr(x.Dead)
  on send:protocol.Tag(ch, t protocol.Tag)
    assert [C11] the tag is not a reserved one: t != 0 && t != 65535
    assert [C11] no tag is put in twice: !sentT[t]
    set sentT[t] = true
  inv tags so far, int: forall t protocol.Tag :: sentT[t] <==> t != 0 && int(t) < phi_int
  inv tags so far, Tag: forall t protocol.Tag :: sentT[t] <==> t != 0 && t < phi_protocol_Tag
  ensures [C11] every tag is in the pool: err == nil ==> (forall t protocol.Tag :: t != 0 && t != 65535 ==> sentT[t])
  ensures [C11] the table has an entry for every tag and is empty: err == nil ==> len(c.RPC) == 65534 && (forall i int :: 0 <= i && i < 65534 ==> c.RPC[i] == nil)
  ensures [C11] one delivery loop is started: err == nil ==> c != nil && ncalls("go:(*protocol.Client).IO") == 1 && arg("go:(*protocol.Client).IO", 0, 0, "*protocol.Client") == c
  ensures [C11] one receiver is started: err == nil ==> ncalls("go:(*protocol.Client).readNetPackets") == 1 && arg("go:(*protocol.Client).readNetPackets", 0, 0, "*protocol.Client") == c
  ensures [C11] nothing else is started: ncalls("go:*") == ite(err == nil, 2, 0)
  ensures [C11 C24] the client is complete when its goroutines start: ncalls("go:*") >= 1 ==> c.Tags == after("go:*", 0, c.Tags) && c.ToNet == after("go:*", 0, c.ToNet) && c.FromNet == after("go:*", 0, c.FromNet) && c.FromClient == after("go:*", 0, c.FromClient) && c.FromServer == after("go:*", 0, c.FromServer) && c.done == after("go:*", 0, c.done) && same(c.RPC, after("go:*", 0, c.RPC))
  ensures [C11] the pool holds all tags without blocking: err == nil ==> chancap(c.Tags) >= 65534
  ensures [C11] the queues exist: err == nil ==> c.Tags != nil && c.FromClient != nil && c.FromServer != nil
  ensures [C24] the end can be announced: err == nil ==> c.done != nil
  ensures [C13] fids start low: err == nil ==> c.FID <= 1

contract (*protocol.Client).GetTag(c) (t)
  requires c != nil && c.Tags != nil
  nopanic [C11]
  on recv:protocol.Tag(ch, x protocol.Tag, ok)
    assert [C11] the tag is taken from the pool: ch == c.Tags
  ensures [C11] it takes one tag: ncalls("recv:protocol.Tag") == 1 && t == arg("recv:protocol.Tag", 0, 1, "protocol.Tag")
  ensures [C11] it returns none: ncalls("send:*") == 0

# ---- C13 ----

contract (*protocol.Client).GetFID(c) (f)
  requires c != nil
  nopanic [C13]
  ensures [C13] the counter is advanced by one, atomically: ncalls("sync/atomic.AddUint64") == 1 && arg("sync/atomic.AddUint64", 0, 1, "uint64") == 1
  ensures [C13] it is this client's counter: ncalls("sync/atomic.AddUint64") == 1 ==> arg("sync/atomic.AddUint64", 0, 0, "*uint64") == addr(c.FID)
  ensures [C13] the fid is the new value of the counter: ncalls("sync/atomic.AddUint64") == 1 ==> f == protocol.FID(ret("sync/atomic.AddUint64", 0, 0, "uint64"))
  ensures [C13] the counter is not touched otherwise: c.FID == after("sync/atomic.AddUint64", 0, c.FID)

# ---- C14 ----

ghost elsewhere bool  # the client was found dead: writing has failed
ghost closedN int     # how often the connection has been closed
ghost closedQ int     # how often the queue of replies has been closed

contract (*protocol.Client).readNetPackets(c)
  requires c != nil && c.FromServer != nil
  requires !ended && mpos == pos(c.FromNet) && closedN == 0 && closedQ == 0
  nopanic [C14]
  inv position: mpos == pos(c.FromNet) && mpos <= len(input(c.FromNet))
  inv open: closedN == 0 && closedQ == 0
  inv no further reading after an error: !ended
  on field:protocol.Client.Dead(p)
    havoc addr(c.Dead)
    set elsewhere = elsewhere || c.Dead
  on readend(r, failed bool)
    set ended = ended || failed
  on wait()
    assert [C24] nothing is waited for but the delivery loop, and that not after the end: !ended
  on dyn:protocol.Tracer(s)
    assume true
  on send:*protocol.RPCReply(ch, r *protocol.RPCReply)
    assert [C14] messages are passed on to the delivery loop: ch == c.FromServer && closedQ == 0
    assert [C14] a complete header has arrived: mpos + 7 <= len(input(c.FromNet))
    assert [C14] the size field is at least 7: csize(c, mpos) >= 7
    assert [C14] the message has arrived completely: mpos + csize(c, mpos) <= len(input(c.FromNet))
    assert [C14] the bytes are the message's own: r != nil && same(r.b, input(c.FromNet)[mpos : mpos+csize(c, mpos)])
    assert [C14] messages do not share memory: freshsince("send:*protocol.RPCReply", r) && freshsince("send:*protocol.RPCReply", r.b)
    set mpos = mpos + csize(c, mpos)
  on (io.Closer).Close(w) (e)
    assert [C14] it is the connection that is closed: w == c.FromNet
    set closedN = closedN + 1
  on close:*protocol.RPCReply(ch)
    assert [C14] the queue is closed once: ch == c.FromServer && closedQ == 0
    set closedQ = closedQ + 1
  ensures [C14] it stops only at the end of input, a bad size or when writing has failed: c.FromNet == nil || elsewhere || mpos + 7 > len(input(c.FromNet))
    || csize(c, mpos) < 7 || mpos + csize(c, mpos) > len(input(c.FromNet))
  ensures [C14] the client is marked dead: c.Dead
  ensures [C14] the connection is closed: c.FromNet == nil || closedN == 1
  ensures [C14 C24] the delivery loop is told: closedQ == 1

def csize(c, p) = int(le32(input(c.FromNet), p))

# ---- C12: one call ----
#   $T request kind  $R reply kind  $n its type byte  $args arguments  $rets results

def sent = arg("send:*protocol.RPCCall", 0, 1, "*protocol.RPCCall")
def reply = arg("recv:[]byte", 0, 1, "[]byte")

def replied = ncalls("recv:[]byte") == 1
def gone = ended || c.Dead

template call T R n args rets
  requires c != nil && c.FromClient != nil && c.done != nil && !ended && fits("$T" $args)
  nopanic [C12]
  on wait()
    assert [C24] the call waits no longer than the connection lasts: offers(c.done)
  on recv:struct{}(ch, v, ok bool)
    assert [C24] the end is awaited where it is announced: ch == c.done
    assume nothing is sent there: !ok
    set ended = true
  on dyn:protocol.Tracer(s)
    assume true
  on send:*protocol.RPCCall(ch, r *protocol.RPCCall)
    assert [C12] the request goes to this client: ch == c.FromClient
    assert [C12] the request is the encoding of the arguments: r != nil && layout("$T", r.b, protocol.Tag(le16(r.b, 5)) $args)
    assert [C12] the reply comes back to this call: r.Reply != nil && fresh(r.Reply) && fresh(r) && fresh(r.b)
  on recv:[]byte(ch, b []byte, ok)
    open
    assert [C12] the call waits for its own reply: ncalls("send:*protocol.RPCCall") == 1 && ch == sent.Reply
    assume what the delivery loop puts in: len(b) >= 7
  ensures [C12] one request is sent: ncalls("send:*protocol.RPCCall") == 1 || ncalls("send:*protocol.RPCCall") == 0 && gone
  ensures [C12] one reply is awaited: ncalls("recv:[]byte") == 1 || ncalls("recv:[]byte") == 0 && gone
  ensures [C24] a call without a reply fails: ncalls("recv:[]byte") == 0 ==> err != nil
  ensures [C12] a well-formed reply gives no error: replied && reply[4] == $n && bodyvalid("$R", reply[5:]) ==> err == nil
  ensures [C12] a well-formed reply gives its values: replied && reply[4] == $n && bodyvalid("$R", reply[5:]) ==> decoded("$R", reply[5:] $rets)
  ensures [C12] an error reply gives its text: replied && reply[4] == 107 && bodyvalid("Rerror", reply[5:]) ==> err != nil && decoded("Rerror", reply[5:], errtext(err))
  ensures [C12] any other reply gives an error: replied && !(reply[4] == $n && bodyvalid("$R", reply[5:])) ==> err != nil
end

contract (*protocol.Client).CallTversion(c, m, v) (rm, rv, err)
  include call | Tversion | Rversion | 101 | , m, v | , rm, rv

contract (*protocol.Client).CallTattach(c, f, af, u, n) (q, err)
  include call | Tattach | Rattach | 105 | , f, af, u, n | , q

contract (*protocol.Client).CallTflush(c, t) (err)
  include call | Tflush | Rflush | 109 | , t | 

contract (*protocol.Client).CallTwalk(c, f, nf, p) (q, err)
  include call | Twalk | Rwalk | 111 | , f, nf, p | , q

contract (*protocol.Client).CallTopen(c, f, m) (q, io, err)
  include call | Topen | Ropen | 113 | , f, m | , q, io

contract (*protocol.Client).CallTcreate(c, f, n, p, m) (q, io, err)
  include call | Tcreate | Rcreate | 115 | , f, n, p, m | , q, io

contract (*protocol.Client).CallTstat(c, f) (d, err)
  include call | Tstat | Rstat | 125 | , f | , d

contract (*protocol.Client).CallTwstat(c, f, d0) (err)
  include call | Twstat | Rwstat | 127 | , f, d0 | 

contract (*protocol.Client).CallTclunk(c, f) (err)
  include call | Tclunk | Rclunk | 121 | , f | 

contract (*protocol.Client).CallTremove(c, f) (err)
  include call | Tremove | Rremove | 123 | , f | 

contract (*protocol.Client).CallTread(c, f, o, n) (d, err)
  include call | Tread | Rread | 117 | , f, o, n | , d

contract (*protocol.Client).CallTwrite(c, f, o, d0) (n, err)
  include call | Twrite | Rwrite | 119 | , f, o, d0 | , n

# ---- frames: the contracts above cover every access ----

users [C11] protocol.Client.Tags : protocol.NewClient, (*protocol.Client).IO, (*protocol.Client).GetTag, (*protocol.Client).String
users [C11] protocol.Client.RPC : protocol.NewClient, (*protocol.Client).IO
users [C11 C12 C14] protocol.Client.FromServer : protocol.NewClient, (*protocol.Client).IO, (*protocol.Client).readNetPackets
users [C11 C12] protocol.Client.FromClient : protocol.NewClient, (*protocol.Client).IO, (*protocol.Client).CallT*
users [C11 C12 C24] protocol.Client.done : protocol.NewClient, (*protocol.Client).IO, (*protocol.Client).CallT*
users [C11 C12] protocol.RPCCall.b : (*protocol.Client).IO, (*protocol.Client).CallT*
users [C11 C12] protocol.RPCCall.Reply : (*protocol.Client).IO, (*protocol.Client).CallT*
users [C11 C14] protocol.RPCReply.b : (*protocol.Client).IO, (*protocol.Client).readNetPackets
writers [C13] protocol.Client.FID : protocol.NewClient, (*protocol.Client).GetFID

contract (*protocol.Client).String(c) (s)
  requires c != nil
  ensures [C11] describing a client takes and returns no tag: ncalls("recv:*") == 0 && ncalls("send:*") == 0 && ncalls("go:*") == 0
