# One connection: framing (C08), its end (C09); accepting connections (C09);
# the listener (C10).

ghost mpos int        # where in the input the next message starts
ghost pending bool    # a request has been handled and not been answered
ghost werr bool       # writing a reply has failed
ghost rerr bool       # reading has failed
ghost closed int      # how often the connection has been closed

def msize(c, p) = int(le32(input(c.rwc), p))

contract (*protocol.conn).serve(c)
  requires c != nil && c.listener != nil && c.server != nil && c.server.D != nil && !c.dead
  requires mpos == pos(c.rwc) && !pending && !werr && !rerr && closed == 0
  nopanic [C08]
  on readend(r, failed bool)
    set rerr = rerr || failed
  inv no reading after an error: !rerr
  inv position: mpos == pos(c.rwc) && mpos <= len(input(c.rwc))
  inv answered: !pending
  inv no write error: !werr
  inv open: closed == 0
  on (net.Conn).RemoteAddr(w) (a)
    assume a != nil
  on dyn:protocol.Dispatcher(s, b *bytes.Buffer, t protocol.MType) (e)
    assert [C08] the previous request has been answered: !pending && !werr
    assert [C08] a complete header has arrived: mpos + 7 <= len(input(c.rwc))
    assert [C08] the size field is at least 7: msize(c, mpos) >= 7
    assert [C08] the message has arrived completely: mpos + msize(c, mpos) <= len(input(c.rwc))
    assert [C08] the type is the message's own: t == protocol.MType(input(c.rwc)[mpos+4])
    assert [C08] the bytes are the message's own: same(bytes(b), input(c.rwc)[mpos+5 : mpos+msize(c, mpos)])
    assert [C08] the request goes to this connection's session: s == c.server
    assert [C09] requests are handled while the connection is open: closed == 0
    maypanic
    havoc b
    set mpos = mpos + msize(c, mpos)
    set pending = true
  on (net.Conn).Write(w, d) (n, e error)
    assert [C08] a reply is written only after a request and once: pending
    assert [C08] the reply goes to this connection: w == c.rwc
    assert [C08] the reply is written completely and unchanged: same(d, after("dyn:protocol.Dispatcher", -1, bytes(arg("dyn:protocol.Dispatcher", -1, 1, "*bytes.Buffer"))))
    assert [C09] replies are written while the connection is open: closed == 0
    set pending = false
    set werr = e != nil
  on (net.Conn).Close(w) (e)
    assert [C09] it is this connection that is closed: w == c.rwc
    set closed = closed + 1
  ensures [C08] every handled request was answered: !pending
  ensures [C08] serving stops only at the end of input, a bad size or a write error: c.rwc == nil || werr || mpos + 7 > len(input(c.rwc))
    || msize(c, mpos) < 7 || mpos + msize(c, mpos) > len(input(c.rwc))
  ensures [C09] the connection is closed: c.rwc == nil || closed == 1
  onpanic [C09] the connection is closed also when the file server panics: c.rwc == nil || closed == 1

contract (*protocol.Listener).Accept(l, conn) (err)
  requires l != nil && l.nsCreator != nil && conn != nil
  nopanic [C09]
  on dyn:protocol.NsCreator() (ns)
    assume ns != nil
  on go:(*protocol.conn).serve(s *protocol.conn)
    check [C09] the connection is complete when it starts being served: s.rwc == conn && s.listener == l && s.server != nil && !s.dead
      && isfunc(s.server.D, "protocol.Dispatch") && !s.server.Versioned && s.server.NS == ret("dyn:protocol.NsCreator", 0, 0, "protocol.NineServer")
  ensures [C09] the connection is served exactly once: err == nil ==> ncalls("go:(*protocol.conn).serve") == 1
  ensures [C09] a refused connection is not served: err != nil ==> ncalls("go:*") == 0
  ensures [C09] it does not fail: err == nil
  ensures [C09] nothing else is started: ncalls("go:*") <= 1
  ensures [C09] it is this connection that is served: ncalls("go:(*protocol.conn).serve") == 1 ==> served.rwc == conn
  ensures [C09] exactly one file server is created: ncalls("go:(*protocol.conn).serve") == 1 ==> ncalls("dyn:protocol.NsCreator") == 1
  ensures [C09] the file server is the one created for it: ncalls("go:(*protocol.conn).serve") == 1
    ==> served.server.NS == ret("dyn:protocol.NsCreator", 0, 0, "protocol.NineServer")
  ensures [C09] the session is new: ncalls("go:(*protocol.conn).serve") == 1 ==> fresh(served) && fresh(served.server)
  ensures [C09] the session has not negotiated a version: ncalls("go:(*protocol.conn).serve") == 1 ==> !served.server.Versioned && !served.dead
  ensures [C09] requests are dispatched by Dispatch: ncalls("go:(*protocol.conn).serve") == 1 ==> isfunc(served.server.D, "protocol.Dispatch")
  ensures [C09] what serve requires holds: ncalls("go:(*protocol.conn).serve") == 1 ==> served.listener == l && served.server.D != nil

def served = arg("go:(*protocol.conn).serve", 0, 0, "*protocol.conn")

# ---- C10 ----

ghost closedL [net.Listener]bool  # which listeners have been closed
ghost firstErr error              # the first error of closing one
ghost held bool                   # l.mu is held
ghost tracked bool                # ln was in the table when the lock was last released
ghost lockErr bool

template locked
  on (*sync.Mutex).Lock(m)
    assert [C10] the lock is not taken twice: !held
    havoc l.listeners
    assume no nil listener is tracked: !has(l.listeners, nil)
    set held = true
  on (*sync.Mutex).Unlock(m)
    assert [C10] only a held lock is released: held
    assert [C10] no nil listener is tracked: !has(l.listeners, nil)
    set held = false
  on field:protocol.Listener.listeners(p)
    assert [C10] the table is used under the lock: held
end

contract (*protocol.Listener).Shutdown(l) (err)
  requires l != nil && !held && firstErr == nil
  requires forall x net.Listener :: !closedL[x]
  nopanic [C10]
  include locked
  on (net.Listener).Close(ln net.Listener) (e error)
    assert [C10] only served listeners are closed: after("(*sync.Mutex).Lock", 0, has(l.listeners, ln))
    assert [C10] each is closed once: !closedL[ln]
    set closedL[ln] = true
    set firstErr = ite(firstErr == nil, e, firstErr)
  inv closed so far: forall x net.Listener :: seen(x) ==> closedL[x]
  inv only those: forall x net.Listener :: closedL[x] ==> seen(x)
  inv forgotten so far: forall x net.Listener :: seen(x) ==> !has(l.listeners, x)
  inv were in the table: forall x net.Listener :: seen(x) ==> entry(has(l.listeners, x))
  inv the others are still there: forall x net.Listener :: !seen(x) && entry(has(l.listeners, x)) ==> has(l.listeners, x)
  inv nothing is added: forall x net.Listener :: has(l.listeners, x) ==> entry(has(l.listeners, x))
  inv first error: phi_error == firstErr
  ensures [C10] every listener being served is closed: ncalls("(*sync.Mutex).Lock") == 1 &&
    (forall x net.Listener :: after("(*sync.Mutex).Lock", 0, has(l.listeners, x)) ==> closedL[x])
  ensures [C10] all are forgotten: forall x net.Listener :: !has(l.listeners, x)
  ensures [C10] the first close error is returned: err == firstErr
  ensures [C10] the lock is released: !held

contract (*protocol.Listener).trackListener(l, ln, add)
  requires l != nil && ln != nil && !held
  nopanic [C10]
  include locked
  on (*sync.Mutex).Unlock(m)
    set tracked = has(l.listeners, ln)
  ensures [C10] the listener is tracked from here on exactly if it was added: tracked == add
  ensures [C10] other listeners are not affected: forall x net.Listener :: x != ln ==> (has(l.listeners, x) <==> after("(*sync.Mutex).Lock", 0, has(l.listeners, x)))
  ensures [C10] the lock is released: !held

ghost gotConn bool
ghost lastConn net.Conn
ghost accErr error
ghost temp bool
ghost asked bool
ghost slept bool
ghost lastSleep time.Duration
ghost lnClosed bool
ghost lnDown bool     # the listener or its tracking has ended

contract (*protocol.Listener).Serve(l, ln) (err)
  requires l != nil && l.nsCreator != nil && ln != nil && !held && !gotConn && accErr == nil && !slept && lastSleep == 0 && !temp && !lnClosed && !tracked
  nopanic [C10]
  include locked
  inv free: !held
  inv handed on: !gotConn
  inv retried: accErr == nil || temp && slept
  inv delay so far: lastSleep >= 0 && lastSleep <= 1000000000
  inv delay: phi_time_Duration == lastSleep
  inv serving: tracked && !lnClosed
  on (*sync.Mutex).Unlock(m)
    set tracked = has(l.listeners, ln)
  on dyn:protocol.NsCreator() (ns)
    assume ns != nil
  on (net.Listener).Accept(x net.Listener) (cn net.Conn, e error)
    assert [C10] connections are accepted from this listener: x == ln
    assert [C10] the listener is tracked while it is served: tracked
    assert [C10] the listener is open while it is served: !lnClosed
    assert [C10] every accepted connection has been handed on: !gotConn
    assert [C10] only temporary errors are retried, after a delay: accErr == nil || temp && slept
    assume (e == nil) == (cn != nil)
    set gotConn = e == nil
    set lastConn = cn
    set accErr = e
    set temp = false
    set asked = false
    set slept = false
    set lastSleep = ite(e == nil, 0, lastSleep)
  on (net.Error).Temporary(x) (r bool)
    set temp = r && x == accErr
    set asked = x == accErr
  on time.Sleep(d time.Duration)
    assert [C10] it waits only after temporary errors, once: accErr != nil && temp && !slept
    assert [C10] the delay starts at 5 ms, doubles and is at most 1 s: d == ite(lastSleep == 0, 5000000, ite(lastSleep * 2 > 1000000000, 1000000000, lastSleep * 2))
    set slept = true
    set lastSleep = d
  on go:(*protocol.conn).serve(c *protocol.conn)
    check [C10] only an accepted connection is served, once: gotConn && c.rwc == lastConn
    set gotConn = false
  on (net.Listener).Close(x net.Listener)
    assert [C10] it is this listener that is closed: x == ln
    set lnClosed = true
  ensures [C10] it returns the first permanent accept error: err != nil && err == accErr && !temp
  ensures [C10] an error is permanent if its type cannot tell or it says so: !implements(accErr, "net.Error") || asked
  ensures [C10] the listener is closed: lnClosed
  ensures [C10] the listener is no longer tracked: !tracked
  ensures [C10] the lock is released: !held

# ---- frames ----

users [C10] protocol.Listener.listeners : (*protocol.Listener).Shutdown, (*protocol.Listener).trackListener, (*protocol.Listener).Serve
writers [C05 C09] protocol.Server.Versioned : protocol.Dispatch
writers [C07 C09] protocol.Server.NS : (*protocol.Listener).Accept
writers [C08 C09] protocol.Server.D : (*protocol.Listener).Accept
writers [C08 C09] protocol.conn.server : (*protocol.Listener).Accept
writers [C08 C09] protocol.conn.rwc : (*protocol.Listener).Accept
writers [C08 C09] protocol.conn.dead : (*protocol.conn).serve, (*protocol.Listener).Accept

ghost optErr error

contract protocol.NewListener(nsCreator, opts) (l, err)
  requires nsCreator != nil && (forall i int :: 0 <= i && i < len(opts) ==> opts[i] != nil) && optErr == nil
  nopanic [C09]
  inv no option has failed: optErr == nil
  on dyn:protocol.ListenerOpt(x *protocol.Listener) (e error)
    havoc addr(x.Trace)
    set optErr = e
  ensures [C09] it fails only if an option does: optErr == nil ==> err == nil
  ensures [C09] the listener creates file servers as it was told: err == nil ==> l != nil && l.nsCreator == nsCreator
  ensures [C10] a new listener serves nothing: err == nil ==> (forall x net.Listener :: !has(l.listeners, x))

writers [C09] protocol.Listener.nsCreator : protocol.NewListener
