# The server side: one request (Dispatch and the Srv* handlers it calls, which
# are inlined), one connection (serve), the listener.

# A request of a known type: what reaches the file server and what comes back.
#   $T request kind  $n its type byte  $R reply kind  $op operation
#   $args arguments of the call  $rets its results
template handler T n R op args rets
  ensures [C07] $T, valid body reaches the file server: t == $n && (t == 100 || old(s.Versioned)) && bodyvalid("$T", old(bytes(b)))
    ==> ncalls("(protocol.NineServer)*") == 1 && ncalls("(protocol.NineServer).$op") == 1
  ensures [C05] $T, not refused after Tversion: t == $n && (t == 100 || old(s.Versioned)) && bodyvalid("$T", old(bytes(b)))
    ==> ncalls("(protocol.NineServer).$op") == 1
  ensures [C07] $T, operation called only for this type: ncalls("(protocol.NineServer).$op") >= 1 ==> t == $n
  ensures [C07] $T, malformed body is answered with an error only: t == $n && !bodyvalid("$T", old(bytes(b)))
    ==> ncalls("(protocol.NineServer)*") == 0 && ismsg("Rerror", bytes(b))
  ensures [C07] $T, arguments are the decoded fields: t == $n && ncalls("(protocol.NineServer).$op") == 1
    ==> bodyvalid("$T", old(bytes(b))) && before("(protocol.NineServer).$op", 0, decoded("$T", old(bytes(b)) $args))
  ensures [C07] $T, the call goes to this server: ncalls("(protocol.NineServer).$op") == 1
    ==> arg("(protocol.NineServer).$op", 0, 0, "protocol.NineServer") == old(s.NS)
  ensures [C07] $T, reply carries the results: t == $n && ncalls("(protocol.NineServer).$op") == 1
    ==> (nserr("$op") == nil ==> layout("$R", bytes(b), le16(old(bytes(b)), 0) $rets))
  ensures [C07] $T, reply carries the error: t == $n && ncalls("(protocol.NineServer).$op") == 1
    ==> (nserr("$op") != nil && len(errtext(nserr("$op"))) <= 65535 ==> layout("Rerror", bytes(b), le16(old(bytes(b)), 0), errtext(nserr("$op"))))
  ensures [C06] $T, reply type: t == $n ==> ismsg("$R", bytes(b)) || ismsg("Rerror", bytes(b))
end

contract protocol.Dispatch(s, b, t) (err)
  requires s != nil && b != nil && s.NS != nil
  requires len(bytes(b)) >= 2
  nopanic [C06]
  on (protocol.NineServer).Rversion(ns, m, v) (m2, v2, e)
    assume e == nil ==> fits("Rversion", m2, v2)
  on (protocol.NineServer).Rwalk(ns, f, n, p) (q, e)
    assume e == nil ==> fits("Rwalk", q)
  on (protocol.NineServer).Rstat(ns, f) (d, e)
    assume e == nil ==> fits("Rstat", d) && dataref(d) != bufref(b)
  on (protocol.NineServer).Rread(ns, f, o, c) (d, e)
    assume e == nil ==> fits("Rread", d) && dataref(d) != bufref(b)
  ensures [C05] before Tversion nothing is invoked: t != 100 && !old(s.Versioned) ==> ncalls("(protocol.NineServer)*") == 0
  ensures [C05] before Tversion every request is refused: t != 100 && !old(s.Versioned) ==> ismsg("Rerror", bytes(b))
  ensures [C05] the refusal has the tag: t != 100 && !old(s.Versioned) ==> le16(bytes(b), 5) == le16(old(bytes(b)), 0)
  ensures [C05] Tversion starts the session, nothing else does: s.Versioned == (old(s.Versioned) || t == 100)
  ensures [C06] the reply has the tag of the request: le16(bytes(b), 5) == le16(old(bytes(b)), 0)
  ensures [C06] unsupported types are refused: t != 100 && t != 104 && t != 108 && t != 110 && t != 112 && t != 114 && t != 116 && t != 118
     && t != 120 && t != 122 && t != 124 && t != 126 ==> ismsg("Rerror", bytes(b)) && ncalls("(protocol.NineServer)*") == 0
  ensures [C06] every request is answered: ismsg("R", bytes(b))
  include handler | Tversion | 100 | Rversion | Rversion | , nsarg("Rversion", 1, "protocol.MaxSize"), nsarg("Rversion", 2, "string") | , nsret("Rversion", 0, "protocol.MaxSize"), nsret("Rversion", 1, "string")
  include handler | Tattach | 104 | Rattach | Rattach | , nsarg("Rattach", 1, "protocol.FID"), nsarg("Rattach", 2, "protocol.FID"), nsarg("Rattach", 3, "string"), nsarg("Rattach", 4, "string") | , nsret("Rattach", 0, "protocol.QID")
  include handler | Tflush | 108 | Rflush | Rflush | , nsarg("Rflush", 1, "protocol.Tag") |
  include handler | Twalk | 110 | Rwalk | Rwalk | , nsarg("Rwalk", 1, "protocol.FID"), nsarg("Rwalk", 2, "protocol.FID"), nsarg("Rwalk", 3, "[]string") | , nsret("Rwalk", 0, "[]protocol.QID")
  include handler | Topen | 112 | Ropen | Ropen | , nsarg("Ropen", 1, "protocol.FID"), nsarg("Ropen", 2, "protocol.Mode") | , nsret("Ropen", 0, "protocol.QID"), nsret("Ropen", 1, "protocol.MaxSize")
  include handler | Tcreate | 114 | Rcreate | Rcreate | , nsarg("Rcreate", 1, "protocol.FID"), nsarg("Rcreate", 2, "string"), nsarg("Rcreate", 3, "protocol.Perm"), nsarg("Rcreate", 4, "protocol.Mode") | , nsret("Rcreate", 0, "protocol.QID"), nsret("Rcreate", 1, "protocol.MaxSize")
  include handler | Tread | 116 | Rread | Rread | , nsarg("Rread", 1, "protocol.FID"), nsarg("Rread", 2, "protocol.Offset"), nsarg("Rread", 3, "protocol.Count") | , nsret("Rread", 0, "[]byte")
  include handler | Twrite | 118 | Rwrite | Rwrite | , nsarg("Rwrite", 1, "protocol.FID"), nsarg("Rwrite", 2, "protocol.Offset"), nsarg("Rwrite", 3, "[]byte") | , nsret("Rwrite", 0, "protocol.Count")
  include handler | Tclunk | 120 | Rclunk | Rclunk | , nsarg("Rclunk", 1, "protocol.FID") |
  include handler | Tremove | 122 | Rremove | Rremove | , nsarg("Rremove", 1, "protocol.FID") |
  include handler | Tstat | 124 | Rstat | Rstat | , nsarg("Rstat", 1, "protocol.FID") | , nsret("Rstat", 0, "[]byte")
  include handler | Twstat | 126 | Rwstat | Rwstat | , nsarg("Rwstat", 1, "protocol.FID"), nsarg("Rwstat", 2, "[]byte") |
