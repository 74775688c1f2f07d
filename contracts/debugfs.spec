# The debugging layer (C22): each of its twelve operations calls the same
# operation of the wrapped file server exactly once, with the arguments it was
# given, and returns what that call returned.

template wrap op args
  requires d != nil && d.FileServer != nil
  nopanic [C22]
  ensures [C22] exactly one operation is invoked: ncalls("(protocol.NineServer)*") == 1
  ensures [C22] it is the same operation: ncalls("(protocol.NineServer).$op") == 1
  ensures [C22] of the wrapped file server: ncalls("(protocol.NineServer).$op") == 1 ==> arg("(protocol.NineServer).$op", 0, 0, "protocol.NineServer") == old(d.FileServer)
  ensures [C22] the wrapped file server stays the same: d.FileServer == old(d.FileServer)
  ensures [C22] nothing else is done to files: ncalls("path:*") == 0 && ncalls("(*os.File).*") == 0
end

template bytesarg op i name
  ensures [C22] argument $i is passed on: ncalls("(protocol.NineServer).$op") == 1 ==> same(before("(protocol.NineServer).$op", 0, str(nsarg("$op", $i, "[]byte"))), old(str($name)))
end
template arg op i name type
  ensures [C22] argument $i is passed on: ncalls("(protocol.NineServer).$op") == 1 ==> nsarg("$op", $i, "$type") == old($name)
end
template ret op i name type
  ensures [C22] result $i is passed back: ncalls("(protocol.NineServer).$op") == 1 ==> $name == nsret("$op", $i, "$type")
end
template reterr op
  ensures [C22] the error is passed back: ncalls("(protocol.NineServer).$op") == 1 ==> err == nserr("$op")
end
template retqid op i
  ensures [C22] result $i is passed back: ncalls("(protocol.NineServer).$op") == 1 ==> q.Type == nsret("$op", $i, "protocol.QID").Type && q.Version == nsret("$op", $i, "protocol.QID").Version && q.Path == nsret("$op", $i, "protocol.QID").Path
end
template retbytes op i name
  ensures [C22] result $i is passed back: ncalls("(protocol.NineServer).$op") == 1 ==> same(str($name), after("(protocol.NineServer).$op", 0, str(nsret("$op", $i, "[]byte"))))
    && ($name == nil) == (nsret("$op", $i, "[]byte") == nil)
end

contract (*debugfs.DebugFileServer).Rversion(d, msize, version) (m, v, err)
  include wrap | Rversion
  include arg | Rversion | 1 | msize | protocol.MaxSize
  include arg | Rversion | 2 | version | string
  include ret | Rversion | 0 | m | protocol.MaxSize
  include ret | Rversion | 1 | v | string
  include reterr | Rversion

contract (*debugfs.DebugFileServer).Rattach(d, fid, afid, uname, aname) (q, err)
  include wrap | Rattach
  include arg | Rattach | 1 | fid | protocol.FID
  include arg | Rattach | 2 | afid | protocol.FID
  include arg | Rattach | 3 | uname | string
  include arg | Rattach | 4 | aname | string
  include retqid | Rattach | 0
  include reterr | Rattach

contract (*debugfs.DebugFileServer).Rflush(d, o) (err)
  include wrap | Rflush
  include arg | Rflush | 1 | o | protocol.Tag
  include reterr | Rflush

contract (*debugfs.DebugFileServer).Rwalk(d, fid, newfid, paths) (q, err)
  include wrap | Rwalk
  include arg | Rwalk | 1 | fid | protocol.FID
  include arg | Rwalk | 2 | newfid | protocol.FID
  ensures [C22] argument 3 is passed on: ncalls("(protocol.NineServer).Rwalk") == 1 ==> len(wargs) == len(paths)
    && before("(protocol.NineServer).Rwalk", 0, forall i int :: 0 <= i && i < len(paths) ==> wargs[i] == old(paths[i]))
  ensures [C22] result 0 is passed back: ncalls("(protocol.NineServer).Rwalk") == 1 ==> len(q) == len(wrets) && (q == nil) == (wrets == nil)
    && (forall i int :: 0 <= i && i < len(q) ==> q[i].Type == after("(protocol.NineServer).Rwalk", 0, wrets[i].Type)
       && q[i].Version == after("(protocol.NineServer).Rwalk", 0, wrets[i].Version) && q[i].Path == after("(protocol.NineServer).Rwalk", 0, wrets[i].Path))
  include reterr | Rwalk

def wargs = nsarg("Rwalk", 3, "[]string")
def wrets = nsret("Rwalk", 0, "[]protocol.QID")

contract (*debugfs.DebugFileServer).Ropen(d, fid, mode) (q, iounit, err)
  include wrap | Ropen
  include arg | Ropen | 1 | fid | protocol.FID
  include arg | Ropen | 2 | mode | protocol.Mode
  include retqid | Ropen | 0
  include ret | Ropen | 1 | iounit | protocol.MaxSize
  include reterr | Ropen

contract (*debugfs.DebugFileServer).Rcreate(d, fid, name, perm, mode) (q, iounit, err)
  include wrap | Rcreate
  include arg | Rcreate | 1 | fid | protocol.FID
  include arg | Rcreate | 2 | name | string
  include arg | Rcreate | 3 | perm | protocol.Perm
  include arg | Rcreate | 4 | mode | protocol.Mode
  include retqid | Rcreate | 0
  include ret | Rcreate | 1 | iounit | protocol.MaxSize
  include reterr | Rcreate

contract (*debugfs.DebugFileServer).Rclunk(d, fid) (err)
  include wrap | Rclunk
  include arg | Rclunk | 1 | fid | protocol.FID
  include reterr | Rclunk

contract (*debugfs.DebugFileServer).Rstat(d, fid) (b, err)
  include wrap | Rstat
  include arg | Rstat | 1 | fid | protocol.FID
  include retbytes | Rstat | 0 | b
  include reterr | Rstat

contract (*debugfs.DebugFileServer).Rwstat(d, fid, b) (err)
  include wrap | Rwstat
  include arg | Rwstat | 1 | fid | protocol.FID
  include bytesarg | Rwstat | 2 | b
  include reterr | Rwstat

contract (*debugfs.DebugFileServer).Rremove(d, fid) (err)
  include wrap | Rremove
  include arg | Rremove | 1 | fid | protocol.FID
  include reterr | Rremove

contract (*debugfs.DebugFileServer).Rread(d, fid, o, c) (b, err)
  include wrap | Rread
  include arg | Rread | 1 | fid | protocol.FID
  include arg | Rread | 2 | o | protocol.Offset
  include arg | Rread | 3 | c | protocol.Count
  include retbytes | Rread | 0 | b
  include reterr | Rread

contract (*debugfs.DebugFileServer).Rwrite(d, fid, o, b) (n, err)
  include wrap | Rwrite
  include arg | Rwrite | 1 | fid | protocol.FID
  include arg | Rwrite | 2 | o | protocol.Offset
  include bytesarg | Rwrite | 3 | b
  include ret | Rwrite | 0 | n | protocol.Count
  include reterr | Rwrite
