# The file server (package ufs): one FileServer serves one connection (C09), one
# request at a time (C08), so its operations are verified as running alone.
# Containment (C15), the fid table (C16), walk (C17), read and write (C18),
# wstat (C19), open, create and remove (C20), qids and stat entries (C21).

uf within(string, string) bool
uf join2(string, string) string
uf pathdir(string) string
uf fi.IsDir(os.FileInfo) bool
uf fi.Mode(os.FileInfo) os.FileMode
uf fi.ModTime(os.FileInfo) time.Time
uf fi.Size(os.FileInfo) int64
uf fi.Name(os.FileInfo) string
uf fi.Sys(os.FileInfo) any
uf time.Unix(time.Time) int64
uf time.UnixNano(time.Time) int64
uf timeat(int64, int64) time.Time

ghost fsheld bool              # e.mu is held
ghost touched bool             # the file system has been accessed
ghost closedF [*os.File]bool   # which handles have been closed
ghost statp string             # the last stat: path, result, error
ghost statfi os.FileInfo
ghost staterr error

def rootp(e) = join2(e.rootPath, "/")

# What holds between operations: every fid has an entry of its own whose path is
# in the exported tree and whose handle, if it has one, is open and its own.
def entryok(e, x) = has(e.files, x) ==> e.files[x] != nil && within(rootp(e), e.files[x].fullName) && (e.files[x].file != nil ==> !closedF[e.files[x].file])
def apart(e, x, y) = has(e.files, x) && has(e.files, y) && x != y ==> e.files[x] != e.files[y] && (e.files[x].file == nil || e.files[x].file != e.files[y].file)
def repr(e) = e.files != nil && (forall x protocol.FID :: entryok(e, x)) && (forall x protocol.FID :: forall y protocol.FID :: apart(e, x, y))

# Fid x stands for what it stood for before the operation.
def sameq(e, x) = e.files[x].QID.Type == old(e.files[x].QID.Type) && e.files[x].QID.Version == old(e.files[x].QID.Version) && e.files[x].QID.Path == old(e.files[x].QID.Path)
def same1(e, x) = has(e.files, x) == old(has(e.files, x)) && (has(e.files, x) ==> e.files[x].fullName == old(e.files[x].fullName) && sameq(e, x) && e.files[x].file == old(e.files[x].file))
def pend1(e, x) = old(has(e.files, x)) ==> len(e.files[x].oflow) == old(len(e.files[x].oflow)) && (len(e.files[x].oflow) > 0 ==> dataref(e.files[x].oflow) == old(dataref(e.files[x].oflow)))
def others(e, fid) = forall x protocol.FID :: x != fid ==> same1(e, x) && pend1(e, x)
def allsame(e) = forall x protocol.FID :: same1(e, x)

# A qid, a stat entry that describes the file.
def isqid(q, fi) = q.Type & 0x7d == 0 && (q.Type & 0x80 != 0 <==> fi.IsDir(fi)) && (q.Type & 2 != 0 <==> fi.Mode(fi) & 0x8000000 != 0)
  && q.Version == uint32(time.UnixNano(fi.ModTime(fi)) / 1000000)
  && (fi.Sys(fi) != nil ==> q.Path == unbox(fi.Sys(fi), "*syscall.Stat_t").Ino)
def isentry(d, fi) = isqid(d.QID, fi) && d.Mode == uint32(fi.Mode(fi) & 0x1ff) | ite(fi.IsDir(fi), uint32(0x80000000), uint32(0))
  && d.Mtime == uint32(time.Unix(fi.ModTime(fi))) && d.Length == uint64(fi.Size(fi)) && d.Name == fi.Name(fi)
def marshalled = arg("protocol.Marshaldir", 0, 1, "protocol.Dir")

def openflags(mode) = ite(mode & 3 == 1, 1, ite(mode & 3 == 2, 2, 0)) | ite(mode & 0x10 != 0, 0x200, 0)

template op
  requires e != nil && !fsheld && !touched && repr(e)
  requires ufs.user != nil && io.EOF != nil
  requires the user name is not absurdly long: len(*ufs.user) < 16384
  nopanic [C16]
  on (*sync.Mutex).Lock(m)
    assert [C16] the lock is not taken twice: !fsheld
    set fsheld = true
  on (*sync.Mutex).Unlock(m)
    assert [C16] only a held lock is released: fsheld
    set fsheld = false
  on (*sync.RWMutex).Lock(m)
    assert [C16] the lock is not taken twice: !fsheld
    set fsheld = true
  on (*sync.RWMutex).Unlock(m)
    assert [C16] only a held lock is released: fsheld
    set fsheld = false
  on (*sync.RWMutex).RLock(m)
    assert [C16] the lock is not taken twice: !fsheld
    set fsheld = true
  on (*sync.RWMutex).RUnlock(m)
    assert [C16] only a held lock is released: fsheld
    set fsheld = false
  on path:*(p string)
    assert [C15] the path is in the exported tree: within(rootp(e), p)
    set touched = true
  on os.Rename(p string, t string) (x error)
    assert [C15] the root is not renamed: p != rootp(e)
  on (*os.File).*(f *os.File)
    assert [C16] the handle is open: f != nil && !closedF[f]
    set touched = true
  on (*os.File).Close(f *os.File) (x error)
    set closedF[f] = true
  on os.OpenFile(p string, fl int, pm os.FileMode) (f *os.File, x error)
    assume a newly opened handle is not in use: f != nil ==> !closedF[f] && (forall x protocol.FID :: has(e.files, x) ==> e.files[x].file != f)
  on os.Stat(p string) (fi os.FileInfo, x error)
    set statp = p
    set statfi = fi
    set staterr = x
  on os.Lstat(p string) (fi os.FileInfo, x error)
    set statp = p
    set statfi = fi
    set staterr = x
  ensures [C15 C16] the fid table is in order: repr(e)
  ensures [C16] the lock is released: !fsheld
end

template onfid fid
  include op
  ensures [C16] an unused fid is refused: !old(has(e.files, $fid)) ==> err != nil
  ensures [C16] an unused fid touches nothing: !old(has(e.files, $fid)) ==> !touched && allsame(e)
end

contract (*ufs.FileServer).Rversion(e, msize, version) (m, v, err)
  include op
  ensures [C05] exactly 9P2000 is accepted: err == nil <==> version == "9P2000"
  ensures [C05] the version is confirmed: err == nil ==> m == msize && v == version
  ensures [C16] no fid changes: allsame(e) && !touched

contract (*ufs.FileServer).Rflush(e, o) (err)
  include op
  ensures [C16] no fid changes: allsame(e) && !touched
  ensures [C16] a flush succeeds: err == nil

contract (*ufs.FileServer).Rattach(e, fid, afid, uname, aname) (q, err)
  include op
  ensures [C16] a fid in use is not taken over: old(has(e.files, fid)) ==> err != nil
  ensures [C16] other fids are as before: others(e, fid)
  ensures [C16 C17] a failed attach changes no fid: err != nil ==> allsame(e)
  ensures [C17] the fid stands for the attached name in the exported root: err == nil ==> has(e.files, fid) && e.files[fid].fullName == join2(e.rootPath, join2("/", aname))
  ensures [C17] it is not open: err == nil ==> e.files[fid].file == nil && len(e.files[fid].oflow) == 0
  ensures [C17 C21] the qid is that of the file: err == nil ==> isqid(q, statfi) && isqid(e.files[fid].QID, statfi) && statp == e.files[fid].fullName && staterr == nil
  ensures [C17] an existing file can be attached: !old(has(e.files, fid)) && afid == protocol.NOFID && ncalls("os.Stat") == 1 && staterr == nil ==> err == nil
  ensures [C17] only a used fid, a name that does not exist or authentication makes it fail: err != nil ==> old(has(e.files, fid)) || afid != protocol.NOFID || touched && staterr != nil

ghost wn int                      # elements walked so far
ghost wp string                   # the path reached
ghost wfi [int]os.FileInfo        # what the walk found
ghost wstop bool                  # an element could not be reached

def walkstep(e, p, n) = ite(n == "..", ite(p == rootp(e), p, pathdir(p)), join2(p, join2("/", n)))
def qids = made("protocol.QID")

contract (*ufs.FileServer).Rwalk(e, fid, newfid, paths) (q, err)
  requires wn == 0 && !wstop && (has(e.files, fid) ==> wp == e.files[fid].fullName)
  include onfid | fid
  inv position: wn == k && !wstop
  inv path reached: phi_string == wp
  inv the path is in the tree: within(rootp(e), wp)
  inv qids so far: forall i int :: 0 <= i && i < wn ==> isqid(qids[i], wfi[i])
  on os.Lstat(p string) (fi os.FileInfo, x error)
    assert [C17] elements are looked up one after the other, up to the first failure: !wstop && wn < len(paths)
    assert [C17] each element is looked up in the one before: p == walkstep(e, wp, paths[wn])
    set wstop = x != nil
    set wfi[wn] = fi
    set wp = p
    set wn = ite(x == nil, wn + 1, wn)
  ensures [C16] newfid is not taken over: old(has(e.files, newfid)) && (newfid != fid || len(paths) == 0) && err == nil ==> len(q) < len(paths)
  ensures [C16] other fids are as before: others(e, newfid)
  ensures [C17] a failed walk changes no fid: err != nil ==> allsame(e)
  ensures [C17] an unreachable first element is an error: old(has(e.files, fid)) && len(paths) > 0 && wn == 0 ==> err != nil
  ensures [C17] an unreachable later element is no error: wstop && wn > 0 ==> err == nil
  ensures [C17] it stops early only when an element is unreachable: err == nil && wn < len(paths) ==> wstop
  ensures [C17] only that and used fids make it fail: err != nil ==> !old(has(e.files, fid)) || old(has(e.files, newfid)) && (newfid != fid || len(paths) == 0) || wstop && wn == 0
  ensures [C17] one qid for each element reached: err == nil ==> len(q) == wn
  ensures [C17 C21] they are the qids of these files, in order: err == nil ==> (forall i int :: 0 <= i && i < wn ==> isqid(q[i], wfi[i]))
  ensures [C17] an incomplete walk changes no fid: err == nil && wn < len(paths) ==> allsame(e)
  ensures [C17 C21] after a complete walk newfid stands for the last file: err == nil && wn == len(paths) && wn > 0
    ==> has(e.files, newfid) && e.files[newfid].fullName == wp && isqid(e.files[newfid].QID, wfi[wn-1])
  ensures [C17] newfid is not open: err == nil && wn == len(paths) ==> has(e.files, newfid) && e.files[newfid].file == nil && len(e.files[newfid].oflow) == 0
  ensures [C17] a walk of no names is a clone: err == nil && len(paths) == 0 ==> e.files[newfid].fullName == old(e.files[fid].fullName)
    && e.files[newfid].QID.Type == old(e.files[fid].QID.Type) && e.files[newfid].QID.Version == old(e.files[fid].QID.Version) && e.files[newfid].QID.Path == old(e.files[fid].QID.Path)

def opened = ret("os.OpenFile", 0, 0, "*os.File")
def openerr = ret("os.OpenFile", 0, 1, "error")

contract (*ufs.FileServer).Ropen(e, fid, mode) (q, iounit, err)
  include onfid | fid
  on os.OpenFile(p string, fl int, pm os.FileMode) (f *os.File, x error)
    assert [C20] the fid's file is opened: p == e.files[fid].fullName
    assert [C20] with the requested mode and nothing more: fl == openflags(mode)
  ensures [C16] other fids are as before: others(e, fid)
  ensures [C20] an open fid is refused: old(has(e.files, fid)) && old(e.files[fid].file) != nil ==> err != nil && !touched
  ensures [C20] on failure the fid is as before: err != nil ==> same1(e, fid)
  ensures [C20] success means that the file has been opened once: err == nil ==> ncalls("os.OpenFile") == 1 && ncalls("path:*") == 1 && openerr == nil
  ensures [C20] failure means that it was not: ncalls("os.OpenFile") == 1 ==> (openerr == nil ==> err == nil)
  ensures [C20] only that, and a fid that is open or not in use, makes it fail: err != nil ==> !used || opn != nil || ncalls("os.OpenFile") == 1
  ensures [C20] the fid has the handle: ncalls("os.OpenFile") >= 1 ==> (err == nil ==> has(e.files, fid) && e.files[fid].file != nil && e.files[fid].file == opened)
  ensures [C20] the fid's qid is returned: err == nil ==> q.Type == e.files[fid].QID.Type && q.Version == e.files[fid].QID.Version && q.Path == e.files[fid].QID.Path
  ensures [C20] the fid stands for the same file: err == nil ==> e.files[fid].fullName == old(e.files[fid].fullName) && sameq(e, fid)

ghost cname string     # the name to create
ghost cmade bool       # it has been created
ghost cerr bool        # creating it has failed

contract (*ufs.FileServer).Rcreate(e, fid, name, perm, mode) (q, iounit, err)
  requires !cmade && !cerr && (has(e.files, fid) ==> cname == join2(e.files[fid].fullName, join2("/", name)))
  include onfid | fid
  on os.Mkdir(p string, m os.FileMode) (x error)
    assert [C20] a directory is made only if one is requested, once: perm & 0x80000000 != 0 && !cmade && !cerr
    assert [C20] it is the named one in the fid's directory: p == cname
    assert [C20] it has the requested permission bits: m == os.FileMode(perm & 0x1ff)
    set cmade = x == nil
    set cerr = x != nil
  on os.OpenFile(p string, fl int, pm os.FileMode) (f *os.File, x error)
    assert [C20] a file is made only if one is requested, once: perm & 0x80000000 == 0 && !cmade && !cerr
    assert [C20] it is the named one in the fid's directory: p == cname
    assert [C20] it is created empty, and opened with the requested mode: fl == openflags(mode) | 0x40 | 0x200
    assert [C20] it has the requested permission bits: pm == os.FileMode(perm & 0x1ff)
    set cmade = x == nil
    set cerr = x != nil
  ensures [C16] other fids are as before: others(e, fid)
  ensures [C20] an open fid is refused: old(has(e.files, fid)) && old(e.files[fid].file) != nil ==> err != nil && !touched
  ensures [C20] on failure the fid is as before: err != nil ==> same1(e, fid)
  ensures [C20] nothing else is created: ncalls("path:os.Mkdir*") + ncalls("path:os.OpenFile") + ncalls("path:*") <= 3
  ensures [C20] success means that it has been created: err == nil ==> cmade
  ensures [C20] failure to create is reported: cerr ==> err != nil
  ensures [C20] a usable fid and name are tried: err != nil && used && opn == nil && cname != old(e.files[fid].fullName) ==> cerr || cmade && staterr != nil
  ensures [C20] the fid moves to the new file: err == nil ==> has(e.files, fid) && e.files[fid].fullName == cname
  ensures [C20] a new file is open: ncalls("os.OpenFile") >= 1 ==> (err == nil && perm & 0x80000000 == 0 ==> e.files[fid].file != nil && e.files[fid].file == opened)
  ensures [C20] a new directory is not: err == nil && perm & 0x80000000 != 0 ==> e.files[fid].file == nil
  ensures [C20 C21] its qid is returned: err == nil ==> statp == cname && staterr == nil && isqid(q, statfi) && isqid(e.files[fid].QID, statfi)
  ensures [C20] the fid's own name is not created: old(has(e.files, fid)) && cname == old(e.files[fid].fullName) ==> err != nil && !cmade

template free
  ensures [C16] exactly the fid is freed: !has(e.files, fid)
  ensures [C16] other fids are as before: others(e, fid)
  ensures [C16] its open file is closed once: old(has(e.files, fid)) && old(e.files[fid].file) != nil ==> ncalls("(*os.File).Close") == 1 && arg("(*os.File).Close", 0, 0, "*os.File") == old(e.files[fid].file)
  ensures [C16] no other file is closed: ncalls("(*os.File).Close") >= 1 ==> old(has(e.files, fid)) && arg("(*os.File).Close", 0, 0, "*os.File") == old(e.files[fid].file) && ncalls("(*os.File).Close") == 1
end

contract (*ufs.FileServer).Rclunk(e, fid) (err)
  include onfid | fid
  include free
  ensures [C16] clunk touches no file: ncalls("path:*") == 0
  ensures [C16] a used fid can be clunked: old(has(e.files, fid)) && old(e.files[fid].file) == nil ==> err == nil

contract (*ufs.FileServer).Rremove(e, fid) (err)
  include onfid | fid
  include free
  on path:*(p string)
    assert [C20] only the fid's file is touched: old(has(e.files, fid)) && p == old(e.files[fid].fullName)
  ensures [C20] the file is removed: old(has(e.files, fid)) ==> ncalls("os.Remove") == 1 && ncalls("path:*") == 1
  ensures [C20] failure is reported: ncalls("os.Remove") == 1 ==> (err == nil) == (ret("os.Remove", 0, 0, "error") == nil)

def opn = old(e.files[fid].file)
def used = old(has(e.files, fid))
def isdirfid = old(e.files[fid].QID.Type) & 0x80 != 0

contract (*ufs.FileServer).Rread(e, fid, o, c) (b, err)
  include onfid | fid
  nopanic [C16 C18]
  on path:*(p string)
    assert [C18] only the open handle is used: false
  on (*os.File).*(f *os.File)
    assert [C18] only the fid's handle is used: used && f == opn
  on (*os.File).ReadAt(f *os.File, d []byte, off int64) (n int, x error)
    assert [C18] files are read at the requested offset: off == int64(o) && !isdirfid
    assert [C18] as many bytes as requested are read: len(d) == int(c)
  on (*os.File).Seek(f *os.File, off int64, w int) (n int64, x error)
    assert [C18] a directory restarts at offset 0 only: isdirfid && o == 0 && off == 0 && w == 0 && ncalls("(*os.File).Seek") == 0
  on (*os.File).Readdir(f *os.File, n int) (fis []os.FileInfo, x error)
    assert [C18] one entry is read, after restarting if requested: isdirfid && n == 1 && ncalls("(*os.File).Readdir") == 0
      && (o == 0 ==> ncalls("(*os.File).Seek") == 1) && (o == 0 || old(len(e.files[fid].oflow)) == 0)
  ensures [C16] the fid is as before: same1(e, fid)
  ensures [C16] other fids are as before: others(e, fid)
  ensures [C18] a fid that is not open cannot be read: used && opn == nil ==> err != nil && !touched
  ensures [C18] never more than requested: err == nil ==> len(b) <= int(c)
  ensures [C18] negative counts are refused: c < 0 ==> err != nil
  ensures [C18] success means that the file was read: err == nil && !isdirfid ==> ncalls("(*os.File).ReadAt") == 1 && ncalls("(*os.File).*") == 1
  ensures [C18] an open file is read: used && opn != nil && !isdirfid && c >= 0 ==> ncalls("(*os.File).ReadAt") == 1
  ensures [C18] reading reports the error, except end of file: ncalls("(*os.File).ReadAt") == 1 ==> ((err == nil) == (readerr == nil || readerr == io.EOF))
  ensures [C18] exactly the bytes read are returned: err == nil && ncalls("(*os.File).ReadAt") == 1
    ==> same(b, after("(*os.File).ReadAt", 0, str(arg("(*os.File).ReadAt", 0, 1, "[]byte")))[0 : ret("(*os.File).ReadAt", 0, 0, "int")])

  ensures [C18] a directory read at 0 starts over: used && opn != nil && isdirfid && o == 0 && c >= 0 ==> ncalls("(*os.File).Seek") == 1
  ensures [C18] the kept entry comes next: used && opn != nil && isdirfid && o != 0 && c >= 0 && old(len(e.files[fid].oflow)) > 0 && old(len(e.files[fid].oflow)) <= int(c)
    ==> err == nil && ncalls("(*os.File).*") == 0 && same(b, old(str(e.files[fid].oflow))) && len(e.files[fid].oflow) == 0
  ensures [C18] it stays kept while it does not fit: used && opn != nil && isdirfid && o != 0 && c >= 0 && old(len(e.files[fid].oflow)) > int(c)
    ==> err != nil && ncalls("(*os.File).*") == 0 && same(str(e.files[fid].oflow), old(str(e.files[fid].oflow)))
  ensures [C18] a failed restart is reported: ncalls("(*os.File).Seek") == 1 ==> (ret("(*os.File).Seek", 0, 1, "error") != nil ==> err != nil)
  ensures [C18] an entry is read otherwise: used && opn != nil && isdirfid && err == nil && (o == 0 || old(len(e.files[fid].oflow)) == 0) ==> ncalls("(*os.File).Readdir") == 1
  ensures [C18] an open directory is read unless restarting it fails: used && opn != nil && isdirfid && c >= 0 && o != 0 && old(len(e.files[fid].oflow)) == 0 ==> ncalls("(*os.File).Readdir") == 1
  ensures [C18] and so is one that has been restarted: ncalls("(*os.File).Seek") == 1 ==> (ret("(*os.File).Seek", 0, 1, "error") == nil ==> ncalls("(*os.File).Readdir") == 1)
  ensures [C18] only an entry that does not fit is kept back: ncalls("protocol.Marshaldir") == 1 ==> (err != nil ==> len(e.files[fid].oflow) > int(c))
  ensures [C18] the end of the directory gives no bytes: ncalls("(*os.File).Readdir") == 1 ==> (direrr == io.EOF ==> err == nil && len(b) == 0)
  ensures [C18] failure to read a directory is reported: ncalls("(*os.File).Readdir") == 1 ==> (direrr != nil && direrr != io.EOF ==> err != nil)
  ensures [C18] an entry read is encoded: ncalls("(*os.File).Readdir") == 1 ==> (direrr == nil ==> ncalls("protocol.Marshaldir") == 1)
  ensures [C18] an entry that fits is returned whole: ncalls("protocol.Marshaldir") == 1 ==> (err == nil ==> dirlayout(b, marshalled) && len(e.files[fid].oflow) == 0)
  ensures [C18] an entry that does not fit is kept whole: ncalls("protocol.Marshaldir") == 1 ==> (err != nil ==> dirlayout(str(e.files[fid].oflow), marshalled) && len(e.files[fid].oflow) > int(c))
  ensures [C18 C21] the entry describes the file: ncalls("protocol.Marshaldir") == 1 ==> isentry(marshalled, ret("(*os.File).Readdir", 0, 0, "[]os.FileInfo")[0])

def readerr = ret("(*os.File).ReadAt", 0, 1, "error")
def direrr = ret("(*os.File).Readdir", 0, 1, "error")

contract (*ufs.FileServer).Rwrite(e, fid, o, b) (n, err)
  include onfid | fid
  nopanic [C16 C18]
  on path:*(p string)
    assert [C18] only the open handle is used: false
  on (*os.File).*(f *os.File)
    assert [C18] only the fid's handle is used: used && f == opn
  on (*os.File).WriteAt(f *os.File, d []byte, off int64) (w int, x error)
    assert [C18] the data is written at the requested offset: off == int64(o)
    assert [C18] exactly the given bytes are written: same(str(d), old(str(b)))
  ensures [C16] the fid is as before: same1(e, fid)
  ensures [C16] other fids are as before: others(e, fid)
  ensures [C18] a fid that is not open cannot be written: used && opn == nil ==> err != nil && !touched
  ensures [C18] the data is written once: used && opn != nil ==> ncalls("(*os.File).WriteAt") == 1 && ncalls("(*os.File).*") == 1
  ensures [C18] failure is reported: ncalls("(*os.File).WriteAt") == 1 ==> (err == nil) == (ret("(*os.File).WriteAt", 0, 1, "error") == nil)
  ensures [C18] the number of bytes written is reported: ncalls("(*os.File).WriteAt") == 1 ==> n == protocol.Count(ret("(*os.File).WriteAt", 0, 0, "int"))

contract (*ufs.FileServer).Rstat(e, fid) (b, err)
  include onfid | fid
  on path:*(p string)
    assert [C21] the fid's file is examined: used && p == old(e.files[fid].fullName)
  ensures [C16] no fid changes: allsame(e) && others(e, fid)
  ensures [C21] failure is reported: used && ncalls("os.Lstat") == 1 ==> (err == nil) == (staterr == nil)
  ensures [C21] only a file that cannot be examined makes it fail: err != nil ==> !used || touched && staterr != nil
  ensures [C21] success means that the file was examined: err == nil ==> ncalls("os.Lstat") == 1 && ncalls("protocol.Marshaldir") == 1
  ensures [C21] the encoding of the entry is returned: ncalls("protocol.Marshaldir") == 1 ==> (err == nil ==> dirlayout(b, marshalled))
  ensures [C21] the entry describes the file: ncalls("protocol.Marshaldir") == 1 ==> (err == nil ==> isentry(marshalled, statfi))

ghost curname string     # the name of the fid's file
ghost renames int
ghost chmods int
ghost truncs int
ghost chtimes int
ghost oserr bool         # a change has failed

def wdir(i) = field("dir", old(str(b)), i)
def wmode = wdir(3)
def watime = wdir(4)
def wmtime = wdir(5)
def wlength = wdir(6)
def wname = wdir(7)
def wvalid = dirvalid(old(str(b)))
def slashname = len(wname) > 0 && wname[0] == 47
def newname(e) = ite(slashname, join2(e.rootPath, join2("/", wname)), join2(pathdir(old(e.files[fid].fullName)), join2("/", wname)))

contract (*ufs.FileServer).Rwstat(e, fid, b) (err)
  requires has(e.files, fid) ==> curname == e.files[fid].fullName
  requires renames == 0 && chmods == 0 && truncs == 0 && chtimes == 0 && !oserr
  include onfid | fid
  on os.Chmod(p string, m os.FileMode) (x error)
    assert [C19] the mode is changed only if requested, once: wvalid && wmode != 0xffffffff && chmods == 0
    assert [C19] it is the fid's file: p == curname
    assert [C19] the mode is the requested one: m == os.FileMode(wmode & 0x1ff)
    assert [C19] it goes on only while all changes succeed: !oserr
    set chmods = chmods + 1
    set oserr = x != nil
  on os.Rename(p string, t string) (x error)
    assert [C19] the file is renamed only if requested, once: wvalid && len(wname) > 0 && renames == 0
    assert [C19] it is the fid's file: p == curname
    assert [C19] the name is the requested one: t == newname(e)
    assert [C19] a directory is not replaced: statp == t && (staterr != nil || !fi.IsDir(statfi))
    assert [C19] it goes on only while all changes succeed: !oserr
    set renames = renames + 1
    set oserr = x != nil
    set curname = ite(x == nil, t, curname)
  on os.Truncate(p string, n int64) (x error)
    assert [C19] the length is changed only if requested, once: wvalid && wlength != 0xffffffffffffffff && truncs == 0
    assert [C19] it is the fid's file: p == curname
    assert [C19] the length is the requested one: n == int64(wlength)
    assert [C19] it goes on only while all changes succeed: !oserr
    set truncs = truncs + 1
    set oserr = x != nil
  on os.Chtimes(p string, at time.Time, mt time.Time) (x error)
    assert [C19] times are changed only if requested, once: wvalid && (watime != 0xffffffff || wmtime != 0xffffffff) && chtimes == 0
    assert [C19] it is the fid's file: p == curname
    assert [C19] the access time is the requested one or left alone: ite(watime != 0xffffffff, at == timeat(int64(watime), 0), at == nil)
    assert [C19] the modification time is the requested one or left alone: ite(wmtime != 0xffffffff, mt == timeat(int64(wmtime), 0), mt == nil)
    assert [C19] it goes on only while all changes succeed: !oserr
    set chtimes = chtimes + 1
    set oserr = x != nil
  ensures [C16] other fids are as before: others(e, fid)
  ensures [C19] nothing else is changed: ncalls("path:*") == ncalls("path:os.Chmod") + ncalls("path:os.Rename") + ncalls("path:os.Truncate") + ncalls("path:os.Chtimes") + ncalls("path:os.Stat") + ncalls("path:os.Lstat")
  ensures [C19] the handle is used for nothing else: ncalls("(*os.File).*") == ncalls("(*os.File).Sync")
  ensures [C19] a malformed entry is refused: !wvalid ==> err != nil && !touched
  ensures [C19] changing the owner or group is refused: used && wvalid && (len(wdir(8)) > 0 || len(wdir(9)) > 0) ==> err != nil && !touched
  ensures [C19] a failed change is reported: oserr ==> err != nil
  ensures [C19] success means that every requested change was made: err == nil ==> (wmode != 0xffffffff ==> chmods == 1) && (len(wname) > 0 ==> renames == 1)
    && (wlength != 0xffffffffffffffff ==> truncs == 1) && (watime != 0xffffffff || wmtime != 0xffffffff ==> chtimes == 1)
  ensures [C19] only a refused change makes it fail: used && wvalid && len(wdir(8)) == 0 && len(wdir(9)) == 0 && !oserr && len(wname) == 0 ==> err == nil
  ensures [C19] a rename is refused only for the root and where it would replace a directory: used && wvalid && len(wdir(8)) == 0 && len(wdir(9)) == 0 && !oserr && err != nil
    ==> old(e.files[fid].fullName) == rootp(e) || statp == newname(e) && staterr == nil && fi.IsDir(statfi)
  ensures [C19] an entry that requests no change flushes the open file: err == nil && opn != nil && wmode == 0xffffffff && len(wname) == 0 && wlength == 0xffffffffffffffff
    && watime == 0xffffffff && wmtime == 0xffffffff ==> ncalls("(*os.File).Sync") == 1
  ensures [C16 C19] the fid stands for the file under its new name: has(e.files, fid) == used && (used ==> e.files[fid].fullName == curname && sameq(e, fid) && e.files[fid].file == opn)

# ---- frames ----

users [C16 C17] filesystem.FileServer.files : (*ufs.FileServer).R*, ufs.NewUFS
writers [C15 C16 C17] filesystem.file.fullName : (*ufs.FileServer).R*
writers [C16 C18] filesystem.file.file : (*ufs.FileServer).R*
writers [C18] filesystem.file.oflow : (*ufs.FileServer).R*
writers [C15] filesystem.FileServer.rootPath : ufs.NewUFS

# A new connection gets a file server of its own with no fids (NewUFS hands the
# creator to the listener, which calls it once for each connection, C09).
contract ufs.NewUFS/protocol.NsCreator() (ns)
  requires ufs.root != nil && ufs.debug != nil
  nopanic [C09]
  ensures [C15] it exports the configured root: theufs.rootPath == *ufs.root
  ensures [C09 C16] it is new: fresh(theufs)
  ensures [C09 C16] it has no fids: theufs.files != nil && fresh(theufs.files) && (forall x protocol.FID :: !has(theufs.files, x))
  ensures [C22] nothing but the debugging layer lies between: is(ns, "*filesystem.FileServer") || is(ns, "*pkg/debugfs.DebugFileServer")

def theufs = peel(ns, "*pkg/debugfs.DebugFileServer", "FileServer")

contract ufs.NewUFS(opts) (l, err)
  requires optErr == nil && (forall i int :: 0 <= i && i < len(opts) ==> opts[i] != nil)
  nopanic [C09]
  inv no option has failed: optErr == nil
  on dyn:protocol.ListenerOpt(x *protocol.Listener) (e error)
    havoc addr(x.Trace)
    set optErr = e
  ensures [C09] it fails only if an option does: optErr == nil ==> err == nil
  ensures [C09] its listener creates a file server for each connection: err == nil ==> l != nil && isfunc(l.nsCreator, "ufs.NewUFS/protocol.NsCreator")
