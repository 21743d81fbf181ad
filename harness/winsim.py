"""A simulated Win32 kernel, on which the windows streams of rsfile run on this platform.

Files are files of the real system (in the scratch directory); handles, file pointers, byte-range locks and descriptors
of the C runtime are simulated, as specified by the documentation of Win32 and by [MS-FSA]:
 - locks belong to handles, vanish when these are closed, are removed by exact range only, conflict as usual (an exclusive one
   conflicts with any other overlapping lock, even of the same handle); a range must fit in 64 bits;
 - the file pointer belongs to the handle; the bytes added by SetEndOfFile() are undefined;
 - a descriptor of the C runtime wraps a handle and closes it; two of them may wrap the same handle.
(Locks don't restrict the data access of others here: nothing is claimed about that.)

install(flavour) must be called before rsfile gets imported: "ctypes" and "pywin32" are the two bindings that it knows.
"""
import sys, os, posix, stat, types, builtins, errno, struct

U32, U64 = 2 ** 32 - 1, 2 ** 64 - 1
GARBAGE = 0xEE

NO_FILE, NO_PATH, DENIED, BAD_HANDLE, VIOLATION, EXISTS, BAD_PARAM = 2, 3, 5, 6, 33, 80, 87
NEGATIVE_SEEK, NOT_LOCKED, BAD_RANGE, TOO_MANY = 131, 158, 307, 4
ERRNO = {2: errno.ENOENT, 3: errno.ENOENT, 4: errno.EMFILE, 5: errno.EACCES, 6: errno.EBADF, 33: errno.EACCES, 80: errno.EEXIST,
         87: errno.EINVAL, 131: errno.EINVAL, 158: errno.EACCES, 307: errno.EINVAL, 50: errno.EINVAL, 112: errno.ENOSPC, 1295: errno.ENOSPC, 223: errno.EFBIG, 29: errno.EIO}


class WinErr(Exception):
    def __init__(self, code):
        self.code = code


class H(object):
    __slots__ = ("n", "fd", "ino", "pos", "access", "inherit", "sync", "locks")


class Faults(object):
    """like shimctl.Shim: the transfers of data which fail, or are partial"""
    WRITE, READ, CLOSE, LOCK = 1, 2, 4, 8

    def __init__(self):
        self.disarm()

    def setup(self, inodes, on=0):
        self.inodes = set(inodes) if on else set()
        K.faults = self

    def arm(self, mask, skip=0, err=0):
        self.mask, self.skip, self.err = mask, skip, err

    def disarm(self):
        self.mask = 0

    def pause(self):
        pass

    resume = off = pause

    def limit(self, ino, kind, n):
        if not self.mask & kind or ino not in self.inodes:
            return n
        if self.skip:
            self.skip -= 1
            return n
        if self.err > 0:
            raise WinErr({errno.ENOSPC: 112, errno.EDQUOT: 1295, errno.EFBIG: 223}.get(self.err, 29))
        return min(n, max(1, -self.err))


class Kernel(object):
    faults = None

    def limit(self, x, kind, n):
        return self.faults.limit(x.ino, kind, n) if self.faults else n

    def __init__(self):
        self.handles = {}
        self.crt = {}       # descriptor of the C runtime -> handle number
        self.next = 0x40
        self.sched = None
        self.mandatory = False

    # ------------------------------------------------------------ waiting
    def changed(self):
        import dsched
        if dsched.S is not None:
            dsched.S.kver += 1

    def point(self):
        import dsched
        if dsched.active() and not dsched.S.inpoint:
            dsched.S.point("win")

    # ------------------------------------------------------------ files
    def h(self, n, access=0):
        x = self.handles.get(n)
        if x is None:
            raise WinErr(BAD_HANDLE)
        if access and not x.access & access:
            raise WinErr(DENIED)
        return x

    def create(self, path, access, share, inherit, disp, flags):
        self.point()
        if not isinstance(path, str) or "\0" in path or share & ~7 or not share & 7:
            raise WinErr(BAD_PARAM)
        ro = flags & 1
        try:
            st = posix.stat(path)
        except FileNotFoundError:
            st = None
            if not os.path.isdir(os.path.dirname(path) or "."):
                raise WinErr(NO_PATH)
        except NotADirectoryError:
            raise WinErr(NO_PATH)
        if st is not None:
            if disp == 1:
                raise WinErr(EXISTS)
            if stat.S_ISDIR(st.st_mode) or access & 0x40000000 and not st.st_mode & 0o200:
                raise WinErr(DENIED)
        elif disp == 3:
            raise WinErr(NO_FILE)
        elif disp not in (1, 4):
            raise WinErr(BAD_PARAM)
        try:
            fd = posix.open(path, posix.O_RDWR | posix.O_CREAT | posix.O_CLOEXEC, 0o600)
        except OSError:
            raise WinErr(DENIED)
        if st is None:
            posix.chmod(path, 0o444 if ro else 0o644)
        return self.new(fd, access, inherit, bool(flags & 0x80000000))

    def new(self, fd, access, inherit=False, sync=False):
        x = H()
        x.n = self.next
        self.next += 4
        x.fd, x.ino, x.pos, x.access, x.inherit, x.sync, x.locks = fd, posix.fstat(fd).st_ino, 0, access, bool(inherit), sync, []
        self.handles[x.n] = x
        self.point()
        return x.n

    def duplicate(self, n):
        """(only used so far to look at the file)"""
        x = self.h(n)
        return self.new(posix.dup(x.fd), x.access, x.inherit, x.sync)

    def close(self, n):
        self.point()
        x = self.h(n)
        del self.handles[n]
        posix.close(x.fd)
        self.changed()
        self.point()

    def size(self, n):
        return posix.fstat(self.h(n).fd).st_size

    def seek(self, n, off, how):
        self.point()
        x = self.h(n)
        if how not in (0, 1, 2):
            raise WinErr(BAD_PARAM)
        p = off + (0 if how == 0 else x.pos if how == 1 else self.size(n))
        if p < 0:
            raise WinErr(NEGATIVE_SEEK)
        if p >= 2 ** 63:
            raise WinErr(BAD_PARAM)
        x.pos = p
        return p

    def set_eof(self, n):
        self.point()
        x = self.h(n, 0x40000000)
        size = self.size(n)
        posix.ftruncate(x.fd, x.pos)
        for o in ([size] if x.pos <= size + 1 else [size, x.pos - 1])[:max(0, x.pos - size)]:
            posix.pwrite(x.fd, bytes([GARBAGE]), o)

    def read(self, n, count):
        self.point()
        x = self.h(n, 0x80000000)
        if not 0 <= count <= U32:
            raise WinErr(BAD_PARAM)
        d = posix.pread(x.fd, self.limit(x, Faults.READ, count), x.pos)
        x.pos += len(d)
        return d

    def write(self, n, data):
        self.point()
        x = self.h(n, 0x40000000)
        k = posix.pwrite(x.fd, data[:self.limit(x, Faults.WRITE, len(data))], x.pos)
        x.pos += k
        self.point()
        return k

    def flush(self, n):
        self.h(n, 0x40000000)

    def info(self, n):
        """(volume, file id, size, links, stat)"""
        st = posix.fstat(self.h(n).fd)
        i = st.st_ino
        return 0xC0DE0001, ((0x90000000 + i // 2) << 32) + 0xF0000000 + i % 2, st.st_size, st.st_nlink, st

    # ------------------------------------------------------------ locks
    def conflict(self, x, lo, hi, ex):
        for y in self.handles.values():
            if y.ino == x.ino:
                for (a, b, e) in y.locks:
                    if max(a, lo) < min(b, hi) and (ex or e):
                        return True
        return False

    def range(self, off, length):
        if length and off + length - 1 > U64:
            raise WinErr(BAD_RANGE)
        return off, off + length

    def lock(self, n, off, length, ex, nowait):
        import dsched
        self.point()
        x = self.h(n)
        lo, hi = self.range(off, length)
        while self.conflict(x, lo, hi, ex):
            if nowait or not dsched.active():
                raise WinErr(VIOLATION)
            v = dsched.S.kver
            dsched.S.block(lambda: dsched.S.kver != v)
            dsched.S.kver -= 1  # a failed retry changes nothing for others
            self.h(n)
        x.locks.append((lo, hi, bool(ex)))
        self.point()

    def unlock(self, n, off, length):
        self.point()
        x = self.h(n)
        lo, hi = self.range(off, length)
        for k, (a, b, e) in enumerate(x.locks):
            if (a, b) == (lo, hi):
                del x.locks[k]
                break
        else:
            raise WinErr(NOT_LOCKED)
        self.changed()
        self.point()

    # ------------------------------------------------------------ C runtime
    def open_osfhandle(self, n, flags):
        x = self.handles.get(int(n))
        if x is None:
            raise OSError(errno.EBADF, "bad handle")
        fd = posix.dup(x.fd)
        self.crt[fd] = x.n
        return fd

    def get_osfhandle(self, fd):
        if fd not in self.crt:
            raise OSError(errno.EBADF, "bad descriptor")
        return self.crt[fd]

    def crt_close(self, fd):
        n = self.crt.pop(fd)
        posix.close(fd)
        try:
            self.close(n)
        except WinErr:
            raise OSError(errno.EBADF, "bad handle")

    # ------------------------------------------------------------ for the recorders
    def descriptors(self, ino):
        """open handles of a file, and descriptors of the C runtime beyond one per handle"""
        hs = {x.n for x in self.handles.values() if x.ino == ino}
        per = {}
        for fd, n in self.crt.items():
            if posix.fstat(fd).st_ino == ino:
                per[n] = per.get(n, 0) + 1
        return len(hs) + sum(k - 1 if n in hs else k for n, k in per.items())

    def probe(self, ino, lo, hi, but=None):
        """0: free, 1: shared locks only, 2: an exclusive lock (whatever a handle holds)"""
        out = 0
        for y in self.handles.values():
            if y.ino == ino and y.n != but:
                for (a, b, e) in y.locks:
                    if max(a, lo) < min(b, hi):
                        out = max(out, 2 if e else 1)
        return out

    def open_fd(self, path, access):
        """a descriptor of the C runtime, like the one of any other library"""
        n = self.create(path, access, 7, False, 3, 128)
        return self.open_osfhandle(n, 0)


K = Kernel()


# ---------------------------------------------------------------------- the ctypes binding
def conv(t, a):
    """what ctypes does with an argument"""
    import ctypes
    if a is None:
        return None
    if isinstance(t, type) and issubclass(t, ctypes._SimpleCData) and isinstance(a, int):
        return t(a).value
    if isinstance(t, type) and issubclass(t, (ctypes.c_wchar_p, ctypes.c_char_p)):
        return t(a).value
    if hasattr(a, "_obj"):
        return a._obj
    return a


class Func(object):
    def __init__(self, name):
        self.name = name
        self.restype = self.argtypes = None

    def __call__(self, *args):
        if self.argtypes is not None:
            if len(args) != len(self.argtypes):
                raise TypeError("wrong number of arguments")
            args = [conv(t, a) for t, a in zip(self.argtypes, args)]
        try:
            r = getattr(Api, self.name)(*args)
        except WinErr as e:
            if self.name != "GetLastError":
                Api.last = e.code
            return Api.failure.get(self.name, 0)
        return r


class Api(object):
    last = 0
    failure = {"CreateFileW": 2 ** 64 - 1, "CreateFileA": 2 ** 64 - 1}

    @staticmethod
    def GetLastError():
        return Api.last

    @staticmethod
    def CreateFileW(path, access, share, sa, disp, flags, template):
        return K.create(path, access, share, sa is not None and bool(sa.bInheritHandle), disp, flags)

    @staticmethod
    def CreateFileA(path, *a):
        return Api.CreateFileW(os.fsdecode(path), *a)

    @staticmethod
    def CloseHandle(h):
        K.close(h)
        return 1

    @staticmethod
    def GetFileSizeEx(h, out):
        out.value = K.size(h)
        return 1

    @staticmethod
    def GetFileSize(h, high):
        n = K.size(h)
        if high is not None:
            high.value = n >> 32
        return n & U32

    @staticmethod
    def SetFilePointerEx(h, off, out, how):
        p = K.seek(h, off, how)
        if out is not None:
            out.value = p
        return 1

    @staticmethod
    def SetFilePointer(h, off, high, how):
        if high is not None:
            off = (off & U32) + (high.value << 32)
        p = K.seek(h, off, how)
        if high is not None:
            high.value = p >> 32
        Api.last = 0
        return p & U32

    @staticmethod
    def SetEndOfFile(h):
        K.set_eof(h)
        return 1

    @staticmethod
    def WriteFile(h, buf, n, out, ov):
        import ctypes
        if ov is not None:
            raise WinErr(BAD_PARAM)
        data = ctypes.string_at(buf, n)
        out.value = K.write(h, data)
        return 1

    @staticmethod
    def ReadFile(h, addr, n, out, ov):
        import ctypes
        if ov is not None:
            raise WinErr(BAD_PARAM)
        d = K.read(h, n)
        ctypes.memmove(addr, d, len(d))
        out.value = len(d)
        return 1

    @staticmethod
    def FlushFileBuffers(h):
        K.flush(h)
        return 1

    @staticmethod
    def LockFileEx(h, flags, res, lo, hi, ov):
        if ov is None or res:
            raise WinErr(BAD_PARAM)
        K.lock(h, (ov.OffsetHigh << 32) + ov.Offset, (hi << 32) + lo, flags & 2, flags & 1)
        return 1

    @staticmethod
    def UnlockFileEx(h, res, lo, hi, ov):
        if ov is None or res:
            raise WinErr(BAD_PARAM)
        K.unlock(h, (ov.OffsetHigh << 32) + ov.Offset, (hi << 32) + lo)
        return 1

    @staticmethod
    def LockFile(h, ol, oh, lo, hi):
        K.lock(h, (oh << 32) + ol, (hi << 32) + lo, True, True)
        return 1

    @staticmethod
    def UnlockFile(h, ol, oh, lo, hi):
        K.unlock(h, (oh << 32) + ol, (hi << 32) + lo)
        return 1

    @staticmethod
    def GetFileInformationByHandle(h, i):
        vol, fid, size, links, st = K.info(h)
        i.dwFileAttributes = 128
        i.dwVolumeSerialNumber = vol
        i.nFileSizeHigh, i.nFileSizeLow = size >> 32, size & U32
        i.nNumberOfLinks = links
        i.nFileIndexHigh, i.nFileIndexLow = fid >> 32, fid & U32
        for n, ns in (("ftCreationTime", st.st_ctime_ns), ("ftLastAccessTime", st.st_atime_ns), ("ftLastWriteTime", st.st_mtime_ns)):
            t = ns // 100 + 116444736000000000
            f = getattr(i, n)
            f.dwLowDateTime, f.dwHighDateTime = t & U32, t >> 32
        return 1


class DLL(object):
    def __init__(self, name):
        self.__dict__["_name"] = name

    def __getattr__(self, n):
        f = Func(n)
        self.__dict__[n] = f
        return f


def make_error(cls, code):
    e = cls(ERRNO.get(code, errno.EINVAL), "win32 error %d" % code)
    e.winerror = code
    return e


def install_ctypes():
    import ctypes
    import ctypes.wintypes as w
    w.DWORD = ctypes.c_uint32
    w.BOOL = w.LONG = ctypes.c_int32

    class FILETIME(ctypes.Structure):
        _fields_ = [("dwLowDateTime", w.DWORD), ("dwHighDateTime", w.DWORD)]
    w.FILETIME = FILETIME
    ctypes.WinDLL = ctypes.OleDLL = DLL
    real = ctypes.CDLL
    ctypes.CDLL = lambda name, *a, **k: DLL(name) if name in ("msvcrt", "kernel32") else real(name, *a, **k)
    ctypes.WINFUNCTYPE = ctypes.CFUNCTYPE
    ctypes.GetLastError = ctypes.get_last_error = lambda: Api.last
    ctypes.WinError = lambda code=None, descr=None: make_error(OSError, Api.last if code is None else code)
    builtins.WindowsError = OSError


# ---------------------------------------------------------------------- the pywin32 binding
class PyHANDLE(object):
    def __init__(self, n):
        self.handle = n

    def __int__(self):
        return self.handle

    __index__ = __int__

    def Detach(self):
        n, self.handle = self.handle, 0
        return n

    def Close(self):
        if self.handle:
            K.close(self.Detach())

    def __del__(self):
        try:
            self.Close()
        except Exception:
            pass


class PyOVERLAPPED(object):
    def __init__(self):
        self.Offset = self.OffsetHigh = self.hEvent = 0


class PySECURITY_ATTRIBUTES(object):
    bInheritHandle = False
    SECURITY_DESCRIPTOR = None


def i32(x):
    if not -2 ** 31 <= x < 2 ** 31:
        raise OverflowError("Python int too large to convert to C long")
    return x & U32


def install_pywin32():
    class error(Exception):
        @property
        def winerror(self):
            return self.args[0]

        @property
        def funcname(self):
            return self.args[1]

        @property
        def strerror(self):
            return self.args[2] if len(self.args) > 2 else None

    def api(f):
        def g(*a):
            try:
                return f(*a)
            except WinErr as e:
                raise error(e.code, f.__name__, "win32 error %d" % e.code)
        g.__name__ = f.__name__
        return g

    pywintypes, win32api, win32con, win32file = [types.ModuleType(n) for n in ("pywintypes", "win32api", "win32con", "win32file")]
    pywintypes.error = win32api.error = win32file.error = error
    pywintypes.OVERLAPPED, pywintypes.SECURITY_ATTRIBUTES = PyOVERLAPPED, PySECURITY_ATTRIBUTES
    win32api.GetLastError = lambda: Api.last
    win32api.GetCurrentProcess = lambda: -1

    def DuplicateHandle(process, h, target, access, inherit, options):
        if process != -1 or target != -1 or options != 2:
            raise WinErr(BAD_PARAM)
        return PyHANDLE(K.duplicate(int(h)))
    win32api.DuplicateHandle = api(DuplicateHandle)
    for m in (win32con, win32file):
        for k, v in dict(FILE_BEGIN=0, FILE_CURRENT=1, FILE_END=2, GENERIC_READ=-2 ** 31, GENERIC_WRITE=0x40000000, FILE_SHARE_READ=1,
                         FILE_SHARE_WRITE=2, FILE_SHARE_DELETE=4, OPEN_EXISTING=3, OPEN_ALWAYS=4, CREATE_NEW=1,
                         FILE_ATTRIBUTE_READONLY=1, FILE_ATTRIBUTE_NORMAL=128, FILE_FLAG_WRITE_THROUGH=-2 ** 31,
                         LOCKFILE_EXCLUSIVE_LOCK=2, LOCKFILE_FAIL_IMMEDIATELY=1, DUPLICATE_SAME_ACCESS=2).items():
            setattr(m, k, v)

    def export(f):
        setattr(win32file, f.__name__, api(f))

    @export
    def CreateFile(path, access, share, sa, disp, flags, template):
        return PyHANDLE(K.create(path, access & U32, share, sa is not None and bool(sa.bInheritHandle), disp, flags & U32))

    @export
    def CloseHandle(h):
        if isinstance(h, PyHANDLE):
            return h.Close()
        K.close(int(h))

    @export
    def GetFileSize(h):
        return K.size(int(h))

    @export
    def SetFilePointer(h, off, how):
        return K.seek(int(h), off, how)

    @export
    def SetEndOfFile(h):
        K.set_eof(int(h))
        return True

    @export
    def WriteFile(h, data, ov=None):
        return 0, K.write(int(h), bytes(data))

    @export
    def ReadFile(h, n, ov=None):
        return 0, K.read(int(h), n)

    @export
    def FlushFileBuffers(h):
        K.flush(int(h))

    @export
    def LockFileEx(h, flags, lo, hi, ov):
        K.lock(int(h), ((ov.OffsetHigh & U32) << 32) + (ov.Offset & U32), (i32(hi) << 32) + i32(lo), flags & 2, flags & 1)

    @export
    def UnlockFileEx(h, lo, hi, ov):
        K.unlock(int(h), ((ov.OffsetHigh & U32) << 32) + (ov.Offset & U32), (i32(hi) << 32) + i32(lo))

    @export
    def GetFileInformationByHandle(h):
        vol, fid, size, links, st = K.info(int(h))
        return (128, None, None, None, vol, size >> 32, size & U32, links, fid >> 32, fid & U32)

    for m in (pywintypes, win32api, win32con, win32file):
        sys.modules[m.__name__] = m


def install(flavour):
    import multiprocessing, subprocess, threading, _pyio, locale, tempfile, gc, array  # (for this platform)
    msvcrt = types.ModuleType("msvcrt")
    msvcrt.open_osfhandle, msvcrt.get_osfhandle = K.open_osfhandle, K.get_osfhandle
    msvcrt.setmode = lambda *a: 0
    sys.modules["msvcrt"] = msvcrt
    install_ctypes()
    if flavour == "pywin32":
        install_pywin32()
    real_close = os.close

    def close(fd):
        if fd in K.crt:
            return K.crt_close(fd)
        return real_close(fd)
    os.close = close
    was = sys.platform
    sys.platform = "win32"
    try:
        import rsfile  # noqa
    finally:
        sys.platform = was
    from rsfile import rsfile_streams
    assert "windows" in rsfile_streams.RSFileIO.__module__, rsfile_streams.RSFileIO
