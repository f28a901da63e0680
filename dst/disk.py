"""Python side of the simdisk shim: recording, fault plan, and reconstruction of
what a disk holds after a process crash or a power loss at any recorded point."""
import ctypes
import errno
import os

K = dict(OPEN=1, WRITE=2, TRUNC=3, FSYNC=4, RENAME=5, UNLINK=6, MKDIR=7, RMDIR=8, CLOSE=9, READ=10, LINK=11, MARK=12)
NAMES = {v: k for k, v in K.items()}


class Rec(ctypes.Structure):
    _fields_ = [("kind", ctypes.c_int32), ("fid", ctypes.c_int32), ("flags", ctypes.c_int32), ("err", ctypes.c_int32),
                ("off", ctypes.c_int64), ("len", ctypes.c_int64), ("data", ctypes.c_uint64)]


_lib = None
_cbs = {}


def lib():
    global _lib
    if _lib is None:
        L = ctypes.CDLL(None)
        try:
            assert L.simdisk_present() == 42
        except AttributeError:
            raise RuntimeError("simdisk shim is not preloaded")
        L.simdisk_recs.restype = ctypes.POINTER(Rec)
        L.simdisk_count.restype = ctypes.c_size_t
        L.simdisk_blob.restype = ctypes.c_void_p
        L.simdisk_bloblen.restype = ctypes.c_size_t
        L.simdisk_arm.argtypes = [ctypes.c_char_p]
        L.simdisk_mark.argtypes = [ctypes.c_int64]
        L.simdisk_fault.argtypes = [ctypes.c_uint] + [ctypes.c_int] * 5 + [ctypes.c_char_p]
        _lib = L
    return _lib


def arm(root, keepdata=True):
    L = lib()
    L.simdisk_reset()
    L.simdisk_keepdata(1 if keepdata else 0)
    L.simdisk_arm(os.path.realpath(root).encode())


def disarm():
    lib().simdisk_disarm()


def mark(tag):
    lib().simdisk_mark(tag)


def count():
    return lib().simdisk_count()


def add_fault(f):
    """f: dict(kinds=[names], nth, count, err=errno name, short=percent, sticky, path)."""
    mask = 0
    for k in f["kinds"]:
        mask |= 1 << K[k]
    return lib().simdisk_fault(mask, f.get("nth", 1), f.get("count", 1), getattr(errno, f.get("err", "EIO")),
                               f.get("short", 0), 1 if f.get("sticky") else 0, f.get("path", "").encode())


def fired(k):
    return lib().simdisk_fired(k)


def clear_faults():
    lib().simdisk_clear_faults()


def set_sleep(fn):
    cb = ctypes.CFUNCTYPE(None, ctypes.c_double)(fn) if fn else None
    _cbs["sleep"] = cb
    lib().simdisk_set_sleep(cb)


def set_op(fn):
    cb = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_int)(fn) if fn else None
    _cbs["op"] = cb
    lib().simdisk_set_op(cb)


class Op:
    __slots__ = ("kind", "fid", "flags", "err", "off", "len", "data", "path", "path2")

    def __repr__(self):
        s = NAMES[self.kind]
        if self.path:
            s += " " + os.path.basename(self.path)
        if self.path2:
            s += " -> " + os.path.basename(self.path2)
        if self.kind == K["WRITE"]:
            s += " #%d [%d,+%d]" % (self.fid, self.off, self.len)
        if self.kind in (K["FSYNC"], K["TRUNC"]):
            s += " #%d" % self.fid
        if self.err:
            s += " !%s" % errno.errorcode.get(self.err, self.err)
        return s


def records():
    L = lib()
    n = L.simdisk_count()
    r = L.simdisk_recs()
    blob = ctypes.string_at(L.simdisk_blob(), L.simdisk_bloblen()) if L.simdisk_bloblen() else b""
    out = []
    for i in range(n):
        x = r[i]
        o = Op()
        o.kind, o.fid, o.flags, o.err, o.off, o.len = x.kind, x.fid, x.flags, x.err, x.off, x.len
        o.data = o.path = o.path2 = None
        if x.err == 0:
            if x.kind == K["WRITE"]:
                o.data = blob[x.data:x.data + x.len]
            elif x.kind in (K["OPEN"], K["UNLINK"], K["MKDIR"], K["RMDIR"], K["FSYNC"]):
                o.path = blob[x.data:x.data + x.len].decode()
            elif x.kind in (K["RENAME"], K["LINK"]):
                o.path = blob[x.data:x.data + x.len].decode()
                e = blob.index(b"\0", x.data + x.len + 1)
                o.path2 = blob[x.data + x.len + 1:e].decode()
        out.append(o)
    return out


class State:
    """Files and directory entries, rebuilt from the log."""

    def __init__(self, initial=None):
        self.inodes = {}            # fid -> bytearray
        self.names = {}             # path -> fid
        self.extra = -1
        for p, data in (initial or {}).items():
            self.names[p] = self.extra
            self.inodes[self.extra] = bytearray(data)
            self.extra -= 1

    def materialise(self, src, dst):
        for p, fid in self.names.items():
            if not p.startswith(src):
                continue
            q = dst + p[len(src):]
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as fp:
                fp.write(bytes(self.inodes.get(fid, b"")))


def _apply_data(buf, op):
    if op.kind == K["WRITE"]:
        if len(buf) < op.off:
            buf.extend(b"\0" * (op.off - len(buf)))
        buf[op.off:op.off + len(op.data)] = op.data
    elif op.kind == K["TRUNC"]:
        if op.len < len(buf):
            del buf[op.len:]
        else:
            buf.extend(b"\0" * (op.len - len(buf)))


def initial_binding(ops, initial):
    """Existing files opened before any create record keep their own ids: bind
    names to the ids under which the log writes to them, via FSYNC paths."""
    bind = {}
    for o in ops:
        if o.kind == K["FSYNC"] and o.path in initial and o.path not in bind and not o.err:
            bind[o.path] = o.fid
        if o.kind == K["OPEN"] and o.path in initial and o.path not in bind and not (o.flags & 1):
            bind[o.path] = o.fid
    return bind


def crash(ops, upto, initial=None, power=None):
    """The disk after a crash just after ops[:upto].

    power is None: a process crash, everything executed is there.
    power is a random.Random: a power loss.  File data not covered by a later
    fsync of that file may be missing or torn at 512-byte sectors; directory
    operations survive as a prefix that contains everything up to the last fsync
    of the directory.  (Model: ordered metadata, unordered data.)"""
    initial = initial or {}
    st = State(initial)
    bind = initial_binding(ops, initial)
    for p, fid in bind.items():
        old = st.names[p]
        st.inodes[fid] = st.inodes.pop(old)
        st.names[p] = fid
    ops = [o for o in ops[:upto] if not o.err]
    survive_dir = len(ops)
    if power is not None:
        last = -1
        for i, o in enumerate(ops):
            if o.kind == K["FSYNC"] and o.flags & 4:
                last = i
        dirops = [i for i, o in enumerate(ops) if i > last and (o.kind in (K["RENAME"], K["UNLINK"], K["MKDIR"], K["RMDIR"], K["LINK"])
                                                                or (o.kind == K["OPEN"] and o.flags & 1))]
        if dirops:
            r = power.random()
            if r < 0.4:
                survive_dir = len(ops)
            else:
                survive_dir = power.choice(dirops)
    # data
    last_sync = {}
    if power is not None:
        for i, o in enumerate(ops):
            if o.kind == K["FSYNC"] and not (o.flags & 4):
                last_sync[o.fid] = i
    mode = power.random() if power is not None else None
    for i, o in enumerate(ops):
        if o.kind == K["OPEN"]:
            if o.flags & 1:
                if i < survive_dir:
                    st.names[o.path] = o.fid
                st.inodes.setdefault(o.fid, bytearray())
                st.inodes[o.fid] = bytearray()
            elif o.flags & 2:
                # truncation of an existing file by open(O_TRUNC): metadata, may or may not survive
                if power is None or last_sync.get(o.fid, -1) > i or power.random() < 0.7:
                    st.inodes[o.fid] = bytearray()
        elif o.kind in (K["WRITE"], K["TRUNC"]):
            buf = st.inodes.setdefault(o.fid, bytearray())
            if power is None or last_sync.get(o.fid, -1) > i:
                _apply_data(buf, o)
            elif o.kind == K["TRUNC"]:
                if power.random() < 0.5:
                    _apply_data(buf, o)
            else:
                r = power.random()
                keep = mode if mode < 0.9 else 1.0
                if r < keep * 0.7:
                    _apply_data(buf, o)
                elif r < keep:
                    # torn: a random subset of sectors
                    end = o.off + len(o.data)
                    if len(buf) < end:
                        buf.extend(b"\0" * (end - len(buf)))
                    s = o.off
                    while s < end:
                        e = min(end, (s // 512 + 1) * 512)
                        if power.random() < 0.5:
                            buf[s:e] = o.data[s - o.off:e - o.off]
                        s = e
        elif o.kind == K["RENAME"] and i < survive_dir:
            if o.path in st.names:
                st.names[o.path2] = st.names.pop(o.path)
        elif o.kind == K["LINK"] and i < survive_dir:
            if o.path in st.names:
                st.names[o.path2] = st.names[o.path]
        elif o.kind == K["UNLINK"] and i < survive_dir:
            st.names.pop(o.path, None)
    return st


class Incremental:
    """Process-crash states one operation after another (same result as crash())."""

    def __init__(self, ops, initial=None):
        self.ops = ops
        self.k = 0
        self.state = State(initial)
        for p, fid in initial_binding(ops, initial or {}).items():
            old = self.state.names[p]
            self.state.inodes[fid] = self.state.inodes.pop(old)
            self.state.names[p] = fid

    def advance(self, k):
        st = self.state
        for o in self.ops[self.k:k]:
            if o.err:
                continue
            if o.kind == K["OPEN"]:
                if o.flags & 1:
                    st.names[o.path] = o.fid
                st.inodes[o.fid] = bytearray()
            elif o.kind in (K["WRITE"], K["TRUNC"]):
                _apply_data(st.inodes.setdefault(o.fid, bytearray()), o)
            elif o.kind == K["RENAME"]:
                if o.path in st.names:
                    st.names[o.path2] = st.names.pop(o.path)
            elif o.kind == K["LINK"]:
                if o.path in st.names:
                    st.names[o.path2] = st.names[o.path]
            elif o.kind == K["UNLINK"]:
                st.names.pop(o.path, None)
        self.k = k
