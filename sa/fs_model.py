"""Model of the file-system libraries used by the package builder.

Paths are constants wherever the source makes them constants.  The repository's own tree is the only file-system
content the analysis consults; what exists under the output directory before the tool runs is unknown (partitioned).
Changes the tool makes are logged per partition, so later questions about them are answered from the log.
"""
import ast
import os
import posixpath

from .terms import *
from .values import *
from .interp import Env

SRC = r'''
import itertools as _it

class DirEntry:
    def __init__(self, d, name):
        self.name = name
        self.path = join(d, name)
    def is_dir(self, follow_symlinks=True): return isdir(self.path)
    def is_file(self, follow_symlinks=True): return isfile(self.path)
    def is_symlink(self): return islink(self.path)
    def __fspath__(self): return self.path

class _Scan:
    def __init__(self, items): self.items = items
    def __iter__(self): return iter(self.items)
    def __enter__(self): return self
    def __exit__(self, a, b, c): return False
    def close(self): pass

def listdir(p='.'):
    if __kind(p) != 'dir':
        raise FileNotFoundError(p)
    d, f = __list(p)
    return d + f

def scandir(p='.'):
    return _Scan([DirEntry(p, n) for n in listdir(p)])

def walk(top, topdown=True, onerror=None, followlinks=False):
    top = fspath(top)
    if __kind(top) != 'dir':
        return
    dirs, files = __list(top)
    if topdown:
        yield top, dirs, files
    for d in dirs:
        yield from walk(join(top, d), topdown)
    if not topdown:
        yield top, dirs, files

def makedirs(name, mode=511, exist_ok=False):
    if not exist_ok and __kind(name) != 'none':
        raise FileExistsError(name)
    __fx('mkdir', None, name)

def mkdir(path, mode=511):
    if __kind(path) != 'none':
        raise FileExistsError(path)
    if __kind(dirname(abspath(path))) != 'dir':
        raise FileNotFoundError(path)
    __fx('mkdir', None, path)

def remove(path):
    if __kind(path) != 'file' and not __islink(path):
        raise FileNotFoundError(path)
    __fx('remove', None, path)

def rmdir(path):
    if __kind(path) != 'dir':
        raise FileNotFoundError(path)
    __fx('remove', None, path)

def rename(a, b):
    if __kind(a) == 'none':
        raise FileNotFoundError(a)
    __fx('move', a, b)

def rmtree(path, ignore_errors=False, onerror=None, onexc=None, dir_fd=None):
    k = __kind(path)
    if k != 'dir':
        if ignore_errors or onerror is not None or onexc is not None:
            return
        raise FileNotFoundError(path) if k == 'none' else NotADirectoryError(path)
    if __islink(path):
        if ignore_errors:
            return
        raise OSError("Cannot call rmtree on a symbolic link")
    __fx('rmtree', None, path)

def _into(src, dst):
    if __known(dst) == 'dir':
        return join(dst, basename(src))
    return dst

def copyfile(src, dst, follow_symlinks=True):
    if __kind(src) != 'file':
        raise FileNotFoundError(src)
    if __kind(dirname(abspath(dst))) != 'dir':
        raise FileNotFoundError(dst)
    __fx('copy', src, dst)
    return dst

def copy(src, dst, follow_symlinks=True):
    return copyfile(src, _into(src, dst))

def copystat(src, dst, follow_symlinks=True):
    pass

def copyfileobj(fsrc, fdst, length=0):
    fdst.write(fsrc.read())

def move(src, dst, copy_function=copy):
    if __kind(src) == 'none':
        raise FileNotFoundError(src)
    __fx('move', src, _into(src, dst))

def ignore_patterns(*patterns):
    def ignore(path, names):
        return {n for n in names if any(fnmatch(n, p) for p in patterns)}
    return ignore

def copytree(src, dst, symlinks=False, ignore=None, copy_function=copy, ignore_dangling_symlinks=False, dirs_exist_ok=False):
    if __kind(src) != 'dir':
        raise FileNotFoundError(src)
    if not dirs_exist_ok and __kind(dst) != 'none':
        raise FileExistsError(dst)
    dirs, files = __list(src)
    skip = ignore(src, dirs + files) if ignore is not None else ()
    __fx('mkdir', None, dst)
    for f in files:
        if f not in skip:
            copy_function(join(src, f), join(dst, f))
    for d in dirs:
        if d not in skip:
            copytree(join(src, d), join(dst, d), symlinks, ignore, copy_function, False, dirs_exist_ok)
    return dst

def filter(names, pat):
    return [n for n in names if fnmatch(n, pat)]

def _glob(d, parts, recursive, hidden=False):
    if not parts:
        yield d
        return
    p, rest = parts[0], parts[1:]
    if p == '**' and recursive:
        yield from _glob(d, rest, True, hidden)
        if __kind(d or '.') == 'dir':
            for n in __list(d or '.')[0]:
                if hidden or not n.startswith('.'):
                    yield from _glob(join(d, n) if d else n, parts, True, hidden)
    elif any(c in p for c in '*?['):
        if __kind(d or '.') == 'dir':
            dirs, files = __list(d or '.')
            for n in dirs + files:
                if (p == '*' or fnmatch(n, p)) and (hidden or p.startswith('.') or not n.startswith('.')):
                    q = join(d, n) if d else n
                    if not rest or n in dirs:
                        yield from _glob(q, rest, recursive, hidden)
    else:
        q = join(d, p) if d else p
        if __kind(q) != 'none':
            yield from _glob(q, rest, recursive, hidden)

def iglob(pathname, *, root_dir=None, recursive=False):
    pathname = fspath(pathname)
    d, parts = __glob_parts(pathname)
    seen = []
    for x in _glob(d, parts, recursive):
        if x and x not in seen:
            seen.append(x)
            yield x

def glob(pathname, *, root_dir=None, recursive=False):
    return list(iglob(pathname, recursive=recursive))

class File:
    def __init__(self, path, mode):
        self.name, self.mode, self.parts = path, mode, []
        self.entries = []
        self.unfinished = False
        self.at_start = True
        self.done = False
        if 'r' in mode:
            if __kind(path) != 'file':
                raise FileNotFoundError(path)
        else:
            if __kind(dirname(abspath(path))) != 'dir':
                raise FileNotFoundError(path)
            if 'x' in mode and __kind(path) != 'none':
                raise FileExistsError(path)
            __fx('write', None, path)
    def read(self, n=-1):
        if self.done:
            return b'' if 'b' in self.mode else ''
        self.done = True
        return __content(self.name, 'b' in self.mode)
    def readlines(self):
        return [self.read()]
    def __iter__(self):
        return iter([self.read()])
    def write(self, data):
        self.parts.append(data)
        __fx('copy' if len(self.parts) == 1 and __source(data) is not None else 'write',
             __source(data) if len(self.parts) == 1 else None, self.name)
        return 1
    def writelines(self, parts):
        for p in parts:
            self.write(p)
    def seek(self, pos, whence=0):
        self.done = False
        return pos
    def flush(self): pass
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, a, b, c): return False

def open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
    return File(fspath(file), mode)

class ZipInfo:
    def __init__(self, filename='NoName', date_time=None):
        self.filename = filename
        self.compress_type = 0
        self.file_size = 1
        self.external_attr = 0
    def is_dir(self): return False
    @classmethod
    def from_file(cls, filename, arcname=None, *, strict_timestamps=True):
        return cls(filename if arcname is None else arcname)

class _ZipEntry:
    def __init__(self, zf, name): self.zf, self.name = zf, name
    def write(self, data): self.zf.writestr(self.name, data)
    def read(self, n=-1): return b''
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, a, b, c): return False

class ZipFile:
    def __init__(self, file, mode='r', compression=0, allowZip64=True, compresslevel=None, **kw):
        self.mode, self.file, self.compression = mode, file, compression
        if mode not in ('r', 'w', 'x', 'a'):
            raise ValueError("ZipFile requires mode 'r', 'w', 'x', or 'a'")
        if compression not in (0, 8, 12, 14):
            raise NotImplementedError('That compression method is not supported')
        if mode != 'r':
            __fx('zipnew', None, str(compression))
        if not hasattr(file, 'read'):
            self.file = File(fspath(file), mode + 'b')
        if mode in ('w', 'x'):
            self.file.entries = []
        if mode != 'r':
            self.file.unfinished = True
        elif self.file.unfinished:
            raise BadZipFile('File is not a zip file')
        self.file.at_start = False
        self.filelist = self.file.entries
    def write(self, filename, arcname=None, compress_type=None, compresslevel=None):
        if __kind(filename) == 'none':
            raise FileNotFoundError(filename)
        a = filename if arcname is None else arcname
        self.file.entries.append(a)
        self.file.at_start = False
        __fx('zipwrite', filename, a)
    def writestr(self, arcname, data, compress_type=None, compresslevel=None):
        if isinstance(arcname, ZipInfo):
            arcname = arcname.filename
        self.file.entries.append(arcname)
        self.file.at_start = False
        __fx('zipwrite', __source(data), arcname)
    def open(self, name, mode='r', **kw):
        return _ZipEntry(self, name)
    def extractall(self, path=None, members=None, pwd=None):
        __fx('extract', None, '.' if path is None else path)
    def extract(self, member, path=None, pwd=None):
        __fx('extract', member.filename if isinstance(member, ZipInfo) else member, '.' if path is None else path)
    def read(self, name, pwd=None): return b''
    def close(self):
        if self.mode != 'r':
            self.file.unfinished = False
            self.file.at_start = False
    def infolist(self): return [ZipInfo(n) for n in self.file.entries]
    def namelist(self): return list(self.file.entries)
    def testzip(self): return None
    def __enter__(self): return self
    def __exit__(self, a, b, c): self.close()

class BadZipFile(Exception):
    pass

class BytesIO:
    def __init__(self, initial=b''):
        self.entries = []
        self.unfinished = False
        self.at_start = True
    def seek(self, pos, whence=0):
        self.at_start = whence == 0 and pos == 0
        return pos
    def tell(self): return 0 if self.at_start else 1
    def read(self, n=-1):
        whole = self.at_start and (n is None or n < 0)
        self.at_start = False
        return self.getvalue() if whole else b''
    def write(self, data): return 0
    def getvalue(self): return b'<unfinished archive>' if self.unfinished else b'<archive>'
    def getbuffer(self): return self.getvalue()
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, a, b, c): pass

class Namespace:
    def __init__(self, **kw):
        for k in kw:
            setattr(self, k, kw[k])

class ArgumentParser:
    def __init__(self, *args, **kw):
        self.dests = []
        self.defaults = {}
    def add_argument(self, *names, **kw):
        self.dests.append((names, kw))
        return self
    def add_argument_group(self, *a, **k): return self
    def add_mutually_exclusive_group(self, *a, **k): return self
    def set_defaults(self, **kw): self.defaults.update(kw)
    def print_help(self, *a): pass
    def print_usage(self, *a): pass
    def error(self, message): raise SystemExit(2)
    def exit(self, status=0, message=None): raise SystemExit(status)
    def parse_args(self, args=None, namespace=None):
        ns = Namespace(**self.defaults)
        argv = __argv() if args is None else args
        for names, kw in self.dests:
            d = kw['dest'] if 'dest' in kw else ([n for n in names if n.startswith('--')] or list(names))[0].lstrip('-').replace('-', '_')
            if names and names[0].startswith('-'):
                act = kw.get('action')
                v = kw.get('default', False if act == 'store_true' else True if act == 'store_false' else None)
            elif kw.get('nargs') in ('*', '+', '?') and not argv:
                if kw['nargs'] == '+':
                    raise SystemExit(2)
                v = kw.get('default', None)
                if v is None and kw['nargs'] == '*':
                    v = []
            else:
                n = kw.get('nargs')
                if n in ('*', '+'):
                    v, argv = list(argv), []
                else:
                    if not argv:
                        raise SystemExit(2)
                    v, argv = [argv[0]], argv[1:]
                if 'type' in kw:
                    v = [kw['type'](x) for x in v]
                if kw.get('choices') is not None:
                    for x in v:
                        if x not in kw['choices']:
                            raise SystemExit(2)
                if n not in ('*', '+'):
                    v = v[0]
            setattr(ns, d, v)
        return ns
    def parse_known_args(self, args=None, namespace=None):
        return self.parse_args(args), []

class PurePath:
    def __init__(self, *parts):
        p = join(*[fspath(x) for x in parts]) if parts else '.'
        self._p = __clean(p)
    def __fspath__(self): return self._p
    def __str__(self): return self._p
    def __repr__(self): return self._p
    def as_posix(self): return self._p
    def __eq__(self, o): return isinstance(o, PurePath) and self._p == o._p
    def __lt__(self, o): return self._p < o._p
    def __hash__(self): return hash(self._p)
    def __truediv__(self, o): return Path(join(self._p, fspath(o)))
    def __rtruediv__(self, o): return Path(join(fspath(o), self._p))
    def joinpath(self, *o): return Path(self._p, *o)
    @property
    def name(self): return basename(self._p)
    @property
    def parent(self): return Path(dirname(self._p) or '.')
    @property
    def parents(self):
        out, p = [], self
        while p.parent != p:
            p = p.parent
            out.append(p)
        return out
    @property
    def suffix(self): return splitext(self.name)[1]
    @property
    def stem(self): return splitext(self.name)[0]
    @property
    def parts(self):
        return tuple((['/'] if self._p.startswith('/') else []) + [x for x in self._p.split('/') if x])
    def with_suffix(self, s): return Path(splitext(self._p)[0] + s)
    def with_name(self, n): return Path(join(dirname(self._p), n))
    def is_absolute(self): return self._p.startswith('/')
    def relative_to(self, o):
        o = Path(o)
        a, b = self.parts, o.parts if o._p != '.' else ()
        if a[:len(b)] != b:
            raise ValueError('not a subpath')
        return Path(*a[len(b):]) if len(a) > len(b) else Path('.')
    def is_relative_to(self, o):
        b = Path(o).parts
        return self.parts[:len(b)] == b
    def match(self, pat): return fnmatch(self.name, pat)
    def resolve(self, strict=False): return Path(abspath(self._p))
    def absolute(self): return Path(abspath(self._p))
    def expanduser(self): return self
    def exists(self): return __kind(self._p) != 'none'
    def is_dir(self): return __kind(self._p) == 'dir'
    def is_file(self): return __kind(self._p) == 'file'
    def is_symlink(self): return islink(self._p)
    def iterdir(self): return iter([self / n for n in listdir(self._p)])
    def glob(self, pat):
        out = []
        for x in _glob(self._p, [p for p in fspath(pat).split('/') if p], True, True):
            if x not in out:
                out.append(x)
        return iter([Path(x) for x in out])
    def rglob(self, pat): return self.glob(join('**', fspath(pat)))
    def walk(self, top_down=True):
        for a, b, c in walk(self._p, top_down):
            yield Path(a), b, c
    def mkdir(self, mode=511, parents=False, exist_ok=False):
        if exist_ok and __known(self._p) == 'dir':
            return
        if not exist_ok and __kind(self._p) != 'none':
            raise FileExistsError(self._p)
        if not parents and __kind(dirname(abspath(self._p))) != 'dir':
            raise FileNotFoundError(self._p)
        __fx('mkdir', None, self._p)
    def unlink(self, missing_ok=False):
        if missing_ok and __kind(self._p) == 'none':
            return
        remove(self._p)
    def rmdir(self): rmdir(self._p)
    def rename(self, o): rename(self._p, o)
    replace = rename
    def open(self, mode='r', *a, **k): return open(self._p, mode)
    def read_bytes(self): return open(self._p, 'rb').read()
    def read_text(self, *a, **k): return open(self._p).read()
    def write_bytes(self, data): return open(self._p, 'wb').write(data)
    def write_text(self, data, *a, **k): return open(self._p, 'w').write(data)
    def stat(self): return stat(self._p)
    @classmethod
    def cwd(cls): return cls(getcwd())

class Path(PurePath):
    pass

class stat:
    def __init__(self, p):
        self.st_size = getsize(p)
        self.st_mtime = 0
        self.st_mode = 0

def sys_exit(code=None):
    raise SystemExit(code)
'''
OS = "listdir scandir walk makedirs mkdir remove rmdir rename stat fspath getcwd".split()
PATH = ("join basename dirname normpath abspath realpath relpath split splitext isdir isfile exists isabs commonpath "
        "commonprefix getsize expanduser normcase").split()
SHUTIL = "rmtree copy copyfile copystat copyfileobj move ignore_patterns copytree".split()
HARMLESS = ("logging.", "warnings.", "time.", "sys.stdout", "sys.stderr", "textwrap.", "datetime.")


class FileSystem:
    """bind(ip) makes the interpreter resolve os, shutil, zipfile, pathlib, ... to this model"""

    def __init__(self, real_root, virtual_root):
        self.real, self.virt = real_root, virtual_root
        self.extra = {}
        self.argv = ""
        self.top = posixpath.join(virtual_root, "build")

    def bind(self, ip):
        self.ip = ip
        self.mods = {}
        ip.fs = self
        env = Env(None, ModuleVal("<fs>"), "module")
        env.vars = env.module.ns
        ns = env.vars
        B = lambda n, f: ns.__setitem__(n, BuiltinVal(n, f))
        B("__fx", self.fx)
        B("__kind", lambda i, a, k: self.kind(i, self.fspath(i, a[0])))
        B("__known", lambda i, a, k: self.known(i, self.fspath(i, a[0])))
        B("__list", lambda i, a, k: self.list_(i, self.fspath(i, a[0])))
        B("__argv", lambda i, a, k: "" if self.argv == "" else ListVal(self.argv, i.birth()))
        B("__content", self.content)
        B("__source", lambda i, a, k: N(a[0].args[0]) if isinstance(a[0], Term) and a[0].op == "content" else None)
        B("__glob_parts", self.glob_parts)
        B("__clean", lambda i, a, k: self.clean(N(a[0])))
        B("fspath", lambda i, a, k: self.fspath(i, a[0]))
        B("join", self.join)
        for n in ("basename", "dirname", "normpath"):
            ns[n] = self.pure(n, getattr(posixpath, n))
        for n in ("abspath", "realpath"):
            ns[n] = self.pure(n, lambda p: posixpath.normpath(posixpath.join(self.virt or "/cwd", p)))
        for n in ("isdir", "isfile", "exists"):
            ns[n] = self.test(n)
        ns["lexists"] = ns["exists"]
        for n in ("expanduser", "normcase"):
            B(n, lambda i, a, k: self.fspath(i, a[0]))
        B("islink", lambda i, a, k: self.islink(i, self.fspath(i, a[0]), True))
        B("__islink", lambda i, a, k: self.islink(i, self.fspath(i, a[0]), False))
        B("relpath", self.relpath)
        B("split", self.split)
        B("splitext", self.concrete(posixpath.splitext))
        B("isabs", self.concrete(posixpath.isabs))
        B("commonpath", lambda i, a, k: posixpath.commonpath([self.need(i, x) for x in i.iterate(a[0])]))
        B("commonprefix", lambda i, a, k: posixpath.commonprefix([self.need(i, x) for x in i.iterate(a[0])]))
        B("getsize", self.getsize)
        B("getcwd", lambda i, a, k: self.virt or "/cwd")
        import fnmatch
        B("fnmatch", lambda i, a, k: fnmatch.fnmatchcase(self.need(i, a[0]), self.need(i, a[1])))
        saved = ip.run
        ip.run = None
        ip.exec_block(ast.parse(SRC).body, env)
        ip.run = saved
        self.ns = ns
        ip.builtins["open"] = ns["open"]

    # ---- what exists
    def canon(self, ip, p):
        if isinstance(p, Term) and ip.run is not None:
            p = N(ip.run.facts.canon(p))
        if not isinstance(p, str):
            return p
        p = posixpath.normpath(p)
        if not self.virt and (p == "/cwd" or p.startswith("/cwd/")):
            p = posixpath.relpath(p, "/cwd")
        return p

    def fspath(self, ip, x):
        x = N(x)
        if isinstance(x, InstVal) and x.cls.has("__fspath__"):
            return ip.call(ip.getattr(x, "__fspath__"), [])
        if x is None or isinstance(x, (bool, int)) or isinstance(x, Obj):
            ip.raise_("TypeError", "path")
        return x

    def need(self, ip, x):
        x = self.canon(ip, self.fspath(ip, x)) if not isinstance(N(x), str) else N(x)
        if not isinstance(x, str):
            ip.unsupported("operation on an unknown path")
        return x

    def log(self, ip):
        r = ip.run
        if r is None:
            return []
        if not hasattr(r, "fslog"):
            r.fslog = []
        return r.fslog

    def within(self, p, d):
        """p is d or lies under it"""
        if isinstance(p, str) and isinstance(d, str):
            return p == d or p.startswith(d.rstrip("/") + "/") or d == "." and not p.startswith(("/", ".."))
        while isinstance(p, Term):
            if p is d:
                return True
            if p.op == "pathjoin":
                q = N(p.args[0])
                p = q if len(p.args) == 2 else None
                if isinstance(q, str) and isinstance(d, str):
                    return self.within(posixpath.normpath(q), d)
            elif p.op == "dirname":
                return False
            else:
                return False
        return False

    def known(self, ip, p):
        """kind of a path as far as the tool's own changes and the repository's tree settle it, else None"""
        p = self.canon(ip, p)
        for ev, q in reversed(self.log(ip)):
            if ev == "mkdir" and (p is q or p == q or self.within(q, p)):
                return "dir"
            if ev == "file" and (p is q or p == q):
                return "file"
            if ev == "file" and self.within(q, p):
                return "dir"
            if ev == "gone" and self.within(p, q):
                return "none"
        if isinstance(p, Term) and p.op == "dirname" and ip.run is not None:
            for ev, q in reversed(self.log(ip)):
                if ev == "mkdir" and q is p:
                    return "dir"
        r = self.real_path(p)
        if r is not None and not self.within(p, posixpath.normpath(self.top)):
            if posixpath.basename(p) == "__pycache__" or posixpath.basename(p) == "tests" and self.hyp(posixpath.dirname(p)):
                return "dir"
            if posixpath.basename(posixpath.dirname(p)) in ("__pycache__", "tests"):
                return "file"
            e = self.extra_of(p)
            if e is not None:
                return "dir"
            up = self.extra_of(posixpath.dirname(p))
            if up is not None and posixpath.basename(p) in up[1]:
                return "file"
            return "dir" if os.path.isdir(r) else "file" if os.path.isfile(r) else "none"
        if isinstance(p, str) and not self.within(p, posixpath.normpath(self.top)) and r is None:
            v = self.virt or "/cwd"
            if self.within(v, p):
                return "dir"
        return None

    def kind(self, ip, p):
        k = self.known(ip, p)
        if k is not None:
            return k
        p = self.canon(ip, p)
        if isinstance(p, Term) and p.op == "pathjoin" and p.args[-1].op == "fs.file":
            return "file"                    # the file that stands for the content of an unknown directory
        top = posixpath.normpath(self.top)
        file = isinstance(p, str) and p not in (top,) and posixpath.dirname(p) != top and (
            "." in posixpath.basename(p) or posixpath.basename(p) == "NOTICE")
        if ip.run is None:
            ip.unsupported("file system at import time")
        lits = [(N(l.args[0]), v) for l, v in ip.run.facts.order if l.op in ("fs.isdir", "fs.isfile")]
        if any(not v and p != q and self.within(p, q) for q, v in lits):
            return "none"
        if not file and any(v and p != q and self.within(q, p) for q, v in lits):
            return "dir"
        lit = mk("fs.isfile" if file else "fs.isdir", (ip.term_of(p),), "bool", True)
        if not ip.choose(lit):
            return "none"
        return "file" if file else "dir"

    def islink(self, ip, p, ask):
        """a directory that is not of the repository may be reached through a symbolic link"""
        if self.known(ip, p) is not None or ip.run is None or not ask and not any(
                l.op == "fs.islink" for l, _ in ip.run.facts.order):
            return False
        if self.kind(ip, p) != "dir":
            return False
        lit = mk("fs.islink", (ip.term_of(self.canon(ip, p)),), "bool", True)
        return ip.choose(lit) if ask else ip.run.facts.decide(lit) is True

    def hyp(self, p):
        """a contract's own directory: may have tests in it"""
        r = self.real_path(p)
        return r is not None and os.path.isfile(os.path.join(r, "package.json"))

    def list_(self, ip, p):
        p = self.canon(ip, p)
        if not isinstance(p, str):
            # an unknown directory: one unknown file in it stands for all of them
            return ListVal([], ip.birth()), ListVal([mk("fs.file", (ip.term_of(p),), "str", True)], ip.birth())
        top = posixpath.normpath(self.top)
        if self.within(p, top):
            names = [mk("fs.file", (ip.term_of(p),), "str", True)] if self.known(ip, p) is None else []
            d, f = [], []
            for ev, q in self.log(ip):
                if ev in ("mkdir", "file") and isinstance(q, str) and q != p and self.within(q, p):
                    n = posixpath.relpath(q, p).split("/")
                    (f if ev == "file" and len(n) == 1 else d).append(n[0])
            return ListVal(sorted(set(d)), ip.birth()), ListVal(sorted(set(f)) + names, ip.birth())
        d, f = self.listing(p)
        return ListVal(d, ip.birth()), ListVal(f, ip.birth())

    def fx(self, ip, a, k):
        op, src, dst = a[0], N(a[1]) if a[1] is None else self.fspath(ip, a[1]), self.fspath(ip, a[2])
        p = self.canon(ip, dst)
        log = self.log(ip)
        if op in ("rmtree", "remove"):
            log.append(("gone", p))
        elif op in ("mkdir", "extract"):
            log.append(("mkdir", p))
        elif op in ("copy", "write"):
            log.append(("file", p))
        elif op == "move":
            q = self.canon(ip, src)
            log.append((("file" if self.known(ip, q) == "file" else "mkdir"), p))
            log.append(("gone", q))
        ip.effect("fs", op=op, src=src, dst=dst)
        return None

    def content(self, ip, a, k):
        t = mk("content", (T(a[0]),), "bytes" if a[1] else "str", True)
        if ip.run is not None:
            ip.run.facts.assume(ip.truth_lit(t), True)
        return t

    def getsize(self, ip, a, k):
        p = self.canon(ip, self.fspath(ip, a[0]))
        r = self.real_path(p)
        if r is not None and os.path.isfile(r) and not self.within(p, posixpath.normpath(self.top)):
            return os.path.getsize(r)
        if self.kind(ip, p) == "none":
            ip.raise_("FileNotFoundError", "getsize")
        return mk("fs.size", (ip.term_of(p),), "int", True)

    def file_of(self, path):
        return posixpath.join(self.virt, os.path.relpath(path, self.real))

    # ---- paths
    def clean(self, p):
        if not isinstance(p, str):
            return p
        return ("/" if p.startswith("/") else "") + "/".join(x for x in p.split("/") if x not in ("", ".")) or "."

    def join(self, ip, a, k):
        a = [self.fspath(ip, x) for x in a]
        if all(isinstance(x, str) for x in a):
            return posixpath.join(*a)
        if len(a) == 1:
            return a[0]
        return mk("pathjoin", tuple(T(x) for x in a), "str", True)

    def pure(self, name, f):
        def g(ip, a, k):
            x = self.fspath(ip, a[0])
            if isinstance(x, Term) and x.op == "pathjoin" and name in ("basename", "dirname"):
                last, head = N(x.args[-1]), [N(y) for y in x.args[:-1]]
                plain = isinstance(last, Term) and last.op == "fs.file"
                if plain or isinstance(last, str) and last and not last.startswith("/"):
                    if name == "basename":
                        return last if plain else posixpath.basename(last)
                    d = "" if plain else posixpath.dirname(last)
                    return self.join(ip, head + ([d] if d else []), {})
            return f(x) if isinstance(x, str) else mk(name, (ip.term_of(x),), "str", True)
        return BuiltinVal(name, g)

    def glob_parts(self, ip, a, k):
        """(directory a pattern starts from, remaining components)"""
        x = self.canon(ip, a[0]) if not isinstance(a[0], str) else a[0]
        tail = []
        while isinstance(x, Term) and x.op == "pathjoin" and isinstance(N(x.args[-1]), str):
            tail = [y for y in N(x.args[-1]).split("/") if y] + tail
            x = self.join(ip, [N(y) for y in x.args[:-1]], {})
        if isinstance(x, str):
            tail = [y for y in x.split("/") if y] + tail
            x = "/" if x.startswith("/") else ""
        return x, ListVal(tail, ip.birth())

    def split(self, ip, a, k):
        x = self.fspath(ip, a[0])
        return posixpath.split(x) if isinstance(x, str) else tuple(ip.call(self.ns[n], [x]) for n in ("dirname", "basename"))

    def concrete(self, f):
        return lambda ip, a, k: f(self.need(ip, a[0]))

    def test(self, name):
        def g(ip, a, k):
            x = self.kind(ip, self.fspath(ip, a[0]))
            return x != "none" if name == "exists" else x == {"isdir": "dir", "isfile": "file"}[name]
        return BuiltinVal(name, g)

    def real_path(self, p):
        """path in the repository denoted by a virtual path, or None"""
        if not isinstance(p, str):
            return None
        p = posixpath.normpath(p)
        v = posixpath.normpath(self.virt) if self.virt else ""
        if not v and p.startswith("/cwd"):
            p = posixpath.relpath(p, "/cwd")
        if v:
            if p == v:
                return self.real
            if p.startswith(v + "/"):
                return os.path.join(self.real, p[len(v) + 1:])
            return None if p.startswith("/") else os.path.join(self.real, p)
        return None if p.startswith("/") or p.startswith("..") else os.path.join(self.real, p)

    def listing(self, p):
        if posixpath.basename(p) == "__pycache__":
            return [], ["cached.cpython-37.pyc"]
        if posixpath.basename(p) == "tests" and self.hyp(posixpath.dirname(p)):
            return [], ["__init__.py", "test_of_the_contract.py"]
        r = self.real_path(p)
        more = self.extra_of(p)
        if more is not None and (r is None or not os.path.isdir(r)):
            return list(more[0]), list(more[1])
        if r is None or not os.path.isdir(r):
            return [], []
        ns = sorted(x for x in os.listdir(r) if x not in ("__pycache__", ".git"))
        dirs = [x for x in ns if os.path.isdir(os.path.join(r, x))]
        files = [x for x in ns if not os.path.isdir(os.path.join(r, x))]
        if self.hyp(p) and "tests" not in dirs:
            dirs.append("tests")             # contracts may keep their unit tests beside them
        if any(x.endswith(".py") for x in files):
            dirs.append("__pycache__")       # left behind by any earlier import
        if more is not None:
            dirs += more[0]
            files += more[1]
        return dirs, files

    def extra_of(self, p):
        """source files a contract may gain: {path below the project: (directories, files)}"""
        r = self.real_path(p) if self.extra and isinstance(p, str) else None
        return self.extra.get(os.path.relpath(r, self.real)) if r is not None else None

    def relpath(self, ip, a, k):
        p, s = self.fspath(ip, a[0]), self.fspath(ip, a[1]) if len(a) > 1 else k.get("start", self.virt or "/cwd")
        if isinstance(p, str) and isinstance(s, str):
            ab = lambda x: posixpath.normpath(posixpath.join(self.virt or "/cwd", x))
            return posixpath.relpath(ab(p), ab(s))
        if isinstance(p, Term) and p.op == "pathjoin" and isinstance(s, str) and isinstance(N(p.args[0]), str):
            first = self.relpath(ip, [N(p.args[0]), s], {})
            return self.join(ip, ([] if first == "." else [first]) + list(p.args[1:]), {}) if len(p.args) > 2 or first != "." \
                else N(p.args[1])
        return mk("relpath", (ip.term_of(p), ip.term_of(s)), "str", True)

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        m = ModuleVal(name)
        m.opaque = True
        self.mods[name] = m
        take = lambda names: m.ns.update({n: self.ns[n] for n in names})
        if name == "os":
            take(OS)
            m.ns.update({"path": self.module("os.path"), "sep": "/", "linesep": "\n", "unlink": self.ns["remove"],
                         "replace": self.ns["rename"], "curdir": ".", "pardir": "..",
                         "PathLike": self.ns["PurePath"], "removedirs": self.ns["rmdir"]})
        elif name in ("os.path", "posixpath"):
            take(PATH)
            m.ns.update({"sep": "/", "lexists": self.ns["exists"], "islink": self.ns["islink"], "pardir": ".."})
        elif name == "shutil":
            take(SHUTIL)
            m.ns["copy2"] = self.ns["copy"]
            m.ns["Error"] = self.ip.builtins["OSError"]
        elif name == "zipfile":
            m.ns.update({"ZipFile": self.ns["ZipFile"], "ZipInfo": self.ns["ZipInfo"], "BadZipFile": self.ns["BadZipFile"], "ZIP_STORED": 0, "ZIP_DEFLATED": 8,
                         "ZIP_BZIP2": 12, "ZIP_LZMA": 14})
        elif name == "io":
            m.ns["BytesIO"] = self.ns["BytesIO"]
            m.ns["open"] = self.ns["open"]
        elif name == "pathlib":
            m.ns.update({"Path": self.ns["Path"], "PurePath": self.ns["PurePath"], "PosixPath": self.ns["Path"],
                         "PurePosixPath": self.ns["PurePath"]})
        elif name == "glob":
            take(["glob", "iglob"])
        elif name == "fnmatch":
            take(["fnmatch", "filter"])
            m.ns["fnmatchcase"] = self.ns["fnmatch"]
        elif name == "sys":
            m.ns["exit"] = self.ns["sys_exit"]
            m.ns["argv"] = ListVal(["build.py"] + list(self.argv or []))
            m.ns["path"] = ListVal([])
        elif name == "argparse":
            m.ns.update({"ArgumentParser": self.ns["ArgumentParser"], "Namespace": self.ns["Namespace"],
                         "RawDescriptionHelpFormatter": OpaqueVal("argparse.formatter"),
                         "RawTextHelpFormatter": OpaqueVal("argparse.formatter")})
        else:
            del self.mods[name]
            return None
        return m
