"""References to effectful library functions in a module, resolved through its imports and simple aliases."""
from __future__ import annotations

import ast
import sys

PROCESS = {"os": ["system", "popen", "fork", "forkpty", "posix_spawn", "posix_spawnp", "startfile", "exec*", "spawn*"], "subprocess": ["*"], "multiprocessing": ["*"],
           "pty": ["*"], "concurrent.futures": ["ProcessPoolExecutor"], "concurrent.futures.process": ["*"], "asyncio": ["create_subprocess_*"], "commands": ["*"]}
NETWORK = {"socket": ["*"], "socketserver": ["*"], "ssl": ["*"], "urllib.request": ["*"], "http.client": ["*"], "http.server": ["*"], "ftplib": ["*"], "smtplib": ["*"],
           "poplib": ["*"], "imaplib": ["*"], "telnetlib": ["*"], "nntplib": ["*"], "xmlrpc": ["*"], "webbrowser": ["*"], "asyncio": ["open_connection", "start_server", "open_unix_connection"],
           "logging.handlers": ["SocketHandler", "DatagramHandler", "SMTPHandler", "HTTPHandler", "SysLogHandler"]}
CODE = {"builtins": ["eval", "exec", "compile"], "pickle": ["load", "loads", "Unpickler"], "_pickle": ["*"], "marshal": ["load", "loads"], "shelve": ["*"], "runpy": ["*"], "code": ["*"],
        "codeop": ["*"], "imp": ["*"], "ctypes": ["CDLL", "PyDLL", "WinDLL", "OleDLL", "cdll", "pydll", "windll", "oledll", "LibraryLoader"],
        "importlib.util": ["spec_from_file_location", "spec_from_loader"], "importlib.machinery": ["SourceFileLoader", "SourcelessFileLoader", "ExtensionFileLoader"],
        "types": ["FunctionType", "CodeType", "LambdaType"], "timeit": ["*"], "cProfile": ["run", "runctx"], "profile": ["run", "runctx"], "site": ["addsitedir"],
        "zipimport": ["*"], "logging.config": ["*"], "pdb": ["*"], "builtins.": ["breakpoint"], "doctest": ["*"]}
DISK = {"os": ["remove", "unlink", "rename", "renames", "replace", "rmdir", "removedirs", "mkdir", "makedirs", "mkfifo", "mknod", "chmod", "fchmod", "lchmod", "chown", "fchown", "lchown",
               "truncate", "ftruncate", "link", "symlink", "utime", "setxattr", "removexattr", "pwrite", "pwritev", "writev", "copy_file_range", "sendfile", "memfd_create"],
        "shutil": ["copy*", "move", "rmtree", "chown", "make_archive", "unpack_archive"], "tempfile": ["*"], "sqlite3": ["*"], "dbm": ["*"], "dbm.gnu": ["*"], "dbm.ndbm": ["*"], "dbm.dumb": ["*"],
        "logging": ["FileHandler"], "logging.handlers": ["RotatingFileHandler", "TimedRotatingFileHandler", "WatchedFileHandler"], "faulthandler": ["register"], "py_compile": ["*"],
        "compileall": ["*"], "fileinput": ["*"]}
KINDS = {"starts a process": PROCESS, "uses the network": NETWORK, "executes code from outside the package": CODE, "changes the disk": DISK}
# Path methods that change the disk, when the module uses pathlib.
PATH_METHODS = {"write_text", "write_bytes", "unlink", "mkdir", "rmdir", "touch", "symlink_to", "hardlink_to", "link_to", "chmod", "lchmod"}
OPENERS = {"builtins.open": 1, "io.open": 1, "gzip.open": 1, "bz2.open": 1, "lzma.open": 1, "codecs.open": 1, "gzip.GzipFile": 1, "bz2.BZ2File": 1, "lzma.LZMAFile": 1, "io.FileIO": 1,
           "zipfile.ZipFile": 1, "tarfile.open": 1, "tarfile.TarFile": 1, "os.fdopen": 1, "wave.open": 1}
BUILTINS = {"eval", "exec", "compile", "open", "__import__", "getattr", "breakpoint", "print"}


def match(pat, name):
    return name.startswith(pat[:-1]) if pat.endswith("*") else name == pat


def kind_of(dotted):
    """Why a dotted name is forbidden, or None."""
    for why, table in KINDS.items():
        for mod, names in table.items():
            mod = mod.rstrip(".")
            if dotted == mod:
                continue
            if dotted.startswith(mod + "."):
                rest = dotted[len(mod) + 1:]
                if any(match(p, rest.split(".")[0]) for p in names):
                    return why
    return None


class Module:
    def __init__(self, name, tree, is_pkg=False):
        self.name, self.tree, self.is_pkg = name, tree, is_pkg
        self.parents = {}
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                self.parents[c] = n
        self.alias = {}
        self.bound = set()
        self.find_names()

    def find_names(self):
        stars = []
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.alias.setdefault(a.asname or a.name.split(".")[0], a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    if a.name == "*":
                        stars.append(n.module)
                    else:
                        self.alias.setdefault(a.asname or a.name, f"{n.module}.{a.name}")
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.bound.add(n.name)
                if not isinstance(n, ast.ClassDef):
                    for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
                        self.bound.add(a.arg)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.bound.add(n.id)
        for m in stars:
            for table in KINDS.values():
                for name in table.get(m, ()):
                    if not name.endswith("*"):
                        self.alias.setdefault(name, f"{m}.{name}")
        for _ in range(4):
            for n in ast.walk(self.tree):
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for d in self.choices(n.value):
                        for t in ts:
                            if isinstance(t, ast.Name) and kind_of(d):
                                self.alias.setdefault(t.id, d)

    def choices(self, e):
        if isinstance(e, ast.IfExp):
            return self.choices(e.body) + self.choices(e.orelse)
        if isinstance(e, ast.BoolOp):
            return [d for v in e.values for d in self.choices(v)]
        d = self.dotted(e)
        return [d] if d else []

    def dotted(self, e):
        """The library name an expression refers to, or None."""
        if isinstance(e, ast.Name):
            if e.id in self.alias:
                return self.alias[e.id]
            return f"builtins.{e.id}" if e.id in BUILTINS and e.id not in self.bound else None
        if isinstance(e, ast.Attribute):
            d = self.dotted(e.value)
            return f"{d}.{e.attr}" if d else None
        if isinstance(e, ast.Call):
            d = self.dotted(e.func)
            s = [a.value for a in e.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            if d in ("builtins.__import__", "importlib.import_module", "importlib.__import__") and e.args and len(s) >= 1 and isinstance(e.args[0], ast.Constant):
                return s[0] if d == "importlib.import_module" else s[0].split(".")[0]
            if d == "builtins.getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str):
                o = self.dotted(e.args[0])
                return f"{o}.{e.args[1].value}" if o else None
        return None

    def scope(self, n):
        names = []
        while n in self.parents:
            n = self.parents[n]
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.append(n.name)
        return ".".join(reversed(names)) or "<module>"

    def type_only(self, n):
        """Only seen by type checkers."""
        while n in self.parents:
            c, n = n, self.parents[n]
            if isinstance(n, ast.If) and c in n.body and ast.unparse(n.test) in ("TYPE_CHECKING", "typing.TYPE_CHECKING", "False"):
                return True
            if isinstance(n, ast.arg) and c is n.annotation or isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and c is n.returns or isinstance(n, ast.AnnAssign) and c is n.annotation:
                return True
        return False

    def optional(self, n):
        """In a try statement that goes on when the import fails."""
        while n in self.parents:
            c, n = n, self.parents[n]
            if isinstance(n, ast.Try) and c in n.body:
                for h in n.handlers:
                    names = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
                    if h.type is None or any(isinstance(x, ast.Name) and x.id in ("ImportError", "ModuleNotFoundError", "Exception", "BaseException") for x in names):
                        return not any(isinstance(x, ast.Raise) for s in h.body for x in ast.walk(s))
        return False

    def references(self):
        """(node, dotted name, why) of every reference to a forbidden function."""
        for n in ast.walk(self.tree):
            if not isinstance(n, (ast.Name, ast.Attribute, ast.Call)) or isinstance(getattr(n, "ctx", None), (ast.Store, ast.Del)):
                continue
            if isinstance(self.parents.get(n), ast.Attribute) and kind_of(self.dotted(self.parents[n]) or ""):
                continue
            d = self.dotted(n)
            why = kind_of(d) if d else None
            if why and not self.type_only(n):
                yield n, d, why

    def imports(self):
        """(node, module name) of every import of something outside the package."""
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    yield n, a.name
            elif isinstance(n, ast.ImportFrom):
                if not n.level:
                    yield n, n.module
                else:
                    base = self.name.split(".")
                    base = base[:len(base) - n.level + (1 if self.is_pkg else 0)]
                    yield n, ".".join(base + ([n.module] if n.module else []))
            elif isinstance(n, ast.Call) and self.dotted(n.func) in ("importlib.import_module", "builtins.__import__", "importlib.__import__"):
                a = n.args[0] if n.args else None
                yield n, a.value if isinstance(a, ast.Constant) and isinstance(a.value, str) else None

    def opens(self):
        """(call, opener, mode or None when not constant) of every call that opens a file."""
        for n in ast.walk(self.tree):
            if not isinstance(n, ast.Call):
                continue
            d = self.dotted(n.func)
            if d == "os.open":
                yield n, d, os_mode(n)
                continue
            pos = OPENERS.get(d) if d else None
            if pos is None and isinstance(n.func, ast.Attribute) and n.func.attr == "open" and d is None and self.uses("pathlib"):
                pos = 0
                d = "Path.open"
            if pos is None:
                continue
            m = n.args[pos] if len(n.args) > pos else next((k.value for k in n.keywords if k.arg == "mode"), None)
            if m is None:
                yield n, d, None if any(k.arg is None for k in n.keywords) or any(isinstance(a, ast.Starred) for a in n.args) else "r"
            else:
                yield n, d, m.value if isinstance(m, ast.Constant) and isinstance(m.value, str) else None

    def uses(self, mod):
        return any(x and (x == mod or x.startswith(mod + ".")) for _, x in self.imports())


def os_mode(n):
    names = {x.attr for a in n.args[1:] + [k.value for k in n.keywords] for x in ast.walk(a) if isinstance(x, ast.Attribute)} | {
        x.id for a in n.args[1:] + [k.value for k in n.keywords] for x in ast.walk(a) if isinstance(x, ast.Name)}
    if names & {"O_WRONLY", "O_RDWR", "O_CREAT", "O_TRUNC", "O_APPEND"}:
        return "w"
    return "r" if "O_RDONLY" in names else None


def stdlib(name):
    return name.split(".")[0] in sys.stdlib_module_names
