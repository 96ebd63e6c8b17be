"""Driver: run the real TRLC implementation on in-memory sources.

Everything here goes through the public API (Message_Handler,
Source_Manager, Symbol_Table); nothing depends on helper functions.
"""
import os
import sys
import io
import atexit
import shutil
import tempfile
import traceback

REPO = os.environ.get("TRLC_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

from trlc.errors import Message_Handler, TRLC_Error, Kind  # noqa: E402
from trlc import trlc as trlc_mod                            # noqa: E402
from trlc import ast                                         # noqa: E402

Source_Manager = trlc_mod.Source_Manager


class Msg:
    __slots__ = ("kind", "file", "line", "col", "text", "extra", "category",
                 "loc")

    def __init__(self, kind, file, line, col, text, extra, category,
                 loc=None):
        self.loc = loc
        self.kind = kind
        self.file = file
        self.line = line
        self.col = col
        self.text = text
        self.extra = extra
        self.category = category

    def key(self):
        return (self.kind, self.file, self.line, self.col, self.text)

    def __repr__(self):
        return "%s:%s:%s: %s: %s" % (self.file, self.line, self.col,
                                     self.kind, self.text)


class Recorder(Message_Handler):
    """Message handler which records messages instead of printing them.

    Only the single point where all messages pass is overridden, and it
    calls the original so that counting / raising is the real code's."""

    def __init__(self, brief=False, detailed_info=True):
        super().__init__(brief=brief, detailed_info=detailed_info,
                         out=io.StringIO())
        self.msgs = []

    def emit(self, location, kind, message, fatal=True, extrainfo=None,
             category=None):
        self.msgs.append(Msg(kind.name, os.path.basename(location.file_name),
                             location.line_no, location.col_no, message,
                             extrainfo, category, location))
        return super().emit(location, kind, message, fatal, extrainfo,
                            category)


_scratch = None
_scratch_pid = None
_made = set()


def scratch():
    global _scratch, _scratch_pid
    if _scratch is None or _scratch_pid != os.getpid():
        _scratch = tempfile.mkdtemp(prefix="trlcmc-")
        _scratch_pid = os.getpid()
        _made.clear()
        atexit.register(cleanup)
    return _scratch


def cleanup():
    """Remove this process' scratch directory"""
    global _scratch
    if _scratch is not None and _scratch_pid == os.getpid():
        shutil.rmtree(_scratch, True)
        _scratch = None


def path_of(name):
    full = os.path.join(scratch(), name)
    if full not in _made:
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w", encoding="UTF-8"):
            pass
        _made.add(full)
    return full


class Result:
    def __init__(self, msgs, stab, crash, mh, ok_reg, output, sm):
        self.msgs = msgs
        self.stab = stab
        self.crash = crash
        self.mh = mh
        self.ok_reg = ok_reg
        self.output = output
        self.sm = sm

    @property
    def ok(self):
        return self.stab is not None and self.ok_reg

    def errors(self):
        return [m for m in self.msgs if "ERROR" in m.kind]


def crash_sig(exc):
    """Signature of an internal crash: exception type + innermost trlc
    function (not line numbers, so that it is stable under refactoring)."""
    tb = traceback.extract_tb(exc.__traceback__)
    fn = "?"
    for frame in tb:
        if "/trlc/" in frame.filename:
            fn = "%s:%s" % (os.path.basename(frame.filename), frame.name)
    return "%s in %s: %s" % (type(exc).__name__, fn, str(exc)[:120])


def run(files, lint=False, verify=False, recovery=True, parse_trlc=True,
        primary=None, order=None, brief=False, detailed=True):
    """files: dict name -> content. Returns a Result; internal crashes (any
    exception other than TRLC_Error escaping) are captured in .crash"""
    mh = Recorder(brief, detailed)
    sm = Source_Manager(mh, lint_mode=lint, verify_mode=verify,
                        error_recovery=recovery, parse_trlc=parse_trlc)
    stab = None
    crash = None
    ok_reg = True
    try:
        for name in (order or files):
            if not sm.register_file(path_of(name), files[name],
                                    primary=(primary is None or
                                             name in primary)):
                ok_reg = False
        stab = sm.process()
    except (Exception, SystemExit) as err:      # noqa
        crash = crash_sig(err)
    return Result(mh.msgs, stab, crash, mh, ok_reg, mh.out.getvalue(), sm)
