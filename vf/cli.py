"""Running the command-line programs in this process."""
import contextlib
import io
import logging


def run(main, args):
    """(exit status, everything printed). A SystemExit is the exit status;
    other exceptions propagate (they are crashes)."""
    root = logging.getLogger()
    handlers, level = root.handlers[:], root.level
    root.handlers[:] = []
    out = io.StringIO()
    status = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                main(list(args))
            except SystemExit as e:
                status = e.code if e.code is not None else 0
    finally:
        root.handlers[:] = handlers
        root.setLevel(level)
    return status, out.getvalue()


