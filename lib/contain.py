"""Containment of code that deletes files: while active, nothing outside of one directory can be removed or renamed, and no process started."""
import os
import sys

_active = [None]      # allowed directory
_attempts = []
_installed = [False]


class Escape(Exception):
    """the code under test tried to touch something outside of its directory"""


def _inside(path):
    if isinstance(path, int):
        return True
    real = os.path.realpath(os.path.join(os.getcwd(), os.fspath(path) if not isinstance(path, bytes) else os.fsdecode(path)))
    root = os.path.realpath(_active[0])
    return real.startswith(root + os.sep)


def _hook(event, args):
    if _active[0] is None:
        return
    if event in ("shutil.rmtree", "os.remove", "os.rmdir", "os.truncate"):
        dir_fd = args[1] if len(args) > 1 else -1
        if dir_fd not in (None, -1) and event != "shutil.rmtree":
            return  # inside of a directory that was checked by the rmtree event
        if not _inside(args[0]):
            _attempts.append("{} {}".format(event, args[0]))
            raise Escape("{} outside of the experiment: {}".format(event, args[0]))
    elif event in ("os.rename", "shutil.move"):
        if not (_inside(args[0]) and _inside(args[1])):
            _attempts.append("{} {}".format(event, args[0]))
            raise Escape("{} outside of the experiment: {}".format(event, args[0]))
    elif event in ("os.system", "subprocess.Popen", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "os.forkpty"):
        _attempts.append(event)
        raise Escape("process started: {}".format(event))


class contained(object):
    def __init__(self, directory):
        self.directory = directory

    def __enter__(self):
        if not _installed[0]:
            sys.addaudithook(_hook)
            _installed[0] = True
        del _attempts[:]
        self.cwd = os.getcwd()
        os.chdir(self.directory)
        _active[0] = self.directory
        return self

    def __exit__(self, *args):
        _active[0] = None
        os.chdir(self.cwd)

    @property
    def attempts(self):
        return list(_attempts)
