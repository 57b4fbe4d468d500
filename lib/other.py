"""A second process with another hash seed which loads saved taggers and tags documents.

Client: Other(real).tag(path, document specs) -> views.   Server: python other.py fake|real, one JSON request per line.
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Other(object):
    def __init__(self, kind):
        env = dict(os.environ, PYTHONHASHSEED="4242")
        self.process = subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__), kind], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                        stderr=subprocess.DEVNULL, env=env, text=True, encoding="utf-8")

    def tag(self, path, builder, specs):
        """-> (views, None) or (None, error)"""
        from lib.core import HarnessError
        try:
            self.process.stdin.write(json.dumps([path, builder, specs]) + "\n")
            self.process.stdin.flush()
            line = self.process.stdout.readline()
        except OSError as e:
            raise HarnessError("second process: {}".format(e))
        if not line:
            raise HarnessError("second process died")
        return json.loads(line)


_others = {}


def other(kind):
    if kind not in _others:
        _others[kind] = Other(kind)
    return _others[kind]


def serve(kind):
    out = os.fdopen(os.dup(1), "w", encoding="utf-8")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    sys.stdout = open(os.devnull, "w")
    sys.path.insert(0, HERE)
    from lib import core
    core.prepare_imports()
    from lib import docs, features  # noqa: features replaces the byte-pair model
    if kind == "real":
        from lib import tf1
        tf1.install()
        from babylondigger.neural.tagger import neural_tagger as module
    else:
        from lib import neural_fake
        neural_fake.new_world()
        module = neural_fake.neural_tagger()
    for line in sys.stdin:
        path, builder, specs = json.loads(line)
        try:
            if builder == "c26":
                from props import c26
                documents = [c26.documents(case, sentences) for case, sentences in specs]
            else:
                documents = [docs.build(s) for s in specs]
            result = [[docs.view(d) for d in module.LazyNeuralTagger(path).tag(iter(documents))], None]
        except Exception as e:
            result = [None, repr(e)]
        out.write(json.dumps(result) + "\n")
        out.flush()


if __name__ == "__main__":
    serve(sys.argv[1])
