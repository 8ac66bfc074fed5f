"""Runs the JavaScript library of the repository under node, with stand-ins for what it takes from elsewhere.

The TypeScript sources are bundled by esbuild from the working tree into a scratch directory; DOMParser and
XMLSerializer come from js/dom.mjs, @fluent/syntax from js/fluent-shim.mjs, messageformat from js/mf2-shim.mjs.
"""

import json
import multiprocessing.util
import os
import shutil
import subprocess
import tempfile

from .core import REPO

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "js")
ESBUILD = "/opt/veriftools/node/node_modules/.bin/esbuild"


class JSError(Exception):
    def __init__(self, d):
        super().__init__(d["name"] + ": " + d["message"])
        self.d = d


class Worker:
    def __init__(self):
        self.pid = os.getpid()
        self.dir = tempfile.mkdtemp(prefix="verif-js-")
        out = os.path.join(self.dir, "worker.mjs")
        ftl = os.path.join(HERE, "fluent-shim.mjs")
        cmd = [ESBUILD, os.path.join(HERE, "worker.mjs"), "--bundle", "--platform=node", "--format=esm", f"--outfile={out}", "--log-level=error", "--tsconfig-raw={}", "--charset=utf8"]
        cmd += [f"--alias:moz-l10n-js={REPO}/js/src/index.ts", f"--alias:messageformat={HERE}/mf2-shim.mjs"]
        cmd += [f"--alias:@fluent/syntax/esm/{m}.js={ftl}" for m in ("ast", "index", "stream")]
        subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL)
        self.p = subprocess.Popen(["node", out], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8")
        try:
            self.send({"fn": "messageIsEmpty", "args": [[]]})
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def send(self, d):
        self.p.stdin.write(json.dumps(d) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("node ended")
        return json.loads(line)

    def close(self):
        if self.pid == os.getpid():
            self.p.kill()
            self.p.wait()


_worker = None


def call(fn, *args, **extra):
    """The result of a function of the library: {"value", "errors", "kept"}; JSError if it throws."""
    global _worker
    if _worker is None or _worker.pid != os.getpid():
        _worker = Worker()
        multiprocessing.util.Finalize(None, _worker.close, exitpriority=10)
    res = _worker.send({"fn": fn, "args": list(args), **extra})
    if "thrown" in res:
        raise JSError(res["thrown"])
    return res
