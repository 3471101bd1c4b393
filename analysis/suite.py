"""The analyses of one source tree, each run at most once."""
import os, shutil, sys, tempfile, traceback
import export, mir


class Suite:
    def __init__(self, repo):
        self.repo = repo
        self.dir = tempfile.mkdtemp(prefix="yamd-mir-")
        self._p = None
        self._c = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    @property
    def prog(self):
        if self._p is None:
            self._p = mir.Prog(export.export(self.repo, self.dir))
        return self._p

    def release(self):
        if "release" not in self._c:
            self._c["release"] = mir.Prog(export.export(self.repo, self.dir, True))
        return self._c["release"]

    def parser(self):
        if "parser" not in self._c:
            import parser_run
            self._c["parser"] = parser_run.run(self.prog)
        return self._c["parser"]

    def fold(self):
        if "fold" not in self._c:
            import fold
            self._c["fold"] = fold.run(self.prog)
        return self._c["fold"]

    def show(self):
        if "show" not in self._c:
            import show
            self._c["show"] = show.run(self.prog)
        return self._c["show"]

    def lexer(self):
        if "lexer" not in self._c:
            import lexer
            self._c["lexer"] = lexer.run(self.prog)
        return self._c["lexer"]
