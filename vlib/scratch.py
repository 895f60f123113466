"""Scratch directories: everything a case writes lives in one that is removed after the case."""
import os
import random
import shutil
import tempfile

_dirs = []
_cwd = os.getcwd()
_rng = random.SystemRandom()


def new(prefix="verif-"):
    """letters only: some loaders look for digits or capitals anywhere in a path"""
    while True:
        d = os.path.join(tempfile.gettempdir(), prefix + "".join(_rng.choice("abdefgijklmnopqrstuvwxyz") for _ in range(14)))
        try:
            os.mkdir(d, 0o700)
        except FileExistsError:
            continue
        _dirs.append(d)
        return d


def cleanup():
    if os.getcwd() != _cwd:
        os.chdir(_cwd)
    while _dirs:
        shutil.rmtree(_dirs.pop(), ignore_errors=True)
