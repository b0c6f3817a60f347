"""Runs a program with the entries of directories in another order: shuffled.py N PROGRAM ARGS..."""
import os
import random
import runpy
import sys

rng = random.Random(int(sys.argv[1]))
listdir, scandir = os.listdir, os.scandir


class Entries(object):
    def __init__(self, *args):
        with scandir(*args) as it:
            self.items = list(it)
        rng.shuffle(self.items)
        self.it = iter(self.items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def close(self):
        pass


def shuffled(*args):
    ret = listdir(*args)
    rng.shuffle(ret)
    return ret


os.listdir = shuffled
os.scandir = Entries
sys.argv = sys.argv[2:]
sys.path[0] = os.path.dirname(sys.argv[0])
runpy.run_path(sys.argv[0], run_name='__main__')
