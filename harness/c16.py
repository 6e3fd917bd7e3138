"""C16: CNR of exactly the requested regions."""

from harness.c15 import Driver


def run(ctx):
    Driver(ctx, True).run()
