"""Builds the harness once, so that the checks only rebuild what changed."""
import sys

sys.path.insert(0, __file__.rsplit("/", 1)[0])
import run

print(run.build())
