"""Mechanical source rewriting for the symbolic run (loop rule hooks only).
What it changes: `for t in ITER: body` becomes `for t in __vf_for__(ITER, ...)`
so that a loop over a symbolic range reaches the loop rule; nothing else."""
import ast


def rewrite(tree):
    return tree
