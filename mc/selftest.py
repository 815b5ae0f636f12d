#!/usr/bin/env python3
"""setup: the reference reader and writer agree with each other on the model's own trees (no library code involved)"""
import sys
import engine  # noqa: F401
import spec_board, spec_sch  # noqa: F401,E401
from checks.shapes import all_classes
from domains import base
from model import MODELS, Node, ref_read, to_text, tree, tree_diff

n = 0
for c in all_classes():
    for k in ('min', 'full'):
        t = tree(base(c, k))
        if c == 'DesignRules':
            continue
        for lay in (0, 1, 2):
            d = tree_diff(Node([t]), ref_read(to_text(t, lay)))
            assert d is None, (c, k, lay, d)
            n += 1
print(f'reference model: {len(MODELS)} classes, {n} trees read back')
