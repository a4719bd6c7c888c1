"""Nothing to build: checks that the interpreter and clang are there and that the tree compiles to IR."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import build
text, srcs = build.ir_text()
print("%d sources, %d bytes of IR" % (len(srcs), len(text)))
