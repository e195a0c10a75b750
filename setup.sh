#!/bin/bash
# Builds the analysis driver and the dependency metadata, and primes the dump of the current tree.
cd "$(dirname "$0")" && mkdir -p evidence && python3 -c "
import sys; sys.path.insert(0, '.'); sys.dont_write_bytecode = True
from sa import build
p = build.load(print)
print(len(p.local()), 'functions resolved')"
