#!/bin/bash
# Builds the MIR extractor and the facts of /repo's current tree.
cd "$(dirname "$0")" && exec python3 -c "
import sys; sys.path.insert(0,'analysis'); sys.dont_write_bytecode=True
import facts; P=facts.load(); print(len(P.bodies),'bodies')"
