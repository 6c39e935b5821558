#!/bin/bash
# builds the IR extractor from the committed source
cd "$(dirname "$0")" && python3 -c 'import sys; sys.path.insert(0, "engine"); from cg import ir; ir.ensure_irx()'
