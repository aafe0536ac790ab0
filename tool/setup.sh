#!/bin/bash
# builds the extractor (checks also build it themselves when it is missing)
cd "$(dirname "$0")/.." && python3 -c "
import sys; sys.path.insert(0,'lib')
import prog; print(prog.tool())"
