#!/bin/bash
# builds the fact extractor and warms its caches (every check also does this itself when needed)
cd "$(dirname "$0")" && exec python3 -c "
import sys; sys.path.insert(0,'lib')
import facts; print(facts.facts(print))"
