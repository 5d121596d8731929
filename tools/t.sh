#!/bin/bash
# short development loop: run checks, print only what matters
for p in "$@"; do VH_VERBOSE=1 nice -n 10 python3 /verif/run.py $p 2>&1 | grep -v "rc=0" | cut -c1-260 | tail -12; done
python3 /verif/tools/failsum.py ${!#} 2>/dev/null | cut -c1-220 | head -${TL:-15}
