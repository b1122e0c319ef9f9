#!/bin/bash
# development: try.sh c08 [seconds] [seed]: run one harness on the current tree
cd /verif && python3-vt - "$@" <<'P'
import sys; sys.path.insert(0,'dv')
import replaylib
name=sys.argv[1]; sec=int(sys.argv[2]) if len(sys.argv)>2 else 10; seed=int(sys.argv[3]) if len(sys.argv)>3 else 1
sys.path.insert(0,'contracts')
import checks
ck=[c for c in checks.CHECKS.values() if c.get('replay')==name+'.cpp']
print(replaylib.run(ck[0] if ck else dict(replay=name+'.cpp'), seed, sec))
P
