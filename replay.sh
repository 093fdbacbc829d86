#!/bin/bash
# replay.sh <property> <job> <input file>: builds the native harness from /repo/src and runs one input with all named inputs shown
cd "$(dirname "$0")" && python3 - "$@" <<'P'
import sys, subprocess, os
from jobs import JOBS
pid, job, f = sys.argv[1:4]; j = [j for j in JOBS[pid] if j['name'] == job][0]
subprocess.check_call(['bash', 'engine/build.sh', 'build'])
subprocess.check_call(['bash', 'engine/symcc.sh', 'build', 'harness/' + j['harness'], 'build/replay', os.environ.get('CFT_SRC', '/repo/src'), '-DSXP=%d' % int(pid[1:])] + j.get('flags', []) + j.get('qflags', []), env=dict(os.environ, SXNATIVE='1'))
line = open(f).readline(); open('build/replay.in', 'w').write(line)
sys.exit(subprocess.call(['build/replay', 'build/replay.in'], env=dict(os.environ, SX_TRACE='1')))
P
