#!/bin/bash
# dev helper: run.sh UNIT [verus args]   (env: MF=..., N=lines, CTX=lines)
cd /verif; U=$1; shift
mkdir -p .build/dev
.build/vx/debug/vx --unit units/$U.vu --repo ${REPO:-/repo} --define MUTFORM=${MF:-SpeIntro} --define MUTON=true --out .build/dev/$U.rs > .build/dev/$U.sum || { cat .build/dev/$U.sum; exit; }
cd .build/dev
verus --triggers-mode silent --multiple-errors 5 $U.rs "$@" 2>&1 | grep -vE "^warning: (unused|the feature)" > $U.out; grep -E "^error" -A${CTX:-8} $U.out | head -${N:-80}; tail -1 $U.out
