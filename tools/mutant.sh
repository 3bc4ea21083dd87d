#!/bin/bash
# mutant.sh PATCH|-R COMMIT ID... : run checks against a scratch copy of /repo with a patch (or with a commit reverted)
# WORK (default /tmp/mut) holds the copy and its build.
W=${WORK:-/tmp/mut}; mkdir -p $W
rsync -a --delete --exclude=.git --exclude=build /repo/src $W/repo/ 2>/dev/null || { mkdir -p $W/repo; rm -rf "$W/repo/src"; cp -a /repo/src $W/repo/; }
if [ "$1" = -R ]; then git -C /repo show $2 | (cd $W/repo && patch -s -R -p1) || exit 9; shift 2
else (cd $W/repo && patch -s -p1 < $1) || exit 9; shift; fi
for id in "$@"; do REPO=$W/repo VERIF_BUILD=$W/build python3 /verif/checks/run.py $id 2>&1 | tail -${TAIL:-3} | cut -c1-${CUT:-300}; done
