#!/bin/bash
# mut.sh file 'sed-expr' contract [unit..]
rm -rf /tmp/mrepo; mkdir /tmp/mrepo; cp -a /repo/include /tmp/mrepo/
sed -i "$2" /tmp/mrepo/include/cli/$1; diff -r /repo/include /tmp/mrepo/include | head -6
shift 2
cd /verif; CXV_REPO=/tmp/mrepo python3-vt tools/t.py "$@" -f | grep -v ": ok \([0-9]*\)/\1 "
