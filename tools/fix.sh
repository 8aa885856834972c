#!/bin/bash
# fix.sh PROP "message" "what failed": commit the current /repo change as a repair and record it
cd ${VP_REPO:-/repo} && git commit -qam "fix: $2" && h=$(git rev-parse --short HEAD) && echo "fixed: property=$1 $h $3" >> /verif/known-findings.txt && git show --stat HEAD | tail -2
