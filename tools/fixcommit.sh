#!/bin/bash
# development aid: fixcommit.sh PROPERTY "message" "what failed"  -- tests and commits a repair in /repo, records it here
cd /repo && bash /verif/tools/repotest.sh || exit 1
git -C /repo add -u && git -C /repo commit -qm "fix: $2" || exit 1
h=$(git -C /repo rev-parse --short HEAD)
echo "fixed: property=$1 $h $3" >> /verif/known_findings.txt
