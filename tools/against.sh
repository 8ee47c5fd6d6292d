#!/bin/bash
# against.sh revert COMMIT PROP [ARGS…] | against.sh patch FILE PROP [ARGS…]
# Runs a check against a scratch copy of /repo with a commit reverted or a patch applied.
mode=$1; what=$2; prop=$3; shift 3
d=$(mktemp -d /tmp/against.XXXXXX)
git -C /repo worktree prune
mkdir "$d/repo" && git -C /repo archive HEAD | tar -x -C "$d/repo"
cd "$d/repo" || exit 2
if [ "$mode" = revert ]; then git -C /repo diff "$what~1" "$what" | patch -p1 -R -s --no-backup-if-mismatch || echo "REVERT FAILED"
else patch -p1 -s --no-backup-if-mismatch < "$what" || echo "PATCH FAILED"; fi
SIMFORA_REPO="$d/repo" timeout 900 /opt/venv/bin/python /verif/run.py --property "$prop" "$@"
rc=$?
rm -rf "$d"
exit $rc
