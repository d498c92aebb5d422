#!/bin/bash
# makes the planted bugs apply to /repo's HEAD again (three-way), and re-verifies those that had to be changed
cd "$(dirname "$0")/.."
for d in seeded/*/; do
  id=$(basename $d)
  git -C /repo apply --check $PWD/$d/patch.diff 2>/dev/null && continue
  tmp=$(mktemp -d /tmp/replant-XXXX)
  git -C /repo worktree add -q --detach $tmp/r HEAD
  if git -C $tmp/r apply -3 $PWD/$d/patch.diff 2>/dev/null && [ -z "$(git -C $tmp/r diff --name-only --diff-filter=U)" ]; then
    git -C $tmp/r diff HEAD > $d/patch.diff; echo "replanted $id"
  else echo "CONFLICT $id"; fi
  git -C /repo worktree remove --force $tmp/r; rmdir $tmp
done
