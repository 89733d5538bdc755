#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks" DEMO.mzn ARGS...   (the change is in the worktree /tmp/w/wt)
set -e
id=$1 prop=$2 needs=$3 what=$4 demo=$5; shift 5
S=/verif/seeded/$id; mkdir -p "$S"
git -C /tmp/w/wt diff > "$S/patch.diff"
git -C /tmp/w/wt checkout -q -- .
[ -s "$S/patch.diff" ]
cp "$demo" "$S/demo.mzn"; cp /verif/solvers/std.msc "$S/std.msc"
cat > "$S/demo.sh" <<EOF
#!/bin/bash
# solutions of demo.mzn must be the recorded ones
D=\$(cd "\$(dirname "\$0")" && pwd)
export MZN_SOLVER_PATH=/opt/vp/solvers LC_ALL=C
diff <(timeout 120 /repo/_build/minizinc ${*//STD/\$D/std.msc} "\$D/demo.mzn" 2>&1 | sort) "\$D/expected.txt"
EOF
python3 - "$S" "$prop" "$needs" "$what" <<'EOF'
import sys, json
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open(sys.argv[1] + "/meta.json", "w"), indent=1)
EOF
export MZN_SOLVER_PATH=/opt/vp/solvers LC_ALL=C
/repo/_build/minizinc ${*//STD/$S/std.msc} "$S/demo.mzn" 2>&1 | sort > "$S/expected.txt"
head -5 "$S/expected.txt"; wc -l < "$S/expected.txt"
