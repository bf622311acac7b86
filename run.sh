#!/bin/bash
# run.sh check <property> [quick|thorough]
#                                  builds the simulator from /repo's working tree and runs the check
# run.sh build                 only builds (used as set-up)
# run.sh --replay <file>       replays a violation
# run.sh sim <args...>         runs the simulator with other arguments (see sim/main.cpp)
# Environment: VERIF_SEED, VERIF_TIER (quick|thorough), REPO (default /repo), RUNS, TIME_LIMIT, JOBS
set -u
here=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
JOBS=${JOBS:-$(nproc)}
export LC_ALL=C
cd "$here"

# the build is keyed by the content of everything it is made of
key=$( (cd "$REPO/include" && find . -type f -print0 | sort -z | xargs -0 sha256sum; cd "$here/sim" && find . -type f -print0 | sort -z | xargs -0 sha256sum; g++ --version) | sha256sum | cut -c1-24)
out="$here/build/$key"
build()
{
	mkdir -p "$here/build"
	exec 9>"$here/build/lock"
	flock 9
	if [ ! -x "$out/sim" ]; then
		# (only the latest builds are kept)
		ls -1dt "$here"/build/*/ 2>/dev/null | tail -n +4 | while read -r d; do rm -rf "${d:?}"; done
		rm -rf "${out:?}"
		if ! make -s -f "$here/sim/Makefile" -j"$JOBS" REPO="$REPO" OUT="$out.tmp" > "$here/build/log" 2>&1; then
			echo "ERROR: the simulator can't be built from $REPO:" >&2
			grep -m5 -E "error|Error" "$here/build/log" >&2
			rm -rf "${out:?}.tmp"
			exit 2
		fi
		rm -f "$out.tmp"/*.o "$out.tmp"/*.d
		mv "$out.tmp" "$out"
	fi
	flock -u 9
	exec 9>&-
}

case "${1:-}" in
build)
	build
	;;
--replay)
	build
	exec "$out/sim" --replay "$2"
	;;
sim)
	build
	shift
	exec "$out/sim" "$@"
	;;
check)
	id=$2
	tier=${3:-${VERIF_TIER:-quick}}
	seed=${VERIF_SEED:-1}
	if [ "$tier" = thorough ]; then
		runs=${RUNS:-20000000}
		limit=${TIME_LIMIT:-420}
	else
		tier=quick
		runs=${RUNS:-500000}
		limit=${TIME_LIMIT:-25}
	fi
	build
	mkdir -p evidence replays
	rc=0
	while IFS= read -r line; do
		case "$line" in
		"known: property=$id "*)
			file=$(sed -n 's/.* program=\([^ ]*\) .*/\1/p' <<< "$line")
			kind=$(sed -n 's/.* kind=\([^ ]*\) .*/\1/p' <<< "$line")
			what=$(sed -n 's/.* kind=[^ ]* \(.*\)/\1/p' <<< "$line")
			text=$("$out/sim" --replay "$file")
			case $? in
			0) ;;
			1 | 4)
				if grep -q "^$kind: " <<< "$text"; then
					echo "KNOWN-FINDING: property=$id $what ($file)"
				else
					echo "$text" | head -3
					echo "VIOLATION property=$id replay=$here/$file"
					rc=1
				fi
				;;
			*)
				echo "ERROR: $file can't be replayed: $text" >&2
				exit 2
				;;
			esac
			;;
		esac
	done < known_findings.txt
	"$out/sim" --profile "$id" --base "$seed" --runs "$runs" --jobs "$JOBS" --time-limit "$limit" --tier "$tier" --evidence "$here/evidence/$id.json" --replays "$here/replays"
	sim=$?
	[ $sim -gt 1 ] && exit 2
	[ $sim -eq 1 ] && rc=1
	exit $rc
	;;
*)
	sed -n 2,7p "$0"
	exit 2
	;;
esac
