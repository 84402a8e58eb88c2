#!/bin/bash
# check.sh ID [--replay FILE]: rebuilds the library from the working tree of the repository together with the harness, in a
# folder of its own which is removed afterwards, and runs the check of one property. Exit 0 held, 1 violated, 2 no verdict.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
repo="${VF_REPO:-/repo}"
export JAVA_HOME="${VF_JAVA_HOME:-/usr/lib/jvm/java-21-openjdk-amd64}"
export LANG=C.UTF-8
unset JAVA_TOOL_OPTIONS _JAVA_OPTIONS CLASSPATH
id="$1"
[ -n "$id" ] || { echo "usage: check.sh ID [--replay FILE]"; exit 2; }
mkdir -p "$here/build" || exit 2
work="$(mktemp -d "$here/build/${id#--}.XXXXXX")" || exit 2
trap 'rm -rf -- "$work"' EXIT
trap 'exit 2' INT TERM HUP
. "$here/classpath.sh" || exit 2
mkdir -p "$work/lib" "$work/vf"
find "$repo/src/main/java" -name '*.java' > "$work/lib.txt"
[ -s "$work/lib.txt" ] || { echo "no sources in $repo/src/main/java"; exit 2; }
"$JAVA_HOME/bin/javac" -nowarn -encoding UTF-8 --release 21 -g -parameters -processorpath "$LOMBOK" -cp "$DEPS:$LOMBOK" -d "$work/lib" @"$work/lib.txt" > "$work/javac.log" 2>&1 \
  || { echo "the library does not compile"; tail -40 "$work/javac.log"; exit 2; }
[ -d "$repo/src/main/resources" ] && cp -R "$repo/src/main/resources/." "$work/lib/"
"$JAVA_HOME/bin/javac" -nowarn -encoding UTF-8 -proc:none -cp "$work/lib:$DEPS:$TOOLS" -d "$work/vf" "$here"/harness/src/vf/*.java > "$work/javac2.log" 2>&1 \
  || { echo "the harness does not compile against the library"; tail -40 "$work/javac2.log"; exit 2; }
[ "$id" = --setup ] && { echo "the library and the harness compile"; exit 0; }
# stack traces cost memory in proportion to the depth of the stack, which is not what C30 measures
[ "$id" = C30 ] && traces="-XX:-StackTraceInThrowable" || traces="-XX:+StackTraceInThrowable"
# C34 watches the process through a security manager, which permits everything
[ "$id" = C34 ] && manager="-Djava.security.manager=allow" || manager="-Djava.security.manager=disallow"
"$JAVA_HOME/bin/java" $traces $manager -Xmx5g -Xss1m -XX:+UseParallelGC -Dfile.encoding=UTF-8 -Duser.timezone=UTC -Dvf.root="$here" -Dvf.lib="$work/lib" -Dvf.vf="$work/vf" -Dvf.deps="$DEPS" \
  -cp "$work/vf:$work/lib:$DEPS:$TOOLS" vf.Main "$@" < /dev/null
exit $?
