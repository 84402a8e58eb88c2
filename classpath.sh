# Finds the jars the repository's own build uses (from its offline Gradle cache). Sets DEPS, LOMBOK, TOOLS.
_cache="${GRADLE_USER_HOME:-/root/.gradle}/caches/modules-2/files-2.1"
_jar() { find "$_cache/$1" -name "$2" ! -name '*-sources.jar' ! -name '*-javadoc.jar' 2>/dev/null | sort -V | tail -1; }
_add() { local f; f="$(_jar "$1" "$2")"; if [ -n "$f" ]; then DEPS="$DEPS${DEPS:+:}$f"; else echo "missing $1 in $_cache"; _missing=1; fi; }
DEPS=""; _missing=""
_add org.antlr/antlr4-runtime 'antlr4-runtime-*.jar'
_add io.vavr/vavr 'vavr-[0-9]*.jar'
_add io.vavr/vavr-match 'vavr-match-*.jar'
_add com.github.ben-manes.caffeine/caffeine 'caffeine-*.jar'
_add org.apache.maven/maven-artifact 'maven-artifact-*.jar'
_add org.apache.commons/commons-lang3 'commons-lang3-*.jar'
_add org.checkerframework/checker-qual 'checker-qual-*.jar'
LOMBOK="$(_jar org.projectlombok/lombok 'lombok-1.18.34.jar')"
[ -n "$LOMBOK" ] || LOMBOK="$(_jar org.projectlombok/lombok 'lombok-*.jar')"
[ -n "$LOMBOK" ] || { echo "missing lombok"; _missing=1; }
TOOLS=/opt/veriftools/java/bytecode/asm-9.7.1.jar
[ -z "$_missing" ]
