# sourced by the scripts of this directory
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export JAVA_HOME=/usr/lib/jvm/java-21-openjdk-amd64
export LANG=C.UTF-8
JAVA=$JAVA_HOME/bin/java; JAVAC=$JAVA_HOME/bin/javac
B=$VERIF/build
G=/root/.gradle/caches/modules-2/files-2.1
jar() { find $G -name "$1" ! -name '*-sources*' 2>/dev/null | sort | tail -1; }
REPO_DEPS=""
for j in 'antlr4-runtime-*.jar' 'vavr-0*.jar' 'vavr-match-*.jar' 'caffeine-*.jar' 'maven-artifact-*.jar' 'commons-lang3-*.jar' 'plexus-utils-*.jar' 'checker-qual-*.jar' 'error_prone_annotations-*.jar'; do
  f=$(jar "$j"); [ -n "$f" ] && REPO_DEPS="$REPO_DEPS:$f"
done
REPO_DEPS=${REPO_DEPS#:}
LOMBOK=$(jar 'lombok-1*.jar')
ENGINE_DEPS=/opt/veriftools/java/bytecode/asm-9.7.1.jar:/opt/veriftools/java/bytecode/asm-tree-9.7.1.jar:/opt/veriftools/java/z3/z3-turnkey-4.14.1.jar:/opt/veriftools/java/z3/jspecify-1.0.0.jar:/opt/veriftools/java/z3/turnkey-support-1.0.0.jar
