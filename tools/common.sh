# sourced by demo.sh: scratch directory with a stand-in for the missing level file
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export CGMFDATA=$REPO/data
[ -e $REPO/data/discreteLevels.dat ] || echo '# empty stand-in' > $W/discreteLevels.dat
CXXF="-std=c++11 -O1 -w -I$REPO/libcgmf/include -I$REPO/_build/libcgmf -I$HERE"
LIB=$REPO/_build/libcgmf/libcgmf.a
CG=$REPO/_build/utils/cgmf/cgmf.x
fail() { echo "DEMO FAILS: $*"; exit 1; }
