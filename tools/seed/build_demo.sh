# usage: build_demo.sh DIR OUT : builds DIR/demo.cc and DIR/*.proto against /repo as built by build.sh
set -e
D=$1; O=$2
P=/opt/vp/prefix
cp "$D"/demo.cc "$D"/demo_util.h "$D"/echo.proto "$O"/
cd "$O"
$P/bin/protoc --cpp_out=. -I. -I$P/include echo.proto
F="-g -O1 -w -include /opt/vp/compat.h -DSOFA_PBRPC_ENABLE_DETAILED_LOGGING -I. -I/repo/src -I/repo/_build/sofa/include -I$P/include"
g++ $F $EXTRA_CXX -o demo demo.cc echo.pb.cc /repo/libsofa-pbrpc.a $P/lib/libprotobuf.a $P/lib/libsnappy.a -lz -lpthread -lrt
