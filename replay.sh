#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
sed 's/-m mc.run/-m mc.replay/' "$here/run.sh" > /tmp/mc.replay.$$ ; sed -i "s#^here=.*#here=$here#" /tmp/mc.replay.$$
bash /tmp/mc.replay.$$ "$@"; rc=$?; rm -f /tmp/mc.replay.$$; exit $rc
