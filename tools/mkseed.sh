#!/bin/bash
# mkseed.sh ID PROPERTY partial|full DEMO.rs "needs" "what it breaks"   -- takes the uncommitted change of the scratch copy $SCR (default /tmp/scr)
set -e
ID=$1; V=/verif; S=$V/seeded/$ID; SCR=${SCR:-/tmp/scr}
mkdir -p $S; git -C $SCR diff > $S/patch.diff; [ -s $S/patch.diff ]
cp "$4" $S/demo.rs
cp $V/tools/demokit/$3.sh $S/demo.sh
if [ $3 = partial ]; then cp $V/tools/demokit/{Cargo.toml,Cargo.lock,lib.rs} $S/
else cp $V/tools/demokit/kit.rs $S/; sed '/^\[profile/,$d' $V/harness/Cargo.toml > $S/Cargo.toml; cp $V/harness/Cargo.lock $S/; cp $V/harness/.cargo/config.toml $S/cargo-config.toml; rm -rf $S/vendor; cp -r $V/vendor $S/vendor; fi
python3 - "$S" "$2" "$5" "$6" <<'PY'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
PY
