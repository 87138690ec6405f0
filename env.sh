# build environment of the checks
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target
