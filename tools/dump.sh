set -e
OUT=${1:-/tmp/d1/out}; T=$OUT.t; cd ${2:-/repo}
mkdir -p $OUT; find $OUT -name '*.json' -delete; [ -d $T ] && find $T -path '*smtp*' -delete 2>/dev/null || true
RUSTFLAGS=-Zalways-encode-mir LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib VP_DUMP_DIR=$OUT VP_DUMP_CRATES=smtp_message,smtp_server,smtp_queue RUSTC_WORKSPACE_WRAPPER=/verif/driver/target/debug/mirdump CARGO_TARGET_DIR=$T cargo +nightly check --offline -p smtp-message -p smtp-server -p smtp-queue 2>&1 | grep -v future-incompat | tail -30
ls $OUT
