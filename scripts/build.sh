# fresh: cargo goes by modification time and would miss a source file which was put back with an old one
fresh() {
    find /verif/target -maxdepth 6 -type d -path '*/.fingerprint/mvdparser-*' -prune -exec rm -rf -- {} +
}
# build FLAVOUR SCRATCH: builds the harness (and with it /repo's current tree); sets $bin
STABLE=stable-x86_64-unknown-linux-gnu
TRIPLE=x86_64-unknown-linux-gnu
AS_WRITTEN='--config profile.dev.package.mvdparser.opt-level=0'
build() {
    local rc
    fresh
    case $1 in
    stable)
        RUSTUP_TOOLCHAIN=$STABLE RUSTC_WRAPPER=/verif/scripts/rustc-cov.sh CARGO_TARGET_DIR=/verif/target/edges cargo build --offline --quiet 2>"$2/build.$1.log"
        rc=$?
        bin=/verif/target/edges/debug/mvdverif
        ;;
    # the code under test is not optimized here: no access is to be removed before a sanitizer sees it
    asan)
        RUSTFLAGS="-Zsanitizer=address" CARGO_TARGET_DIR=/verif/target/asan \
            cargo +nightly build --offline --quiet $AS_WRITTEN --target $TRIPLE 2>"$2/build.$1.log"
        rc=$?
        bin=/verif/target/asan/$TRIPLE/debug/mvdverif
        ;;
    tsan)
        RUSTFLAGS="-Zsanitizer=thread" CARGO_TARGET_DIR=/verif/target/tsan \
            cargo +nightly build --offline --quiet $AS_WRITTEN -Zbuild-std --target $TRIPLE 2>"$2/build.$1.log"
        rc=$?
        bin=/verif/target/tsan/$TRIPLE/debug/mvdverif
        ;;
    *)
        echo "unknown flavour $1"
        return 2
        ;;
    esac
    if [ $rc != 0 ]; then
        cat "$2/build.$1.log"
        echo "the harness ($1) does not build against /repo"
        return 2
    fi
}
