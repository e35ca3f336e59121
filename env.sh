# shared by the scripts of this directory
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export PATH="$PATH:/root/.cargo/bin"
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET MIRIFLAGS
ulimit -n "$(ulimit -Hn)" 2>/dev/null

# cargo judges staleness by mtime, which a restored file does not change: forget the verdict on our own crates.
# Dependencies keep theirs.
forget() {
    find "$1" -maxdepth 4 -type d -path '*/.fingerprint/*' \( -name 'protosocket*' -o -name 'psmon*' \) -prune -exec rm -rf {} + 2>/dev/null
    return 0
}

build_harness() {
    local log=evidence/build.log
    mkdir -p evidence
    exec 9>evidence/.lock
    flock 9
    forget harness/target
    if ! (cd harness && CARGO_TARGET_DIR=target cargo build --offline --locked --bin psmon) >"$log" 2>&1; then
        tail -40 "$log"
        echo "the harness does not build against /repo"
        return 2
    fi
    flock -u 9
    exec 9>&-
}
