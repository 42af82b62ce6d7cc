# Shared by demonstrations: runs lib.rs (beside demo.sh) through cc_bindings_from_rs, builds
# main.cc against the result and runs it. Exit 0: it ran and returned 0.
export RUSTUP_TOOLCHAIN=nightly-2026-08-20
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 9
trap 'find "$d" -mindepth 1 -delete; rmdir "$d"' EXIT
SR=$(rustc --print sysroot)
export LD_LIBRARY_PATH=$SR/lib
T=/repo/target/debug/cc_bindings_from_rs
L=$SR/lib/rustlib/x86_64-unknown-linux-gnu/lib
STD=()
std_args() { local n; for n in "$@"; do STD+=(--extern=$n=$(echo $L/lib$n-*.rmeta) --crate-namespace=$n=rs::$n --crate-header=$n=crubit/$n.h); done; }
bindings() {  # NAME [tool args]: NAME.rs -> NAME.h, libNAME_cc_api.rlib
    local n=$1; shift
    cp "$here/$n.rs" "$d/$n.rs"; cd "$d" || exit 9
    rustc --crate-type=rlib --edition 2021 -Cpanic=abort --emit=link,metadata --crate-name $n $n.rs --out-dir . --cap-lints allow -L . || exit 9
    "$T" --crubit-support-path-format '<support/{header}>' "${STD[@]}" --source-crate-name $n --extern $n=lib$n.rmeta --h-out $n.h --rs-out ${n}_cc_api.rs "$@" || return 1
}
glue() {  # NAME [rustc args]
    local n=$1; shift
    [ -e libbridge_rust.rlib ] || rustc --edition 2024 -Cpanic=abort --crate-type rlib --crate-name bridge_rust /repo/support/crubit_bridge_rust/src/bridge.rs --out-dir . --cap-lints allow || exit 1
    rustc --crate-type=rlib --edition 2021 -Cpanic=abort --crate-name ${n}_cc_api ${n}_cc_api.rs --cap-lints allow --extern $n=lib$n.rlib --extern bridge_rust=libbridge_rust.rlib -L . "$@" || return 1
}
with_std() {  # bindings of core and alloc
    cd "$d"; mkdir -p crubit
    rustc --edition 2024 -Cpanic=abort --crate-type rlib --crate-name bridge_rust /repo/support/crubit_bridge_rust/src/bridge.rs --out-dir . --cap-lints allow || exit 1
    local n; local done=()
    for n in core alloc; do
        local A=(); local m; for m in "${done[@]}"; do A+=(--extern=$m=$(echo $L/lib$m-*.rmeta) --crate-namespace=$m=rs::$m --crate-header=$m=crubit/$m.h); done
        "$T" --crubit-support-path-format '<support/{header}>' --source-crate-name $n --h-out crubit/$n.h --rs-out ${n}_cc_api.rs --extern=$n=$(echo $L/lib$n-*.rmeta) --crate-namespace=self=rs::$n --crate-namespace=$n=rs::$n "${A[@]}" || exit 1
        rustc --crate-type=rlib --edition 2021 -Cpanic=abort --crate-name ${n}_cc_api ${n}_cc_api.rs --cap-lints allow --extern bridge_rust=libbridge_rust.rlib -L . || exit 1
        done+=($n)
    done
    std_args core alloc
}
drive() {  # crates...: builds main.cc with them and runs it
    local n; : > all.rs
    for n in "$@"; do echo "extern crate ${n}_cc_api;" >> all.rs; done
    rustc --crate-type=staticlib --edition 2021 -Cpanic=abort --crate-name all all.rs --cap-lints allow -L . || return 1
    clang++ -std=c++20 -I/repo -I. -Wno-nullability-completeness -Wno-invalid-offsetof "$here/main.cc" /repo/support/internal/check_no_mutable_aliasing.cc /repo/support/rs_std/char.cc liball.a -lpthread -ldl -lm -o main || return 1
    timeout 60 ./main
}
