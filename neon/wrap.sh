#!/bin/sh
# RUSTC_WRAPPER: compiles the library as if for aarch64 with NEON, against stand-ins for the intrinsics.
rustc=$1
shift
case " $* " in
*" --crate-name yasai "*)
    exec "$rustc" "$@" -L dependency="$NEON_STUBS" --extern std="$NEON_STUBS/libyneon_std.rlib" \
        --extern core="$NEON_STUBS/libyneon_core.rlib" \
        --cap-lints allow -A explicit_builtin_cfgs_in_flags --cfg 'target_arch="aarch64"' --cfg 'target_feature="neon"' ;;
*" --crate-name ysim "*) exec "$rustc" "$@" -L dependency="$NEON_STUBS" ;;
*) exec "$rustc" "$@" ;;
esac
