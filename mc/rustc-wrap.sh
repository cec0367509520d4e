#!/bin/bash
# RUSTC_WRAPPER: builds the crate under test against the instrumented `std`
# stand-in (libmcstd), and everything else as usual.  /repo itself is not
# touched and needs no hook for this.
rustc="$1"; shift
prev=; name=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; break; fi
  prev="$a"
done
if [ "$name" = futures_signals ]; then
  lib=$(ls -t "$MCSTD_DEPS"/libmcstd-*.rlib 2>/dev/null | head -1)
  if [ -z "$lib" ]; then echo "rustc-wrap: libmcstd not built" >&2; exit 1; fi
  # looks at reference counts are scheduling points too: they can not be
  # intercepted by the stand-in, so these calls are rewritten in a copy
  re='\bArc::(strong_count|weak_count|get_mut|try_unwrap|into_inner)([(:]|[^A-Za-z0-9_(:])'
  me='\.(upgrade|strong_count|weak_count)\(\)'
  we='\bWeak::(upgrade|strong_count|weak_count)\b'
  args=(); copy=
  for a in "$@"; do
    case "$a" in */src/lib.rs|src/lib.rs)
      dir="${a%/lib.rs}"
      if grep -rqE "$re|$me|$we" --include='*.rs' "$dir" 2>/dev/null; then
        copy="$MCSTD_DEPS/../src-$$"
        mkdir -p "$copy" && cp -r "$dir/." "$copy/" || exit 1
        find "$copy" -name '*.rs' -exec sed -i -E "s/((::)?(std::)?sync::)?$re/::std::sync::arc::\\4\\5/g; s/$me/.mc_\\1()/g; s/((::)?(std::)?sync::)?$we/::std::sync::arc::weak_\\4/g" {} +
        a="$copy/lib.rs"
      fi;;
    esac
    args+=("$a")
  done
  if [ -n "$copy" ]; then
    "$rustc" "${args[@]}" --extern std="$lib" 2>"$copy/stderr"; rc=$?
    if [ $rc -eq 0 ]; then
      cat "$copy/stderr" >&2
      # (cargo has to watch the sources, not their copy)
      sed -i "s#$copy/#$dir/#g" "$MCSTD_DEPS"/futures_signals-*.d
    fi
    rm -r "$copy"
    # (a method of the same name on something else: without it, then)
    if [ $rc -ne 0 ]; then "$rustc" "$@" --extern std="$lib"; rc=$?; fi
  else
    "$rustc" "$@" --extern std="$lib"; rc=$?
  fi
  exit $rc
fi
exec "$rustc" "$@"
