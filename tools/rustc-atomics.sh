#!/bin/sh
# rustc as cargo calls it; in carmen-core, and in the crates its generic functions end up in, every
# atomic operation becomes a call (see shims/vsched/src/atomics.rs)
case " $* " in
  *" --crate-name carmen_core "* | *" --crate-name mc "* | *" --crate-name demo "*) exec "$@" -C passes=tsan ;;
  *) exec "$@" ;;
esac
