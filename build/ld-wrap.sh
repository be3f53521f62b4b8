#!/bin/bash
# Linker wrapper: replaces "OpenSSL symbols are all 0" (/opt/vp/openssl-absent.args)
# by a stub library whose functions succeed, so that sinks that build a TLS
# client can be constructed. Plain-http traffic never calls into it otherwise.
args=()
for a in "$@"; do
  case "$a" in
    @*openssl-absent.args) args+=("$VERIF_OSSL_STUB") ;;
    *) args+=("$a") ;;
  esac
done
exec cc "${args[@]}"
