#!/bin/bash
# RUSTC_WRAPPER: compile as usual; for the crates under verification also write their MIR.
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; fi
  prev="$a"
done
case "$name" in
  aggregate_verifier|batching|connection_router|gateway|multisig|multisig_prover|nexus_gateway|rewards|service_registry|voting_verifier|axelar_wasm_std|connection_router_api|gateway_api|report)
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" --emit=mir -Ztrim-diagnostic-paths=no -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment ;;
  *) exec "$rustc" "$@" ;;
esac
