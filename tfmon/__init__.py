"""Runtime monitors for tftb: reference-model and invariant oracles over real executions."""
