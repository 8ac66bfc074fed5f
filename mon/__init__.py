"""Runtime monitors for moz.l10n: the real package from /repo/python is driven by
generated workloads while oracles watch every call.  See ../DESIGN.md."""
