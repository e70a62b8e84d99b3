"""kfa: a gated value-graph (global value numbering) dataflow analysis for kalmankit.

Only the standard library is used and the analysed code is never executed:
every fact is derived from the syntax trees of the current /repo sources.
"""
