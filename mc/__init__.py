"""Small bounded model-checking toolkit used by the checks in /verif/checks.

core     run context, evidence, known findings, violations, sharding
explore  stateless choice-tree exploration (deviation bounded) and
         explicit-state breadth first exploration
sched    controlled thread scheduler (all interleavings up to a
         preemption bound) over the library's own threading primitives
"""
