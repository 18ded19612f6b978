---------------------------- MODULE CheckTopology ----------------------------
(* C13, C14: recorded look-ups and transformations of topologies.               *)
EXTENDS Topology, TraceTree
Accepts(c) == CASE c.kind = "lookup" -> LookupsOK(c)
                [] c.kind = "history" -> StepsOK(c.topo, c.steps, 1)
                [] c.kind = "crowd" -> CrowdOK(c)
                [] OTHER -> FALSE
Conforms == i > 0 => Accepts(Cases[i])
===============================================================================
