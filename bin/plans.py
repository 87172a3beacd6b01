"""What each check runs.  models: (module, config, options); gen: (module, config, output name); runs: (harness mode, trace module)"""
WIRE = [("MCWire", "MCWire", {"quick_only": True}), ("MCWire", "MCWireBig", {"thorough": True})]
PLANS = {
    "C01": {"models": [("MCValidator", "MCValidator", {})], "runs": [("c01", "TraceRules")]},
    "C02": {"models": [("MCValidator", "MCValidator", {})], "runs": [("c02", "TraceRules")]},
    "C03": {"models": [("MCRx", "MCRx", {"quick_only": True}), ("MCRx", "MCRxBig", {"thorough": True})], "runs": [("c03", "TraceLeaf")]},
    "C04": {"models": WIRE, "runs": [("c04", "TraceWire")]},
    "C05": {"models": WIRE, "runs": [("c05", "TraceWire")]},
    "C06": {"models": WIRE, "runs": [("c06", "TraceWire")]},
    "C07": {"models": WIRE, "runs": [("c07", "TraceFaults")]},
    "C08": {"runs": [("c08", "TraceRegistry")]},
    "C09": {"gen": [("MCFramings", "MCFramings", "framings", "MCFramingsBig"), ("MCDeep", "MCDeep", "deep", "MCDeepBig")], "runs": [("c09", "TraceFramed")]},
    "C10": {"gen": [("MCJunk", "MCJunk", "junk", "MCJunkBig"), ("MCStates", "MCStates", "states"), ("MCStretch", "MCStretch", "stretch")], "runs": [("c10", "TraceTotal")]},
    "C11": {"gen": [("MCPeek", "MCPeek", "peek")], "runs": [("c11", "TracePeek")]},
    "C12": {"models": [("MCVerdict", "MCVerdict", {"quick_only": True}), ("MCVerdict", "MCVerdictBig", {"thorough": True})],
            "gen": [("MCFramings", "MCFramings", "framings"), ("MCFramings", "MCBare", "bare", "MCBareBig"), ("MCDeep", "MCDeep", "deep", "MCDeepBig"), ("MCJunk", "MCJunk", "junk")], "runs": [("c12", "TraceVerdict")]},
    "C13": {"gen": [("MCPipeline", "MCPipeline1", "pipe1"), ("MCPipeline", "MCPipeline2", "pipe2", "MCPipelineBig")], "runs": [("c13", "TracePipeline")]},
    "C14": {"models": WIRE + [("MCCycle", "MCCycle_exact", {}), ("MCCycle", "MCCycle_refs", {}), ("MCCycle", "MCCycle_trim", {})], "runs": [("c14", "TraceCycle")]},
    "C15": {"gen": [("MCIsolation", "MCIsolation", "schedules", "MCIsolationBig")], "runs": [("c15", "TraceIsolation")]},
    "C17": {"gen": [("MCFramings", "MCBare", "bare", "MCBareBig")], "runs": [("c17", "TraceBare")]},
    "C16": {"gen": [("MCCollector", "MCCollector", "collector", "MCCollectorBig")], "runs": [("c16", "TraceCollector")]},
}
