PROPS = {
    "G01": {"drivers": [{"src": "g01_model.cxx", "parts": 5, "spec": "TraceGraphModel"}]},
    "G02": {"drivers": [{"src": "g02_topology.cxx", "parts": 2, "spec": "TraceFactorGraph"}], "mc": ["MCFactorGraph"], "mc_thorough": ["MCFactorGraph:MCFactorGraphBig"]},
    "G03": {"drivers": [{"src": "g03_space.cxx", "parts": 1, "spec": "TraceLabelSpace"}], "mc": ["MCLabelSpace"]},
    "G04": {"drivers": [{"src": "g04_manip.cxx", "parts": 2, "spec": "TraceManipulator"}]},
    "G05": {"drivers": [{"src": "g05_decomp.cxx", "parts": 1, "spec": "TraceDecomposition"}], "mc": ["MCDecomposition"]},
    "G06": {"drivers": [{"src": "g06_storage.cxx", "parts": 2, "spec": "TraceModelStorage"}]},
    "F01": {"drivers": [{"src": "f01_functions.cxx", "parts": 3, "spec": "TraceFunctionZoo"}]},
    "I01": {"drivers": [{"src": "i01_exact.cxx", "parts": 4, "spec": "TraceSolver"}]},
    "I02": {"drivers": [{"src": "i02_tree.cxx", "parts": 4, "spec": "TraceSolver"}]},
    "I03": {"drivers": [{"src": "i03_marginals.cxx", "parts": 5, "spec": "TraceMarginals"}]},
    "I05": {"drivers": [{"src": "i05_moves.cxx", "parts": 3, "spec": "TraceSolver"}]},
    "I06": {"drivers": [{"src": "i06_local.cxx", "parts": 3, "spec": "TraceSolver"}]},
    "I07": {"drivers": [{"src": "i07_moveopt.cxx", "parts": 3, "spec": "TraceSolver"}]},
    "I04": {"drivers": [{"src": "i04_graphcut.cxx", "parts": 3, "spec": "TraceSolver"}]},
    "I10": {"drivers": [{"src": "i10_mincut.cxx", "parts": 1, "spec": "TraceMinCut"}], "mc": ["MCMinCut"], "mc_thorough": ["MCMinCut:MCMinCutBig"]},
    "I09": {"drivers": [{"src": "i09_movemaker.cxx", "parts": 4, "spec": "TraceMoveMaker"}], "mc": ["MCMoveMaker"], "mc_thorough": ["MCMoveMaker:MCMoveMakerBig"],
            "gen": [{"module": "GenMoveMaker", "out": "movemaker.gen", "num": 60, "num_thorough": 1500, "depth": 16}]},
    "D02": {"drivers": [{"src": "d02_containers.cxx", "parts": 2, "spec": "TraceContainers", "flags": ["-fsanitize=address"]}],
            "mc": ["MCContainers:MCContainersSeq", "MCContainers:MCContainersSet"],
            "gen": [{"module": "GenContainers", "out": "containers.gen", "num": 80, "num_thorough": 2000, "depth": 14}]},
    "D03": {"drivers": [{"src": "d03_partition.cxx", "parts": 1, "spec": "TraceUnionFind"}],
            "mc": ["MCUnionFind"], "mc_thorough": ["MCUnionFind:MCUnionFindBig"],
            "gen": [{"module": "GenUnionFind", "out": "unionfind.gen", "num": 60, "num_thorough": 2000, "depth": 14}]},
    "D04": {"drivers": [{"src": "d04_queue.cxx", "parts": 1, "spec": "TracePriorityQueue"}],
            "mc": ["MCPriorityQueue"], "mc_thorough": ["MCPriorityQueue:MCPriorityQueueBig"],
            "gen": [{"module": "GenPriorityQueue", "out": "pq.gen", "num": 80, "num_thorough": 2000, "depth": 26}]},
    "D05": {"drivers": [{"src": "d05_walkers.cxx", "parts": 1, "spec": "TraceWalkers"}], "mc": ["MCWalkers"]},
    "D06": {"drivers": [{"src": "d06_algebra.cxx", "parts": 1, "spec": "TraceAlgebra"}], "mc": ["MCAlgebra"]},
    "D07": {"drivers": [{"src": "d07_transport.cxx", "parts": 1, "spec": "TraceTransport"}], "mc": ["MCTransport"], "mc_thorough": ["MCTransport:MCTransportBig"]},
    "D01": {"drivers": [{"src": "d01_marray.cxx", "parts": 1, "spec": "TraceArrays", "flags": ["-fsanitize=address"]}], "mc": ["MCArrays"], "mc_thorough": ["MCArrays:MCArraysBig"]},
    "F02": {"drivers": [{"src": "f02_props.cxx", "parts": 3, "spec": "TraceFunctionProps"}], "mc": ["MCFunctionProps"], "mc_thorough": ["MCFunctionProps:MCFunctionPropsBig"]},
    "F03": {"drivers": [{"src": "f03_factors.cxx", "parts": 3, "opt": "-O0", "spec": "TraceFactorAlgebra"}]},
    "F04": {"drivers": [{"src": "f04_views.cxx", "parts": 3, "opt": "-O0", "spec": "TraceViews"}]},
    "F06": {"drivers": [{"src": "f06_learnable.cxx", "parts": 2, "opt": "-O0", "spec": "TraceViews"}]},
    "F05": {"drivers": [{"src": "f05_constraints.cxx", "parts": 3, "opt": "-O0", "spec": "TraceConstraints"}], "mc": ["MCConstraints"], "mc_thorough": ["MCConstraints:MCConstraintsBig"]},
    "F07": {"drivers": [{"src": "f07_lptransfer.cxx", "parts": 2, "opt": "-O0", "spec": "TraceConstraints"}], "mc": ["MCConstraints"], "mc_thorough": ["MCConstraints:MCConstraintsBig"]},
    "S01": {"drivers": [{"src": "s01_persist.cxx", "parts": 4, "opt": "-O0", "spec": "TracePersistence", "flags": ["-DWITH_HDF5", "-I/usr/include/hdf5/serial"], "libs": ["-lhdf5_serial"]},
                        {"src": "s01_arrays.cxx", "parts": 1, "opt": "-O0", "spec": "TraceArrayFile", "flags": ["-I/usr/include/hdf5/serial"], "libs": ["-lhdf5_serial"]}],
            "gen": [{"module": "GenPersistence", "out": "persistence.gen", "num": 60, "num_thorough": 600, "depth": 20}]},
    "C01": {"drivers": [{"src": "c01_convert.cxx", "parts": 1, "opt": "-O0", "spec": "TraceConverter", "flags": ["-DWITH_HDF5", "-I/usr/include/hdf5/serial"], "libs": ["-lhdf5_serial"]}],
            "mc": ["MCConverter"], "mc_thorough": ["MCConverter:MCConverterBig"]},
    "I14": {"drivers": [{"src": "i14_sampling.cxx", "parts": 4, "opt": "-O0", "spec": "TraceSampler"}],
            "mc": ["MCSampler"], "mc_thorough": ["MCSampler:MCSamplerBig"]},
    "I11": {"drivers": [{"src": "i11_binary.cxx", "parts": 2, "opt": "-O0", "spec": "TraceBinary"}],
            "mc": ["TwoSat:TwoSat", "MCRoofDual"], "mc_thorough": ["MCRoofDual:MCRoofDualBig"]},
    "I16": {"drivers": [{"src": "i16_partition.cxx", "parts": [0], "opt": "-O0", "spec": "TracePartition"}, {"src": "i16_partition.cxx", "parts": [1], "opt": "-O0", "spec": "TraceGreedy"}],
            "mc": ["MCPartitioning"], "mc_thorough": ["MCPartitioning:MCPartitioningBig"]},
    "I15": {"drivers": [{"src": "i15_fusion.cxx", "parts": 3, "spec": "TraceFusion", "flags": ["-I$H/standin"]}],
            "mc": ["MCFusion"], "mc_thorough": ["MCFusion:MCFusionBig"]},
    "I08": {"drivers": [{"src": "i08_bounds.cxx", "parts": 4, "spec": "TraceBounds", "opt": "-O0"}], "mc": ["MCBounds"], "mc_thorough": ["MCBounds:MCBoundsBig"]},
    "I17": {"drivers": [{"src": "i17_wrappers.cxx", "parts": 3, "spec": "TraceWrappers", "flags": ["-I$H/standin"]}],
            "mc": ["MCWrappers"], "mc_thorough": ["MCWrappers:MCWrappersBig"]},
    "I12": {"drivers": [{"src": "i12_visitors.cxx", "parts": 4, "spec": "TraceVisitors", "flags": ["-I$H/standin"], "opt": "-O0"}], "mc": ["MCVisitors"], "mc_thorough": ["MCVisitors:MCVisitorsBig"]},
    "I13": {"drivers": [{"src": "i13_lifecycle.cxx", "parts": 3, "spec": "TraceLifecycle", "flags": ["-I$H/standin"], "opt": "-O0"}], "mc": ["MCLifecycle"], "mc_thorough": ["MCLifecycle:MCLifecycleBig"]},
    "I18": {"drivers": [{"src": "i18_lp.cxx", "parts": 3, "spec": "TraceLinProg"}], "mc": ["MCCuttingPlane"], "mc_thorough": ["MCCuttingPlane:MCCuttingPlaneBig"]},
    "I19": {"drivers": [{"src": "i19_repar.cxx", "parts": 3, "spec": "TraceReparam", "flags": ["-DWITH_HDF5", "-I/usr/include/hdf5/serial"], "libs": ["-lhdf5_serial"]}], "mc": ["MCReparametrization"], "mc_thorough": ["MCReparametrization:MCReparametrizationBig"]},
}
NOT_APPLICABLE = {}
