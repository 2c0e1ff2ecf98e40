REGISTRY = {
    "C01": ("fermion", "JordanWigner"),
    "C02": ("fermion", "PauliGroup"),
    "C03": ("fermion", "RotateOperators"),
    "C04": ("fermion", "BuildOp"),
    "C05": ("fermion", "CoefficientBuilders"),
    "C06": ("fermion", "Lift"),
    "C07": ("fermion", "EighSp"),
    "C08": ("fermion", "EigmSp"),
    "C09": ("fermion", "GaussianState"),
    "C10": ("fermion", "Wick"),
    "C11": ("fermion", "TwoPoint"),
    "C12": ("fermion", "Predicates"),
    "C13": ("fermion", "AlgebraS"),
    "C14": ("fermion", "PermutationMatrix"),
    "C15": ("combi", "Pfaffian"),
    "C16": ("combi", "HafnianPermanent"),
    "C17": ("combi", "Determinant"),
    "C18": ("combi", "PermutationSign"),
    "C19": ("graph", "MatchingCount"),
    "C20": ("graph", "Orientation"),
    "C21": ("graph", "CompleteFace"),
    "C22": ("graph", "FacesDual"),
    "C23": ("graph", "BruteMatchings"),
    "C24": ("graph", "TreeDepth"),
    "C25": ("graph", "RandomPlanar"),
    "C26": ("measures", "Magic"),
    "C27": ("measures", "Gaussianity"),
    "C28": ("measures", "Entropies"),
    "C29": ("measures", "Divergences"),
    "C30": ("measures", "TraceDistance"),
    "C31": ("measures", "Casts"),
    "C32": ("measures", "PartialTraces"),
    "C33": ("measures", "DirectSum"),
    "C34": ("measures", "Clean"),
    "C35": ("measures", "Printing"),
    "C36": ("states", "Rotation"),
    "C37": ("states", "Generator"),
    "C38": ("states", "FFStates"),
    "C39": ("states", "QubitStates"),
    "C40": ("states", "Bitstrings"),
    "C41": ("states", "SeedHistory"),
    "C42": ("states", "Paths"),
    "C43": ("states", "OrthoBasis"),
    "C44": ("states", "Rejections"),
    "C45": ("purity", "Purity"),
    "C46": ("purity", "Plots"),
    "C47": ("compose", "NormalModes"),
    "C48": ("compose", "Marginals"),
    "C49": ("compose", "Independent"),
    "C50": ("compose", "MatrixIdentities"),
    "C51": ("compose", "MatchingRecursion"),
    "C52": ("compose", "DistanceRelations"),
    "C53": ("lattice", "Lattices"),
}
