"""What decides which property: design models (TLC alone), drivers (real code)
and trace specifications (TLC on what the drivers recorded)."""

# property -> dict(
#   design = [(module, quick cfg, thorough cfg)]   models whose invariants TLC checks exhaustively; the
#                                                  behaviours they print are handed to the driver for replay
#   trace  = module of the trace specification
#   note   = evidence notes)
PROPS = {
    "C01": dict(design=[], trace="FwdSweep"),
    "C02": dict(design=[], trace="BwdSweep"),
    "C03": dict(design=[("GaussMomentsTest", "GaussMomentsTest", "GaussMomentsTest")], trace="MomentsTrace"),
    "C04": dict(design=[("DriftEnergyTest",) * 3], trace="EnergyTrace", cfg="EnergyValue"),
    "C05": dict(design=[("DriftEnergyTest",) * 3], trace="EnergyTrace", cfg="EnergySens"),
    "C06": dict(design=[("DriftEnergyTest",) * 3], trace="EnergyTrace", cfg="EnergyAll"),
    "C07": dict(design=[], trace="UtTrace"),
    "C08": dict(design=[("LikelihoodTest",) * 3], trace="ObsTrace"),
    "C09": dict(design=[("LikelihoodTest",) * 3], trace="KLTrace"),
    "C10": dict(design=[("DriftEnergyTest",) * 3, ("LikelihoodTest",) * 3], trace="VarGP"),
    "C11": dict(design=[("EvalHistory", "EvalHistory", "EvalHistory"), ], trace="EvalTrace"),
    "C12": dict(design=[("ScgDesign", "ScgDesign", "ScgDesignDeep")], trace="ScgTrace"),
    "C13": dict(design=[("ScgDesign", "ScgDesign", "ScgDesignDeep")], trace="ScgRecursion"),
    "C14": dict(design=[("DriftEnergyTest",) * 3], trace="SdeTrace"),
    "C15": dict(design=[("ObsGrid", "ObsGrid", "ObsGridDeep")], trace="CollectTrace"),
    "C16": dict(design=[("SeedHistory", "SeedHistory", "SeedHistoryDeep")], trace="SeedTrace"),
    "C17": dict(design=[("ParamHistory", "ParamHistory", "ParamHistory")], trace="ParamTrace"),
    "C18": dict(design=[("DriftEnergyTest",) * 3, ("LikelihoodTest",) * 3], trace="RunTrace"),
    "C19": dict(design=[("SimHistory", "SimHistory", "SimHistoryDeep")], trace="SaveTrace"),
    "C20": dict(design=[("ConfigHistory", "ConfigHistory", "ConfigHistoryDeep")], trace="ConfigTrace"),
    "C21": dict(design=[("TrapzSplit", "TrapzSplit", "TrapzSplitDeep")], trace="TrapzTrace"),
    "C22": dict(design=[], trace="HelpersTrace"),
    "C23": dict(design=[("SplineTest",) * 3], trace="GuessTrace"),
    "C24": dict(design=[("UpdateHistory", "UpdateHistory", "UpdateHistoryDeep")], trace="UpdateTrace"),
    "C25": dict(design=[("ReproHistory", "ReproHistory", "ReproHistoryDeep")], trace="ReproTrace"),
    "C26": dict(design=[], trace="GradCheck"),
    "C27": dict(design=[], trace="StartTrace"),
}
