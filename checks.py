import os
"""Which harness decides which property (the rules are in meta.py)."""
import meta

PARSET = ["common/ParameterSet.cc", "common/ParameterSetImpl.cc", "common/ParameterValue.cc",
          "common/ParameterRecord.cc", "common/StringTools.cc"]

UNITS = {
    "parset": {"harness": ["parset.cc"], "sources": PARSET},
    "parset_threads": {"harness": ["parset_threads.cc"], "sources": PARSET, "san": "tsan"},
    "common": {"harness": ["common.cc"], "sources": ["common/DataConvert.cc", "common/Fields.cc", "common/PrettyUnits.cc"]},
    "desc": {"harness": ["desc.cc"], "sources": [*PARSET, "common/ClusterDesc.cc", "common/NodeDesc.cc", "common/VdsDesc.cc", "common/VdsPartDesc.cc",
             "common/TypeNames.cc", "base/CalType.cc"]},
    "constr": {"harness": ["constr.cc"], "sources": ["base/CalType.cc", "base/PhaseFitter.cc", *["ddecal/constraints/" + f + ".cc" for f in ("Constraint", "AntennaIntervalConstraint", "FaradayConstraint",
               "PolarizationLeakageConstraint", "RotationAndDiagonalConstraint", "RotationConstraint", "SmoothnessConstraint", "TecConstraint", "TecOffsetDelayConstraint", "TecOffsetDelayFitting")]],
               "libs": ["-lgsl", "-lgslcblas"]},
    "solve": {"harness": ["solve.cc"], "sources": ["base/DPBuffer.cc", "base/BdaBuffer.cc", "common/Fields.cc", "ddecal/linear_solvers/LLSSolver.cc", "ddecal/constraints/Constraint.cc",
              *["ddecal/gain_solvers/" + f + ".cc" for f in ("SolveData", "SolverBase", "SolverTools", "BdaSolverBuffer", "ScalarSolver", "DiagonalSolver", "FullJonesSolver",
                "IterativeScalarSolver", "IterativeDiagonalSolver", "IterativeFullJonesSolver", "DiagonalAntennaSolver", "HybridSolver")]],
              "libs": ["-llapack", "-lblas", "-lgsl", "-lgslcblas"]},
    "cal": {"harness": ["cal.cc"], "sources": ["base/Apply.cc", "base/SubtractMixed.cc", "ddecal/SolutionResampler.cc",
            "ddecal/linear_solvers/LLSSolver.cc"], "libs": ["-llapack", "-lblas"]},
    "fits": {"harness": ["fits.cc"], "sources": ["base/PhaseFitter.cc", "ddecal/constraints/TecOffsetDelayFitting.cc"],
             "libs": ["-lgsl", "-lgslcblas"]},
    "sky": {"harness": ["sky.cc"], "sources": ["base/ComponentInfo.cc", "base/GaussianSource.cc", "base/PointSource.cc", "base/Stokes.cc",
            "common/ProximityClustering.cc", *PARSET, "parmdb/ParmValue.cc", "parmdb/Grid.cc", "parmdb/Axis.cc", "parmdb/Box.cc",
            "sky_model/Patch.cc", "sky_model/PatchInfo.cc", "sky_model/ReadSkyModel.cc", "sky_model/SkyModel.cc", "sky_model/SkyModelFunctions.cc",
            "sky_model/SkyModelSelection.cc", "sky_model/Source.cc", "sky_model/SourceInfo.cc"]},
}

CORE = ["base/DPBuffer.cc", "base/DPInfo.cc", "base/BdaBuffer.cc", "base/FlagCounter.cc", "steps/Step.cc", "common/Fields.cc"]

UNITS["pipe"] = {"harness": ["pipe.cc"], "sources": [*CORE, *PARSET, "steps/Averager.cc", "steps/BDAAverager.cc", "steps/BdaExpander.cc"]}

UNITS["flag"] = {"harness": ["flag.cc"], "sources": [*CORE, *PARSET, "base/BaselineSelection.cc", "base/UVWCalculator.cc", "steps/Counter.cc", "steps/PreFlagger.cc", "steps/UVWFlagger.cc"]}

STEPS = {"harness": ["steps.cc"], "sources": [*CORE, *PARSET, "base/UVWCalculator.cc", "steps/Combine.cc", "steps/Interpolate.cc", "steps/MadFlagger.cc",
         "steps/MultiResultStep.cc", "steps/NullStokes.cc", "steps/PhaseShift.cc", "steps/ScaleData.cc", "steps/SetBeam.cc", "steps/Upsample.cc"]}
UNITS["steps"] = STEPS
UNITS["steps_tsan"] = dict(STEPS, san="tsan")

IO = [*CORE, *PARSET, "base/MS.cc", "base/BaselineSelection.cc", "base/UVWCalculator.cc", "steps/MsReader.cc", "steps/InputStep.cc", "steps/MultiMsReader.cc", "steps/MSBDAReader.cc", "steps/Filter.cc"]
UNITS["chain"] = {"harness": ["chain.cc"], "sources": [*IO, "steps/ResultStep.cc", "steps/Averager.cc", "steps/BDAAverager.cc", "steps/Combine.cc", "steps/Counter.cc", "steps/Interpolate.cc", "steps/MadFlagger.cc",
                  "steps/MultiResultStep.cc", "steps/NullStokes.cc", "steps/PhaseShift.cc", "steps/PreFlagger.cc", "steps/ScaleData.cc", "steps/SetBeam.cc",
                  "steps/StationAdder.cc", "steps/UVWFlagger.cc", "steps/Upsample.cc"]}

CHECKS = {p: v["check"] for p, v in meta.PROPS.items()}

UNITS["reader"] = {"harness": ["reader.cc"], "sources": [*IO, "steps/ResultStep.cc"]}
WRITE = {"harness": ["writer.cc"], "flags": ["-DMETADATA_COMPRESSION_DEFAULT=false"], "sources": [*IO, "steps/ResultStep.cc", "steps/Averager.cc", "steps/Counter.cc", "steps/MSUpdater.cc", "steps/MSWriter.cc",
         "steps/PhaseShift.cc", "steps/SetBeam.cc", "steps/StationAdder.cc"]}
UNITS["writer"] = WRITE
UNITS["writer_tsan"] = dict(WRITE, san="tsan")
UNITS["multi"] = {"harness": ["multi.cc"], "sources": [*IO, "steps/ResultStep.cc", "steps/FlagTransfer.cc", "steps/MsColumnReader.cc", "steps/Transfer.cc"]}
UNITS["bdaio"] = {"harness": ["bdaio.cc"], "flags": ["-DMETADATA_COMPRESSION_DEFAULT=false"], "sources": [*IO, "steps/ResultStep.cc", "steps/BDAAverager.cc", "steps/MSBDAWriter.cc", "steps/MSWriter.cc"]}
UNITS["pipeline"] = {"harness": ["pipeline.cc"], "flags": ["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim", "dp3"), "-DMETADATA_COMPRESSION_DEFAULT=false"],
    "sources": [*dict.fromkeys([*UNITS["writer"]["sources"], *UNITS["chain"]["sources"], *UNITS["multi"]["sources"], "base/DP3.cc", "steps/BdaExpander.cc", "base/ProgressMeter.cc", "steps/MSBDAWriter.cc", "steps/Split.cc"])]}

UNITS["predict"] = {"harness": ["predict.cc"], "sources": [*CORE, *PARSET, "base/ComponentInfo.cc", "base/GaussianSource.cc", "base/PointSource.cc", "base/Simulate.cc", "base/Simulator.cc", "base/Stokes.cc", "steps/PhaseShift.cc"]}
UNITS["parmdb"] = {"harness": ["parmdb.cc"], "sources": [*CORE, *PARSET, *["parmdb/%s.cc" % n for n in ("Axis", "AxisMapping", "Box", "Grid", "Parm", "ParmCache", "ParmDB", "ParmDBCasa", "ParmDBLocker", "ParmDBMeta", "ParmFacade", "ParmFacadeLocal", "ParmFacadeRep", "ParmSet", "ParmValue")]]}
