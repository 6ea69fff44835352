// Stand-in: only the tile beam direction of a measurement set.
#pragma once
#include "casacore/mini.h"
#include "EveryBeam/beammode.h"
namespace everybeam {
inline casacore::MDirection ReadTileBeamDirection(const casacore::MeasurementSet& ms) {
  const std::string t = casacore::ScalarColumn<casacore::String>(ms.keywordSet().asTable("OBSERVATION"), "TELESCOPE_NAME")(0);
  if (t != "LOFAR" && t != "AARTFAAC") throw std::runtime_error("no tile beam for telescope " + t);
  const casacore::Table f = ms.keywordSet().asTable("FIELD");
  return *casacore::ArrayMeasColumn<casacore::MDirection>(f, f.tableDesc().isColumn("LOFAR_TILE_BEAM_DIR") ? "LOFAR_TILE_BEAM_DIR" : "DELAY_DIR")(0).data();
}
}  // namespace everybeam
