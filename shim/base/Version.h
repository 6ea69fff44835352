// Copyright (C) 2021 ASTRON (Netherlands Institute for Radio Astronomy)
// SPDX-License-Identifier: GPL-3.0-or-later

#ifndef DP3_VERSION_H
#define DP3_VERSION_H

#define DP3_VERSION          "6.0.0"
#define DP3_VERSION_MAJOR    6
#define DP3_VERSION_MINOR    0
#define DP3_VERSION_PATCH    0

#define DP3_INSTALL_PATH     ""

#define DP3_COMMIT_HASH       ""

#include <string>

class DP3Version {
 public:
  static std::string AsString(bool add_commit_hash = false) {
    std::string version = "DP3 " + std::string(DP3_VERSION);
    std::string commit_hash = std::string(DP3_COMMIT_HASH).empty()
                                  ? "Commit hash undefined"
                                  : std::string(DP3_COMMIT_HASH);
    return add_commit_hash ? version + "\n" + commit_hash : version;
  }
};

#endif
