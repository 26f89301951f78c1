// Classes of inputs listed as open findings in /verif/known_findings.json.
// (None are open: every defect found so far has been repaired.)
#pragma once
#include "core.hpp"

namespace known {

/// name of the listed finding that explains the failure, or ""
inline std::string match(const std::string&, const Case&, const Report&) { return ""; }

}
