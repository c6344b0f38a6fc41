// Shared helpers of the conformance drivers: JSON in, JSON out, exact integer projections.
#pragma once
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <complex>
#include <nlohmann/json.hpp>

using json = nlohmann::json;

namespace drv {

constexpr long NONINT = 999999999; // a value which is not the small integer it should be

/// The driver works on a grid of small integers: report the integer or the sentinel
inline long to_int(double v, double tol = 2e-2) {
    if (!std::isfinite(v)) { return NONINT; }
    auto const r = std::round(v);
    if (std::abs(v - r) > tol || std::abs(r) > 5e7) { return NONINT; }
    return static_cast<long>(r);
}

inline long imod(long a, long m) { auto r = a % m; return r < 0 ? r + m : r; }

/// Read scenarios (one JSON per line), run each, write one JSON result per line.
/// argv: in out [first]
template<class F>
int main_loop(int argc, char** argv, F run) {
    if (argc < 3) { std::cerr << "usage: driver IN OUT [SKIP]\n"; return 2; }
    auto in = std::ifstream(argv[1]);
    auto const skip = argc > 3 ? std::atoi(argv[3]) : 0;
    auto out = std::ofstream(argv[2], skip ? std::ios::app : std::ios::trunc);
    std::string line;
    for (auto n = 0; std::getline(in, line); ++n) {
        if (n < skip || line.empty()) { continue; }
        auto const scenario = json::parse(line);
        json result = run(scenario);
        out << result.dump() << "\n";
        out.flush();
    }
    return 0;
}

} // namespace drv
