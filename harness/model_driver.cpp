#include "model_common.hpp"
int main(int argc, char** argv) {
    return drv::main_loop(argc, argv, [](json const& s) { return drv::Interp{}.run(s); });
}
