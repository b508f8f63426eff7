// C08: see rebuild.h
#include "rebuild.h"

using namespace vt;

static void explore(Run &R) { rebuild_cases(R, 2); }

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
