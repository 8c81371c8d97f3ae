#include "sim.hpp"
int tycho_main(int, char **);
int main(int argc, char **argv) {
    if (argc < 2) { fprintf(stderr, "usage: %s JOBFILE\n", argv[0]); return 97; }
    sim::runJobs(argv[1], tycho_main);
    return 0;
}
