#include "../sim/sim.hpp"
void run_hqp4(); void run_hqp6();
static void run_all() { if (sim::pick(2, "size")) run_hqp6(); else run_hqp4(); }
int main(int argc, char** argv) { return sim::main(argc, argv, run_all); }
