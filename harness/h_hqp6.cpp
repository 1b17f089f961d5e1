#include "h_hqp.hpp"
void run_hqp6() { Api<12, 12, 6>::run(); }
