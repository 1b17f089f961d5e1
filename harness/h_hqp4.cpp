#include "h_hqp.hpp"
void run_hqp4() { Api<10, 10, 4>::run(); }
