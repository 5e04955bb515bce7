// C05: decoder position, seek and attributes follow the file through any history.
#include "dec.hpp"
const char* const prop_id = "C05";
void prop_run() { decmodel::run({8, 14, 20, 5, 2, 8, 1}); }
