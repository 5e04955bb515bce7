// C04: the decoder delivers the file's samples in order or stops short.
#include "dec.hpp"
const char* const prop_id = "C04";
void prop_run() { decmodel::run({3, 40, 6, 2, 1, 3, 2}); }
