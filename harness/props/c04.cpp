#define KIND D
#define PNAME "C04"
#include "optimal.inc"
