#define KIND O
#define PNAME "C02"
#include "optimal.inc"
