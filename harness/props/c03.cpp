#define KIND H
#define PNAME "C03"
#include "optimal.inc"
