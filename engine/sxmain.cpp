#include "sxrt.h"
int main(int argc, char** argv) { return sx_main(argc, argv); }
