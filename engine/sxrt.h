#pragma once
int sx_main(int argc, char** argv);
extern "C" void __sx_on_exit(int code);
