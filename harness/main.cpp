#include "engine.h"
int main(int argc, char** argv) { return engineMain(argc, argv); }
