#include "pbt.hpp"
#include <cstring>
int logChild(int argc, char **argv);
int main(int argc, char **argv) {
  if (argc > 3 && !strcmp(argv[1], "--logchild")) return logChild(argc, argv);
  return pbt::mainRun(argc, argv);
}
