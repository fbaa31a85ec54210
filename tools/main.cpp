#include "apa.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/CommandLine.h"
#include <iostream>
#include <unistd.h>
int main(int argc, char **argv) {
  if (argc < 2) return 2;
  const char *fl[] = {"apa", "-phi-node-folding-threshold=0", "-two-entry-phi-node-folding-threshold=0"};
  cl::ParseCommandLineOptions(3, fl);
  std::string c = argv[1];
  std::vector<std::string> a(argv + 2, argv + argc);
  static const std::map<std::string, int (*)(std::vector<std::string>)> cmds = {
    {"tables", runTables},
    {"globals", runGlobals},
    {"format", runFormat},
    {"flags", runFlags},
    {"exc", runExc},
    {"wrap", runWrap},
    {"product", runProduct},
    {"texpr", runTexpr},
    {"kinds", runKinds},
    {"rounding", runRounding},
    {"args", runArgs}, {"envs", runEnvs}, {"jargs", runJargs}, {"own", runOwn}, {"jexc", runJexc}, {"cells", runCells}, {"conv", runConv}, {"dims", runDims},
  };
  auto it = cmds.find(c);
  if (it == cmds.end()) { std::cerr << "unknown command " << c << "\n"; return 2; }
  int r = it->second(a);
  emitCounters();
  std::cout << "{\"kind\":\"done\"}" << std::endl;
  _exit(r); // skip LLVM teardown
}
