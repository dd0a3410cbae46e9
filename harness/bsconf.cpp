// Drives Booksim's configuration parser.  stdin commands:
//   new <k>          construct configuration k        file <k> <path>    parse a file
//   str <k> <path>   parse the file's contents as an override string
//   write <k> <path> write the configuration          dump <k>           print everything
#include "bsmain.hpp"
#include "booksim_config.hpp"
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
using namespace std;

int GetSimTime() { return 0; }

int sc_main(int, char **) {
  map<int, BookSimConfig *> c;
  string line;
  while (getline(cin, line)) {
    istringstream s(line);
    string op, path;
    int k;
    s >> op >> k >> path;
    if (op == "new") {
      c[k] = new BookSimConfig();
    } else if (op == "file") {
      c[k]->ParseFile(path);
    } else if (op == "str") {
      ifstream f(path);
      stringstream b;
      b << f.rdbuf();
      c[k]->ParseString(b.str());
    } else if (op == "write") {
      c[k]->WriteFile(path);
    } else if (op == "dump") {
      printf("D %d\n", k);
      for (auto &x : c[k]->GetStrMap()) {
        printf("S %s %s\n", x.first.c_str(), c[k]->GetStr(x.first).c_str());
        string a;
        for (auto &y : c[k]->GetStrArray(x.first)) a += " " + y;
        printf("AS %s%s\n", x.first.c_str(), a.c_str());
        printf("AI %s", x.first.c_str());
        for (int y : c[k]->GetIntArray(x.first)) printf(" %d", y);
        printf("\nAF %s", x.first.c_str());
        for (double y : c[k]->GetFloatArray(x.first)) printf(" %.17g", y);
        puts("");
      }
      for (auto &x : c[k]->GetIntMap()) printf("I %s %d\n", x.first.c_str(), c[k]->GetInt(x.first));
      for (auto &x : c[k]->GetFloatMap()) printf("F %s %.17g\n", x.first.c_str(), c[k]->GetFloat(x.first));
    }
    fflush(stdout);
  }
  puts("END");
  fflush(stdout);
  _exit(0);
}
