#include <nuSQuIDS/resources.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
// Reads commands from stdin: "u" unset, "s" set to the next line, "g" print the path as hex.
int main() {
  static char b[70000];
  while (fgets(b, sizeof b, stdin)) {
    if (b[0] == 'u') unsetenv("NUSQUIDS_DATA_PATH");
    else if (b[0] == 's') { b[strcspn(b, "\n")] = 0; setenv("NUSQUIDS_DATA_PATH", b + 1, 1); }
    else if (b[0] == 'g') { std::string s = nusquids::getResourcePath(); putchar('='); for (unsigned char c : s) printf("%02x", c); putchar('\n'); }
  }
}
