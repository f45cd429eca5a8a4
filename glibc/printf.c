/* Reads requests "kind<TAB>format<TAB>value" and prints what the C library makes of them. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

int main(void) {
  static char line[4096];
  while (fgets(line, sizeof line, stdin)) {
    size_t n = strlen(line);
    if (n && line[n - 1] == '\n') line[n - 1] = 0;
    char *fmt = strchr(line, '\t');
    if (!fmt) return 2;
    *fmt++ = 0;
    char *val = strchr(fmt, '\t');
    if (!val) return 2;
    *val++ = 0;
    switch (line[0]) {
      case 'i': printf(fmt, (int) strtoll(val, 0, 10)); break;
      case 'l': printf(fmt, strtoll(val, 0, 10)); break;
      case 's': printf(fmt, val); break;
      case 'c': printf(fmt, val[0]); break;
      case 'd': printf(fmt, strtod(val, 0)); break;
      case 'w': { /* star width: "w,value" */
        char *v = strchr(val, ',');
        printf(fmt, (int) strtol(val, 0, 10), (int) strtoll(v + 1, 0, 10));
        break;
      }
      case 'p': { /* star width and precision: "w,p,value" */
        char *v = strchr(val, ',');
        char *u = strchr(v + 1, ',');
        printf(fmt, (int) strtol(val, 0, 10), (int) strtol(v + 1, 0, 10), (int) strtoll(u + 1, 0, 10));
        break;
      }
      default: return 2;
    }
    putchar('\n');
  }
  return 0;
}
