/* a library for the check of load: NAME is what load looks for */
#include <stdio.h>
#include "potion.h"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
static PN so_name(Potion *P, PN cl, PN self) { return potion_str(P, "so"); }
void CAT(Potion_Init_, NAME)(Potion *P) {
  FILE *f = fopen("log", "a");
  fputs("so", f); fclose(f);
  potion_method(P->lobby, "so_name", so_name, 0);
}
