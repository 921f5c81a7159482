/* interior LOG: a C frame holds a pointer into the middle of a string while a collection runs.
   For each case a line: WORD OFFSET KIND RESULT
   WORD: the 32-bit word at the place pointed to; KIND: m minor, M major; RESULT: kept, changed, or a signal. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include "potion.h"
#include "internal.h"
#include "table.h"

static int one(unsigned word, int off, int major) {
  POTION_INIT_STACK(sp);
  char text[97]; int i;
  Potion *P = potion_create(sp);
  potion_garbagecollect(P, 8192, 0);          /* the region for older objects exists */
  for (i = 0; i < 96; i++) text[i] = 'a' + i % 26;
  text[96] = 0;
  memcpy(text + off, &word, 4);
  memset(text + off + 4, 0, 4);
  volatile PN s = potion_str2(P, text, 96);
  char *volatile in = PN_STR_PTR(s) + off;
  potion_garbagecollect(P, 8192, major);
  for (i = 0; i < 50; i++) potion_str(P, "more");
  potion_garbagecollect(P, 8192, major);
  return PN_STR_LEN(s) == 96 && !memcmp(PN_STR_PTR(s), text, 96) && in ? 0 : 1;
}

int main(int argc, char **argv) {
  unsigned words[] = { 0, 1, 7, 0x24ffff, 0x61626364, 0x250100, 0x25ffff, 0xfffffff0, 0x250000 + 5 };
  int w, off, major, bad = 0;
  for (w = 0; w < 9; w++)
    for (major = 0; major < 2; major++)
      for (off = 8; off < 80; off += 4) {
        if ((w == 8 && off != 24) || bad > 12) continue;
        fflush(stdout);
        int pid = fork(), st = 0;
        if (!pid) {
          alarm(5);
          signal(SIGSEGV, SIG_DFL);
          freopen("/dev/null", "w", stderr);
          freopen("/dev/null", "w", stdout);
          _exit(one(words[w], off, major));
        }
        waitpid(pid, &st, 0);
        bad += st != 0;
        printf("%x %d %c %s\n", words[w], off, major ? 'M' : 'm',
               st == 0 ? "kept" : "damaged");
      }
  return 0;
}
