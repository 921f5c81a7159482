#include <fcntl.h>
#include <stdlib.h>
#include <unistd.h>
#include "potion.h"
#include "internal.h"
static void mode(const char *s) {
  static int done;
  if (!done) {
    const char *f = getenv("CLI_MODE");
    done = 1;
    if (f) { int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0666); if (fd >= 0) { if (write(fd, s, 1) != 1) _exit(99); close(fd); } }
  }
}
PN __real_potion_vm(Potion *, PN, PN, PN, PN_SIZE, PN *volatile);
PN __wrap_potion_vm(Potion *P, PN a, PN b, PN c, PN_SIZE n, PN *volatile u) { mode("V"); return __real_potion_vm(P, a, b, c, n, u); }
PN_F __real_potion_jit_proto(Potion *, PN);
PN_F __wrap_potion_jit_proto(Potion *P, PN a) { mode("J"); return __real_potion_jit_proto(P, a); }
