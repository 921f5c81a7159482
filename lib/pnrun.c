/* pnrun: exhaustive executor of potion programs on the real implementation.
 *
 * usage: pnrun [-m MODES] [-s SEEDS] [-t CPUSEC] [-g GCMODES] [-G MAXK] [-c CHUNK] [-a] CASEFILE
 *
 * CASEFILE: repeated { u32 plen; u32 elen; char prog[plen]; char expected[elen]; }
 *   elen == 0xffffffff : no expectation, every execution must agree with the first one.
 * MODES: string over V (bytecode VM), J (JIT), C (dump to .pnb, load in a fresh
 *   interpreter, VM), D (same, JIT).
 * GCMODES: string over n (minor collection at allocation k, for every k), M (major
 *   collection at allocation k, for every k), a (minor at every allocation), A (major at
 *   every allocation), p (two collections, for every pair of allocations and each minor or major).  Allocation points are those between the start and the end of the
 *   run of the compiled code (the parser and compiler are documented not to be GC safe).
 * Every (case, seed, mode, gc schedule) runs in a fresh interpreter; crashes are contained
 * in a forked child and reported for exactly that execution.
 * Output: one line per mismatch (all executions with -a):
 *   R <case> <mode> <seed> <gcmode> <k> <hex of result>
 * and a final line  S execs=<n> mismatches=<n> gcpoints=<n>
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <alloca.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "potion.h"
#include "internal.h"
#include "table.h"
#include "gc.h"

extern void init_genrand(unsigned long);
#ifdef WITH_LIBS
void Potion_Init_buffile(Potion *P);
void Potion_Init_database(Potion *P);
#include "natives.c"
static void init_libs(Potion *P) { Potion_Init_buffile(P); Potion_Init_database(P); init_natives(P); }
#else
static void init_libs(Potion *P) { }
#endif
#include <stdio_ext.h>
#define OUTMAX (8<<20)

static char out[OUTMAX + 64];
static size_t outlen;
static void oput(const char *s, size_t n) {
  if (outlen + n > OUTMAX) n = OUTMAX - outlen;
  memcpy(out + outlen, s, n); outlen += n;
}
static void oputs(const char *s) { oput(s, strlen(s)); }

static void quote(const char *s, size_t n) {
  size_t i; char b[8];
  oputs("\"");
  for (i = 0; i < n; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { b[0] = '\\'; b[1] = c; oput(b, 2); }
    else if (c < 32 || c >= 127) { snprintf(b, 8, "\\x%02x", c); oputs(b); }
    else oput((char *)&c, 1);
  }
  oputs("\"");
}

static void dump(Potion *P, PN v, int depth);
static int cmpstr(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }

static int sane(Potion *P, PN v) { /* v points into a region of the heap */
  struct PNMemory *M = P->mem;
  return ((char *)v >= (char *)M->birth_lo && (char *)v < (char *)M->birth_hi)
    || ((char *)v >= (char *)M->old_lo && (char *)v < (char *)M->old_hi)
    || ((char *)v >= (char *)M && (char *)v < (char *)M->protect);
}

static void dump(Potion *P, PN v, int depth) {
  char b[64];
  if (v == PN_NIL) { oputs("nil"); return; }
  if (v == PN_TRUE) { oputs("true"); return; }
  if (v == PN_FALSE) { oputs("false"); return; }
  if (PN_IS_INT(v)) { snprintf(b, 64, "%ld", (long)PN_INT(v)); oputs(b); return; }
  if (v & 7) { snprintf(b, 64, "<bad>"); oputs(b); return; }
  v = potion_fwd(v);
  if (!sane(P, v)) { oputs("<stray>"); return; }
  if (depth > 100) { oputs("<deep>"); return; }
  PNType t = PN_TYPE(v);
  switch (t) {
  case PN_TNUMBER: case PN_TDOUBLE:
    double d = ((struct PNDouble *)v)->value; d != d ? strcpy(b, "nand") : (char *)(long)snprintf(b, 64, "%.17gd", d); oputs(b); return;
  case PN_TSTRING: {
    struct PNString *s = (struct PNString *)v;
    quote(s->chars, s->len); return; }
  case PN_TBYTES: {
    struct PNBytes *s = (struct PNBytes *)v;
    oputs("b"); quote(s->chars, s->len); return; }
  case PN_TTUPLE: {
    struct PNTuple *tp = (struct PNTuple *)v; unsigned long i;
    oputs("(");
    for (i = 0; i < tp->len && i < 400000; i++) { if (i) oputs(","); dump(P, tp->set[i], depth + 1); }
    oputs(")"); return; }
  case PN_TTABLE: {
    struct PNTable *h = (struct PNTable *)v; unsigned k, n = 0, i;
    char **items = malloc(sizeof(char *) * (h->n_buckets + 1));
    for (k = kh_begin(h); k != kh_end(h); ++k)
      if (kh_exist(PN, h, k)) {
        size_t at = outlen;
        dump(P, kh_key(PN, h, k), depth + 1); oputs("="); dump(P, kh_val(PN, h, k), depth + 1);
        items[n] = malloc(outlen - at + 1); memcpy(items[n], out + at, outlen - at);
        items[n][outlen - at] = 0; outlen = at; n++;
      }
    qsort(items, n, sizeof(char *), cmpstr);
    oputs("{");
    for (i = 0; i < n; i++) { if (i) oputs(","); oputs(items[i]); free(items[i]); }
    free(items);
    oputs("}");
    if (n != h->size) { snprintf(b, 64, "<size=%u>", (unsigned)h->size); oputs(b); }
    return; }
  case PN_TCLOSURE: oputs("<fn>"); return;
  case PN_TPROTO: oputs("<proto>"); return;
  case PN_TERROR: oputs("<error>"); return;
  case PN_TLOBBY: oputs("<lobby>"); return;
  case PN_TVTABLE: {
    struct PNVtable *vt = (struct PNVtable *)v;
    oputs("<class "); dump(P, vt->name, depth + 1); oputs(">"); return; }
  case PN_TWEAK: oputs("&"); dump(P, ((struct PNWeakRef *)v)->data, depth + 1); return;
  case PN_TSOURCE: oputs("<source>"); return;
  case PN_TFILE: oputs("<file>"); return;
  case PN_TCONT: oputs("<cont>"); return;
  case PN_TLICK: {
    struct PNLick *l = (struct PNLick *)v;
    oputs("["); dump(P, l->name, depth + 1); oputs(" "); dump(P, l->attr, depth + 1);
    oputs(" "); dump(P, l->inner, depth + 1); oputs("]"); return; }
  case PN_TUSER: oputs("<data>"); return;
  default:
    if (t > PN_TUSER && P->vts && PN_TYPE_ID(t) < PN_FLEX_SIZE(P->vts)) {
      struct PNVtable *vt = (struct PNVtable *)PN_VTABLE(t); int i;
      oputs("<"); dump(P, vt->name, depth + 1);
      for (i = 0; i < vt->ivlen; i++) {
        oputs(" ");
        if (PN_IS_TUPLE(vt->ivars)) { dump(P, PN_TUPLE_AT(vt->ivars, i), depth + 1); oputs("="); }
        dump(P, ((struct PNObject *)v)->ivars[i], depth + 1);
      }
      oputs(">"); return;
    }
    snprintf(b, 64, "<type %x>", (unsigned)t); oputs(b);
  }
}

/* ---- GC injection: potion_garbagecollect is wrapped at link time; while active, the
   heap is kept "dirty" so that every allocation asks for a collection. ---- */
void __real_potion_garbagecollect(Potion *, int, int);
static volatile int gc_active; static int gc_kind, gc_parse; static unsigned long gc_k, gc_k2, gc_n; static int gc_f, gc_f2;
static int heapstat;
static long peak;   /* the most heap held at once, birth and old regions */
static void see_peak(struct PNMemory *M) {
  long n = ((char *)M->birth_hi - (char *)M->birth_lo) + ((char *)M->old_hi - (char *)M->old_lo);
  if (n > peak) peak = n;
}

void __wrap_potion_garbagecollect(Potion *P, int sz, int full) {
  struct PNMemory *M = P->mem;
  if (heapstat && !gc_active) {
    see_peak(M); __real_potion_garbagecollect(P, sz, full); see_peak(M); return;
  }
  if (!gc_active) { __real_potion_garbagecollect(P, sz, full); return; }
  gc_n++;
  int need = (char *)M->birth_cur + sz + 64 >= (char *)M->birth_storeptr - 64;
  int here = gc_kind == 'a' || gc_kind == 'A' || ((gc_kind == 'n' || gc_kind == 'M' || gc_kind == 'p') && gc_k == gc_n)
    || (gc_kind == 'p' && gc_k2 == gc_n);
  int major = gc_kind == 'M' || gc_kind == 'A' || (gc_kind == 'p' && (gc_k == gc_n ? gc_f : gc_f2));
  if (need || here)
    __real_potion_garbagecollect(P, sz, full || (here && major));
  M->dirty = 1;
}

static void gc_start(Potion *P, int gck, unsigned long k) {
  gc_kind = gck; gc_k = k; gc_n = 0;
  if (gck == 'p') { /* the k-th of all pairs of allocations, each minor or major */
    unsigned long t = (k - 1) / 4, j = 1;
    while (j * (j + 1) / 2 <= t) j++;
    gc_k = t - j * (j - 1) / 2 + 1; gc_k2 = j + 1;
    gc_f = (k - 1) & 1; gc_f2 = (k - 1) >> 1 & 1;
  }
  if (gck) { gc_active = 1; P->mem->dirty = 1; }
}

static void put_heap(Potion *P), scrub(void);
static volatile PN keep;
__attribute__((noinline)) static void run_code(Potion *P, PN code, int jit, int gck, unsigned long k) {
  PN v;
  if (!gc_parse) gc_start(P, gck, k);
  if (jit) {
    PN cl = potion_closure_new(P, (PN_F)potion_jit_proto(P, code), PN_NIL, 1);
    PN_CLOSURE(cl)->data[0] = code;
    v = PN_PROTO(code)->jit(P, cl, P->lobby);
  } else
    v = potion_vm(P, code, P->lobby, PN_NIL, 0, NULL);
  gc_active = 0; P->mem->dirty = 0;
  dump(P, v, 0);
  if (heapstat) { scrub(); put_heap(P); keep = v; }   /* with the value of the program still held */
}

/* ---- with -H the bytes live after the run (collected, and malloc'ed since the start) are
   part of the result ---- */
#include <malloc.h>
static size_t malloc0;
static long vm0;
static long vmsize(void) {      /* address space in use */
  char b[64] = ""; int fd = open("/proc/self/statm", O_RDONLY); long n;
  if (fd < 0 || read(fd, b, 63) <= 0) _exit(99);
  close(fd);
  n = atol(b) * 4096;
  return n;
}
__attribute__((noinline)) static void scrub(void) {     /* no stale pointers below us */
  volatile char b[65536]; unsigned i;
  for (i = 0; i < sizeof b; i++) b[i] = 0;
}
__attribute__((noinline)) static void put_heap(Potion *P) {
  char b[64]; int i, n = 0; struct PNMemory *M = P->mem;
  for (i = 0; i < 2; i++) __real_potion_garbagecollect(P, 0, 1);
  snprintf(b, 64, "#%ld#%ld#%ld#%ld", (long)((char *)M->old_cur - (char *)M->old_lo) + (long)((char *)M->birth_cur - (char *)M->birth_lo),
           (long)(mallinfo2().uordblks - malloc0), peak, vmsize() - vm0);
  oputs(b);
}

/* No address is used twice, and regions do not touch: what is left on the stack from before
   cannot by accident point into a region of later, and running off a region faults. */
static int reuse = -1;     /* -u N: as the system maps, with the stack N * 16 bytes further down */
static uintptr_t nextmap = 0x200000000000, nextexec = 0x100000000000;
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
  if (reuse >= 0 || addr || !(flags & MAP_ANONYMOUS) || !(flags & MAP_PRIVATE))
    return __real_mmap(addr, len, prot, flags, fd, off);
  /* there are many pages of code: together they are one mapping */
  uintptr_t *next = prot & PROT_EXEC ? &nextexec : &nextmap;
  void *m = __real_mmap((void *)*next, len, prot, flags | MAP_FIXED_NOREPLACE, fd, off);
  *next += ((len + 4095) & ~4095UL) + (prot & PROT_EXEC ? 0 : 4096);
  if (nextmap > 0x500000000000) nextmap = 0x200000000000;
  return m == MAP_FAILED && errno == EEXIST ? __real_mmap(addr, len, prot, flags, fd, off) : m;
}

static volatile int ran;
__attribute__((noinline)) static void exec_one(const char *prog, size_t plen, char mode, unsigned long seed,
                                               int gck, unsigned long k) {
  /* the caller's frame next to the base of the stack: nothing may change it */
  volatile PN frame[12]; int fi;
  void *sp = (void *)&frame[11];
  for (fi = 0; fi < 12; fi++) frame[fi] = 0x571FF + 16 * fi;
  Potion *P; PN code, buf; int fromsrc = 1;
  outlen = 0; ran = 0;
  if (heapstat) malloc0 = mallinfo2().uordblks, peak = 0, vm0 = vmsize();
  init_genrand(seed);
  P = potion_create(sp);
  init_libs(P);
  P->flags = (Potion_Flags)((mode == 'J' || mode == 'D') ? EXEC_JIT : EXEC_VM);
  if (gc_parse) gc_start(P, gck, k);
  buf = potion_byte_str2(P, prog, plen);
  code = potion_parse(P, buf, "case");
  if (!code || PN_TYPE(code) != PN_TSOURCE) { gc_active = 0; oputs("!SYNTAX"); potion_destroy(P); return; }
  code = potion_send(code, PN_compile, potion_str(P, "case"), PN_NIL);
  if (mode == 'C' || mode == 'D') {
    PN b = potion_source_dumpbc(P, 0, code, PN_NIL);
    if (!b || (PN_TYPE(b) != PN_TBYTES && PN_TYPE(b) != PN_TSTRING)) { gc_active = 0; oputs("!DUMP"); return; }
    size_t n = PN_STR_LEN(b);
    char *copy = malloc(n + 1);
    memcpy(copy, PN_STR_PTR(b), n); copy[n] = 0;
    gc_active = 0;
    potion_destroy(P);
    init_genrand(seed + 77);
    P = potion_create(sp);
    init_libs(P);
    if (gc_parse && gck) { gc_active = 1; P->mem->dirty = 1; }
    P->flags = (Potion_Flags)(mode == 'D' ? EXEC_JIT : EXEC_VM);
    PN lb = potion_bytes(P, n);
    memcpy(PN_STR_PTR(lb), copy, n); PN_STR_PTR(lb)[n] = 0;
    free(copy);
    code = potion_source_load(P, PN_NIL, lb);
    fromsrc = 0;
  }
  if (!PN_IS_PROTO(code)) { gc_active = 0; oputs(fromsrc ? "!COMPILE" : "!LOAD"); potion_destroy(P); return; }
  ran = 1;
  run_code(P, code, mode == 'J' || mode == 'D', gck, k);
  for (fi = 0; fi < 12; fi++)
    if (frame[fi] != 0x571FF + 16 * fi) { oputs("!FRAME"); break; }
  potion_destroy(P);
}

/* ---- with -w every execution runs in an empty private directory, whose files at the end
   are part of the result ---- */
static int workdir, fd_lo;
#include <dirent.h>
#include <ftw.h>
static int wrm(const char *p, const struct stat *st, int flag, struct FTW *f) {
  return flag == FTW_DP ? rmdir(p) : unlink(p);
}
static void wclean(void) {
  DIR *d = opendir("."); struct dirent *e;
  if (!d) _exit(99);
  while ((e = readdir(d)))
    if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
      if (unlink(e->d_name) && rmdir(e->d_name)) nftw(e->d_name, wrm, 16, FTW_DEPTH | FTW_PHYS);
  closedir(d);
}
/* a case may start with files: {01 name 02 content} 03 program. What is put in NAME.pnb is
   compiled and dumped, for NAME.so it is the path of a file to copy. Of the files left then only
   those named log* are part of the result. */
static int fixed_files;
__attribute__((noinline)) static void put_pnb(const char *path, const char *src, size_t n) {
  POTION_INIT_STACK(sp);
  Potion *P = potion_create(sp); FILE *f;
  PN code = potion_send(potion_parse(P, potion_byte_str2(P, src, n), "case"), PN_compile, potion_str(P, "case"), PN_NIL);
  PN b = potion_source_dumpbc(P, 0, code, PN_NIL);
  if (!(f = fopen(path, "w")) || !fwrite(PN_STR_PTR(b), PN_STR_LEN(b), 1, f) || fclose(f)) _exit(97);
  potion_destroy(P);
}
static void put_files(const char **pp, uint32_t *pl) {
  const char *p = *pp, *e = p + *pl;
  fixed_files = *pl && (*p == 1 || *p == 3);
  if (!fixed_files) return;
  while (p < e && *p == 1) {
    char name[256], *q; const char *m = memchr(p, 2, e - p), *c; FILE *f;
    if (!m || m - p > 250) _exit(97);
    memcpy(name, p + 1, m - p - 1); name[m - p - 1] = 0;
    for (c = ++m; c < e && *c != 1 && *c != 3; c++);
    for (q = name; (q = strchr(q, '/')); *q++ = '/') { *q = 0; mkdir(name, 0700); }
    size_t l = strlen(name), n = c - m;
    if (l && name[l - 1] == '/') ;
    else if (l > 4 && !strcmp(name + l - 4, ".pnb")) put_pnb(name, m, n);
    else {
      char buf[4096]; size_t k;
      if (!(f = fopen(name, "w"))) _exit(97);
      if (l > 3 && !strcmp(name + l - 3, ".so")) {
        snprintf(buf, 4096, "%.*s", (int)n, m);
        FILE *g = fopen(buf, "r"); if (!g) _exit(97);
        while ((k = fread(buf, 1, 4096, g)) > 0) fwrite(buf, 1, k, f);
        fclose(g);
      } else if (n) fwrite(m, n, 1, f);
      if (fclose(f)) _exit(97);
    }
    p = c;
  }
  p++;
  *pl = e - p; *pp = p;
}
static void wbegin(void) { wclean(); }
static void wend(void) {
  DIR *d; struct dirent *e; char *names[64]; int n = 0, i;
  fflush(NULL);
  if (!(d = opendir("."))) _exit(99);
  while ((e = readdir(d)) && n < 64)
    if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && (!fixed_files || !strncmp(e->d_name, "log", 3)))
      names[n++] = strdup(e->d_name);
  closedir(d);
  qsort(names, n, sizeof(char *), cmpstr);
  for (i = 0; i < n; i++) {
    struct stat st; int f = open(names[i], O_RDONLY | O_NOFOLLOW);
    oputs("&"); oputs(names[i]); oputs("=");
    if (!strncmp(names[i], "db", 2)) oputs("-");
    else if (f >= 0 && !fstat(f, &st) && S_ISREG(st.st_mode)) {
      char *t = malloc(st.st_size + 1); ssize_t r = pread(f, t, st.st_size, 0);
      quote(t, r > 0 ? r : 0); free(t);
    } else oputs("?");
    if (f >= 0) close(f);
    free(names[i]);
  }
  close_range(fd_lo, ~0U, 0);
}

struct shared {
  volatile uint64_t ci, mi, si, gi, k; /* position of the execution in progress */
  volatile uint64_t nk;               /* allocation points of (ci,si,mi) */
  volatile int inrun;
  volatile uint64_t execs, mism, gcpoints;
  volatile uint32_t reflen; /* reference result of the current case */
  char ref[OUTMAX + 64];
};
static struct shared *S;
static uint64_t nsched(char gk) {
  return gk == 'n' || gk == 'M' ? S->nk : gk == 'p' ? S->nk * (S->nk - 1) / 2 * 4 : 0;
}

int main(int argc, char **argv) {
  const char *modes = "VJ", *gcs = "", *seeds = "1";
  /* the same address space layout in every run, where that can be had */
  int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("VP_NORAND")) {
    setenv("VP_NORAND", "1", 1);
    if (personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  int all = 0, maxto = 3, cpu = 5, chunk = 300, verbose = 0, c;
  unsigned long maxk = 100000;
  while ((c = getopt(argc, argv, "m:s:t:g:G:c:x:avpwHu:")) != -1) switch (c) {
    case 'm': modes = optarg; break;
    case 's': seeds = optarg; break;
    case 't': cpu = atoi(optarg); break;
    case 'g': gcs = optarg; break;
    case 'G': maxk = atol(optarg); break;
    case 'c': chunk = atoi(optarg); break;
    case 'x': maxto = atoi(optarg); break;
    case 'a': all = 1; break;
    case 'v': verbose = 1; break;
    case 'H': heapstat = 1; break;
    case 'u': reuse = atoi(optarg); break;
    case 'w': workdir = 1; break;
    case 'p': gc_parse = 1; break; /* collections while parsing and compiling, too */
    default: return 3;
  }
  if (optind >= argc) return 3;
  unsigned long sv[32]; int ns = 0; char *sd = strdup(seeds), *q;
  for (q = strtok(sd, ","); q && ns < 32; q = strtok(NULL, ",")) sv[ns++] = strtoul(q, 0, 10);
  int fd = open(argv[optind], O_RDONLY); struct stat st;
  if (fd < 0 || fstat(fd, &st)) { perror("case file"); return 3; }
  size_t fl = st.st_size; char *base = fl ? mmap(0, fl, PROT_READ, MAP_PRIVATE, fd, 0) : 0;
  size_t ncase = 0, cap = 1024, off = 0;
  size_t *offs = malloc(cap * sizeof(size_t));
  while (off + 8 <= fl) {
    uint32_t pl, el; memcpy(&pl, base + off, 4); memcpy(&el, base + off + 4, 4);
    if (ncase == cap) { cap *= 2; offs = realloc(offs, cap * sizeof(size_t)); }
    offs[ncase++] = off; off += 8 + pl + (el == 0xffffffffu ? 0 : el);
  }
  S = mmap(0, sizeof(*S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)S, 0, 128);
  int nm = strlen(modes), ng = strlen(gcs);
  int res = dup(1); FILE *rf = fdopen(res, "w");
  int so = memfd_create("out", 0), nul = open("/dev/null", O_RDWR);
  fcntl(res, F_SETFD, FD_CLOEXEC);
  signal(SIGPIPE, SIG_IGN);
  char wd[64] = "";
  if (workdir) {
    snprintf(wd, 64, "w%d", (int)getpid());
    if (mkdir(wd, 0700)) { perror("work directory"); return 3; }
  }
  uint64_t done = 0, timeouts = 0;
  /* position order: case > mode > seed > gc schedule (0 = none, 1.. = gcs) > k */
  while (S->ci < ncase) {
    S->inrun = 0;
    pid_t pid = fork();
    if (pid == 0) {
      int left = chunk;
      dup2(so, 1); dup2(nul, 0); if (!verbose) dup2(nul, 2);
      struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
      rl.rlim_cur = rl.rlim_max = 3UL << 30; setrlimit(RLIMIT_AS, &rl);
      rl.rlim_cur = rl.rlim_max = 64UL << 20; setrlimit(RLIMIT_FSIZE, &rl);
      if (workdir) {
        if (chdir(wd)) _exit(98);
        rl.rlim_cur = rl.rlim_max = 400; setrlimit(RLIMIT_NOFILE, &rl);
        fd_lo = dup(0); close(fd_lo);
        if (fd_lo <= res) fd_lo = res + 1;
        if (fd_lo <= nul) fd_lo = nul + 1;
      }
      while (S->ci < ncase) {
        const char *p = base + offs[S->ci]; uint32_t pl, el;
        memcpy(&pl, p, 4); memcpy(&el, p + 4, 4); p += 8;
        if (left-- <= 0) _exit(77);
        struct itimerval it = { {0, 0}, { cpu, 0 } };
        setitimer(ITIMER_PROF, &it, 0); alarm(cpu * 30);
        int first = S->mi == 0 && S->si == 0 && S->gi == 0;
        char gk = S->gi == 0 ? (ng ? 'c' : 0) : gcs[S->gi - 1];
        S->inrun = 1;
        if (ftruncate(1, 0)) {}
        lseek(1, 0, SEEK_SET);
        const char *xp = p; uint32_t xl = pl;
        if (workdir) { wbegin(); put_files(&xp, &xl); }
        volatile char *lower = alloca(reuse > 0 ? 16 * reuse : 16); lower[0] = 0;
        exec_one(xp, xl, modes[S->mi], sv[S->si], gk, S->k);
        fflush(stdout);
        off_t e = lseek(1, 0, SEEK_CUR);
        if (e > 0) {
          char *t = malloc(e); ssize_t n = pread(1, t, e, 0);
          oputs("|"); if (n > 0) oput(t, n); free(t);
        }
        if (workdir) wend();
        if (S->gi == 0) S->nk = ran ? gc_n : 0;
        if (S->gi) S->gcpoints++;
        S->inrun = 0;
        S->execs++;
        int bad = 0;
        if (el != 0xffffffffu) bad = outlen != el || memcmp(out, p + pl, el);
        else if (first) { S->reflen = outlen; memcpy(S->ref, out, outlen); }
        else bad = outlen != S->reflen || memcmp(out, S->ref, outlen);
        if (bad) S->mism++;
        if (bad || all || (el == 0xffffffffu && first && all)) {
          size_t i;
          fprintf(rf, "R %lu %c %lu %c %lu ", (unsigned long)S->ci, modes[S->mi], sv[S->si],
                  S->gi ? gk : '-', (unsigned long)S->k);
          for (i = 0; i < outlen; i++) fprintf(rf, "%02x", (unsigned char)out[i]);
          fputs("\n", rf); fflush(rf);
        }
        /* advance */
        int adv = 0;
        if (S->gi && S->k < nsched(gk) && S->k < maxk) S->k++;
        else {
          S->k = 1; S->gi++;
          if (S->gi > (uint64_t)ng || S->nk == 0) { S->gi = 0; S->k = 0; adv = 1; }
        }
        if (adv) { if (++S->si == (uint64_t)ns) { S->si = 0; if (++S->mi == (uint64_t)nm) { S->mi = 0; S->ci++; } } }
      }
      _exit(0);
    }
    int wst;
    while (waitpid(pid, &wst, 0) < 0 && errno == EINTR);
    if (WIFEXITED(wst) && (WEXITSTATUS(wst) == 77 || WEXITSTATUS(wst) == 0) && !S->inrun) continue;
    /* the execution in progress ended the process */
    char what[64];
    if (WIFSIGNALED(wst)) {
      int sg = WTERMSIG(wst);
      if (sg == SIGPROF || sg == SIGALRM) { strcpy(what, "!TIMEOUT"); timeouts++; }
      else snprintf(what, 64, "!SIG%d", sg);
    } else snprintf(what, 64, "!EXIT%d", WEXITSTATUS(wst));
    {
      const char *p = base + offs[S->ci]; uint32_t pl, el;
      memcpy(&pl, p, 4); memcpy(&el, p + 4, 4); p += 8;
      int first = S->mi == 0 && S->si == 0 && S->gi == 0, bad;
      char gk = S->gi == 0 ? '-' : gcs[S->gi - 1];
      S->execs++; if (S->gi) S->gcpoints++; else S->nk = 0;
      if (el != 0xffffffffu) bad = strlen(what) != el || memcmp(what, p + pl, el);
      else if (first) { S->reflen = strlen(what); strcpy(S->ref, what); bad = 0; }
      else bad = S->reflen != strlen(what) || memcmp(what, S->ref, S->reflen);
      if (bad) S->mism++;
      if (bad || all) {
        size_t i;
        fprintf(rf, "R %lu %c %lu %c %lu ", (unsigned long)S->ci, modes[S->mi], sv[S->si], gk, (unsigned long)S->k);
        for (i = 0; i < strlen(what); i++) fprintf(rf, "%02x", (unsigned char)what[i]);
        fputs("\n", rf); fflush(rf);
      }
      int adv = 0;
      if (S->gi && S->k < nsched(gk) && S->k < maxk) S->k++;
      else {
        S->k = 1; S->gi++;
        if (S->gi > (uint64_t)ng || S->nk == 0) { S->gi = 0; S->k = 0; adv = 1; }
      }
      if (adv) { if (++S->si == (uint64_t)ns) { S->si = 0; if (++S->mi == (uint64_t)nm) { S->mi = 0; S->ci++; } } }
    }
    done++;
    if (timeouts >= maxto) break; /* enough to report */
  }
  if (workdir && !chdir(wd)) { wclean(); if (!chdir("..")) rmdir(wd); }
  fprintf(rf, "S execs=%lu mismatches=%lu gcpoints=%lu timeouts=%lu\n", (unsigned long)S->execs, (unsigned long)S->mism,
          (unsigned long)S->gcpoints, (unsigned long)timeouts);
  fflush(rf);
  return 0;
}
