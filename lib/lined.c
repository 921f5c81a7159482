// The line editor of the prompt, run key by key on a terminal of this program's own.
// lined FILE: for each line of FILE
//   MODE COLS CHUNK READS PROMPT HISTORY KEYS      (hex; "-": empty; HISTORY "!": no file)
// MODE t: a terminal, KEYS are separated by '.'; d: a dumb terminal; p: not a terminal.
// CHUNK 0: a read gets at most the rest of a key, 1: one byte, 2: all there is.
// Prints: what the terminal shows when each key is waited for, what each readline gave, and history.txt.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <termios.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <stdarg.h>
#include "potion.h"
#include "internal.h"

void Potion_Init_readline(Potion *);

static int mode, cols, chunk, reads;
static unsigned char keys[1 << 20], out[1 << 16];
static unsigned char *edge;  // edge[i]: a key begins at i
static int nkeys, kpos, eofs, seen;
static struct termios tio, tio0;
static FILE *res;

// ---- the terminal: one row and its cursor
static unsigned char row[512];
static int col, over, nl, home, esc, np, par;
static void put(unsigned char c) {
  if (esc == 0) {
    if (c == 27) esc = 1;
    else if (c == '\n') { nl++; memset(row, ' ', sizeof row); col = 0; }
    else if (c == '\r') col = 0;
    else if (c == 7) ;
    else if (c == 8) { if (col) col--; }
    else if (col >= cols) over++; // it would go to the next row
    else row[col++] = c;
  } else if (esc == 1) { esc = c == '[' ? 2 : 0; np = par = 0; if (!esc) over += 1000; }
  else if (c >= '0' && c <= '9') { par = par * 10 + c - '0'; np = 1; }
  else {
    esc = 0;
    switch (c) {
    case 'G': col = par ? par - 1 : 0; break;
    case 'C': col += par ? par : 1; break;
    case 'D': col -= par ? par : 1; break;
    case 'K': if (par == 0) { int i = col < cols ? col : cols; memset(row + i, ' ', sizeof row - i); } else if (par == 2) memset(row, ' ', sizeof row); break;
    case 'H': col = 0; home |= 1; break;
    case 'J': if (par == 2) { memset(row, ' ', sizeof row); home |= 2; } break;
    default: over += 1000;
    }
    if (col < 0) col = 0;
    if (col > cols - 1) col = cols - 1;
  }
}

static off_t flushed;
static void drain(void) { // what went to stdout the ordinary way
  char b[4096]; ssize_t n; off_t end;
  fflush(stdout);
  end = lseek(1, 0, SEEK_CUR);
  while (flushed < end && (n = pread(1, b, sizeof b, flushed)) > 0) {
    for (ssize_t i = 0; i < n; i++) put(b[i]);
    flushed += n;
  }
}

static void show(void) {
  int n = cols;
  drain();
  while (n && row[n - 1] == ' ') n--;
  fputc('[', res);
  for (int i = 0; i < n; i++) fprintf(res, row[i] < 33 || row[i] > 126 || row[i] == '%' || row[i] == ']' ? "%%%02x" : "%c", row[i]);
  fprintf(res, "]%d", col);
  if (over) fprintf(res, "!over%d", over);
  if (home) fprintf(res, home == 3 ? "h" : "!home%d", home);
  if (tio.c_lflag & (ECHO | ICANON)) fprintf(res, "!cooked");
  home = 0;
}

ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *buf, size_t n) {
  if (fd != 0 || mode != 't') return __real_read(fd, buf, n);
  if (n == 0) return 0;
  if (kpos == nkeys) {
    if (seen == kpos && chunk != 2) { show(); seen++; }
    if (eofs++ > 200) { fprintf(res, "HANG\n"); fflush(res); _exit(0); }
    return 0;
  }
  if (edge[kpos] && seen == kpos) { if (chunk != 2) show(); }
  size_t k = 1;
  if (chunk == 0) while (k < n && kpos + k < nkeys && !edge[kpos + k]) k++;
  if (chunk == 2) { k = n; if (k > nkeys - kpos) k = nkeys - kpos; }
  memcpy(buf, keys + kpos, k);
  kpos += k;
  seen = kpos;
  return k;
}
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *buf, size_t n) {
  if (fd < 0 || fd > 2 || mode != 't') return __real_write(fd, buf, n);
  drain();
  for (size_t i = 0; i < n; i++) put(((unsigned char *)buf)[i]);
  return n;
}
int __wrap_isatty(int fd) { return mode != 'p'; }
int __wrap_tcgetattr(int fd, struct termios *t) { *t = tio; return 0; }
int __wrap_tcsetattr(int fd, int a, const struct termios *t) { tio = *t; return 0; }
int __wrap_ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); struct winsize *w = va_arg(ap, struct winsize *); va_end(ap);
  static int asked; extern int wcols;
  if (req != TIOCGWINSZ) { errno = ENOTTY; return -1; }
  if (wcols < 0) { errno = ENOTTY; return -1; }
  memset(w, 0, sizeof *w); w->ws_col = wcols; w->ws_row = 24;
  return 0;
}
int wcols;

static int unhex(const char *s, unsigned char *o) {
  int n = 0;
  unsigned char *e = edge;
  if (*s == '-' || *s == '!') return 0;
  e[0] = 1;
  while (*s) {
    if (*s == '.') { e[n] = 1; s++; continue; }
    if (*s == 'x') { // xCOUNT:HH
      int c, h; sscanf(s, "x%d:%2x", &c, &h); while (c--) { o[n++] = h; e[n] = 0; }
      s = strchr(s, ':') + 3; continue;
    }
    int h; sscanf(s, "%2x", &h); o[n++] = h; s += 2; e[n] = 0;
  }
  return n;
}

static void hex(const unsigned char *s, long n) { // runs of a byte are shortened
  for (long i = 0, j; i < n; i = j) {
    for (j = i; j < n && s[j] == s[i]; j++) ;
    if (j - i > 8) fprintf(res, "x%ld:%02x", j - i, s[i]);
    else for (long k = i; k < j; k++) fprintf(res, "%02x", s[k]);
  }
}

int main(int argc, char **argv) {
  POTION_INIT_STACK(sp);
  static char line[1 << 22], m[8], pr[1 << 16], hi[1 << 20], ke[1 << 20];
  static unsigned char buf[1 << 20], prompt[1 << 14];
  FILE *f = fopen(argv[1], "r");
  Potion *P = potion_create(sp);
  char tmp[64], tin[64];
  edge = calloc(1, 1 << 20);
  res = fdopen(dup(1), "w");
  Potion_Init_readline(P);
  sprintf(tmp, "out.%d", getpid());
  sprintf(tin, "in.%d", getpid());
  while (fgets(line, sizeof line, f)) {
    if (sscanf(line, "%7s %d %d %d %s %s %s", m, &wcols, &chunk, &reads, pr, hi, ke) != 7) { fprintf(res, "BAD\n"); continue; }
    mode = m[0];
    cols = wcols > 0 ? wcols : 80;
    fflush(res);
    unlink("history.txt");
    if (hi[0] != '!') {
      int n = unhex(hi, buf); FILE *h = fopen("history.txt", "w"); fwrite(buf, 1, n, h); fclose(h);
    }
    pid_t p = fork();
    if (p == 0) {
      alarm(20);
      prompt[unhex(pr, prompt)] = 0;
      nkeys = unhex(ke, keys);
      edge[nkeys] = 1;
      memset(row, ' ', sizeof row);
      tio.c_lflag = ECHO | ICANON | ISIG | IEXTEN; tio.c_iflag = ICRNL | IXON; tio.c_oflag = OPOST; tio0 = tio;
      setenv("TERM", mode == 'd' ? "dumb" : "xterm", 1);
      int o = open(tmp, O_RDWR | O_CREAT | O_TRUNC, 0600);
      dup2(o, 1); close(o);
      if (mode != 't') {
        o = open(tin, O_RDWR | O_CREAT | O_TRUNC, 0600);
        __real_write(o, keys, nkeys); lseek(o, 0, SEEK_SET);
        dup2(o, 0); close(o);
      }
      for (int i = 0; i < reads; i++) {
        PN r = potion_send(P->lobby, potion_str(P, "readline"), potion_str(P, (char *)prompt));
        drain();
        fprintf(res, "=");
        if (r == PN_NIL) fprintf(res, "nil");
        else if (PN_IS_STR(r)) hex((unsigned char *)PN_STR_PTR(r), PN_STR_LEN(r));
        else fprintf(res, "?");
        if (mode == 't' && nl != i + 1) fprintf(res, "!lines%d", nl);
        if (memcmp(&tio, &tio0, sizeof tio)) fprintf(res, "!raw");
        fprintf(res, ",");
      }
      FILE *h = fopen("history.txt", "r");
      fprintf(res, "#");
      if (h) { int n = fread(buf, 1, sizeof buf, h); hex(buf, n); fclose(h); } else fprintf(res, "!");
      fprintf(res, "\n");
      fflush(res);
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (st) fprintf(res, "~died%d\n", st);
  }
  fflush(res);
  unlink(tmp); unlink(tin); unlink("history.txt");
  _exit(0);
}
