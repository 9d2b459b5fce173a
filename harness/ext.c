/* The environment of executed programs: every call is written to stdout. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static int buffer[4] = {1, 2, 3, 4};
static const char *in;

static int left(void) {
  if (!in) {
    in = getenv("VK_IN");
    if (!in) in = "";
  }
  return *in != 0;
}
static int next(void) {
  if (!left()) return 0;
  char *e;
  long v = strtol(in, &e, 10);
  in = *e == ',' ? e + 1 : e;
  return (int)v;
}
static void done(void) { printf("\n"); fflush(stdout); }
static void put(const char *s) { if (write(1, s, strlen(s)) < 0) abort(); }

int getint(void) { printf("getint"); done(); return next(); }
void putint(int x) { printf("putint %d", x); done(); }
int vkch(int x) { printf("vkch %d", x); done(); return next(); }
int vk3(int a, int b, int c) { printf("vk3 %d %d %d", a, b, c); done(); return next(); }
void vknop(void) { printf("vknop"); done(); }
int vkmany(int a, int b, int c, int d, int e, int f, int g, int h, int i) {
  printf("vkmany %d %d %d %d %d %d %d %d %d", a, b, c, d, e, f, g, h, i);
  done();
  return next();
}
int *vkbuf(void) { printf("vkbuf"); done(); return buffer; }
int (*vkarr(void))[4] { printf("vkarr"); done(); return &buffer; }
void vkpeek(int *p) { printf("vkpeek %d", *p); done(); }
void vkfill(int *p, int v) { printf("vkfill %d", v); done(); *p = v; }
#ifdef VK_CHARS
int putchar(int x) {
  char b[40];
  snprintf(b, sizeof b, "putchar %d\n", x);
  put(b);
  return x;
}
int getchar(void) {
  put("getchar\n");
  return left() ? next() : -1;
}
#endif
