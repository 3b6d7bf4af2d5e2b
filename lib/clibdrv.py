"""The program of check L08: it takes numbers from a script (next), performs library calls and records (rec) what it sees.
Everything it records is written at once; harness.c keeps its own file descriptors."""

HARNESS = r'''
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
static int *scr, len, at, lg = -1;
static void start(void) {
  int f = open("SCRIPT", O_RDONLY);
  len = lseek(f, 0, SEEK_END) / 4;
  scr = malloc(len * 4 + 4);
  pread(f, scr, len * 4, 0);
  close(f);
  lg = open("LOG", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
}
int next(void) { if (lg < 0) start(); return at < len ? scr[at++] : -1; }
void rec(int x) { if (lg < 0) start(); write(lg, &x, 4); }
'''

PROGRAM = r'''
#include <stdio.hmm>
#include <stdlib.hmm>
#include <string.hmm>
#include <ctype.hmm>
public int next();
public void rec(int x);

struct Pair { int a; char b; Pair next; };

char[][] buf = {array(120), array(120), array(120)};
char[] text = array(400);
char[] name = array(400);
char[] place = array(400);
FILE[] st = array(8);
char[][] held = array(8);
int[] two = array(2);
int[][] ia = array(8);
char[][] ca = array(8);
boolean[][] ba = array(8);
void[][][] ra = array(8);
Pair[] pa = array(8);

void get(char[] b) {
  int n = next();
  for (int i = 0; i < n; i = i + 1) b[i] = chr(next());
  b[n] = '\0';
}

void show(char[] s) {
  int n = 0;
  while (s[n] != '\0') n = n + 1;
  rec(n);
  for (int i = 0; i < n; i = i + 1) rec(ord(s[i]));
}

void maybe(char[] s) {
  if (s == null) { rec(0 - 1); return; }
  show(s);
}

void flag(boolean b) { if (b == true) rec(1); else if (b == false) rec(0); else rec(2); }

void table(char[][] t) {
  int n = 0;
  while (t[n] != null) n = n + 1;
  rec(n);
  for (int i = 0; i < n; i = i + 1) show(t[i]);
}

int which(char[] d) {
  for (int i = 0; i < 3; i = i + 1) if (buf[i] == d) return i;
  return 0 - 1;
}

void strings(int f) {
  if (f == 0) {
    int k = next();
    int n = next();
    for (int i = 0; i < n; i = i + 1) buf[k][i] = chr(next());
    return;
  }
  int p = next();
  int q = next();
  int n = next();
  if (f == 1) rec(which(strCpy(buf[p], buf[q])));
  else if (f == 2) rec(which(strNcpy(buf[p], buf[q], n)));
  else if (f == 3) rec(which(strCat(buf[p], buf[q])));
  else if (f == 4) rec(which(strNcat(buf[p], buf[q], n)));
  else if (f == 5) rec(strCmp(buf[p], buf[q]));
  else if (f == 6) rec(strNcmp(buf[p], buf[q], n));
  else if (f == 7) rec(strLen(buf[p]));
  else if (f == 8) rec(strChr(buf[p], chr(n)));
  else if (f == 9) rec(strRchr(buf[p], chr(n)));
  else if (f == 10) rec(strStr(buf[p], buf[q]));
  else if (f == 11) rec(atoi(buf[p]));
  else if (f == 12) rec(htoi(buf[p]));
  else if (f == 13) flag(isAlpha(chr(n)));
  else if (f == 14) flag(isDigit(chr(n)));
  else if (f == 15) flag(isAlnum(chr(n)));
  else if (f == 16) flag(isPrint(chr(n)));
  else if (f == 17) flag(isLower(chr(n)));
  else if (f == 18) flag(isUpper(chr(n)));
  else if (f == 19) flag(isXdigit(chr(n)));
  else if (f == 20) flag(isSpace(chr(n)));
  else if (f == 21) rec(ord(toLower(chr(n))));
  else if (f == 22) rec(ord(toUpper(chr(n))));
  if (f < 5) {
    n = next();
    for (int i = 0; i < n; i = i + 1) rec(ord(buf[p][i]));
  }
}

void files(int f) {
  int s = next();
  if (f == 30) {
    get(name);
    get(text);
    st[s] = fopen(name, text);
    flag(st[s] != null);
  } else if (f == 31) flag(fclose(st[s]));
  else if (f == 32) flag(fputc(chr(next()), st[s]));
  else if (f == 33) { get(text); flag(fputs(text, st[s])); }
  else if (f == 34) rec(ord(fgetc(st[s])));
  else if (f == 35) {
    int n = next();
    for (int i = 0; i < 90; i = i + 1) text[i] = 'U';
    char[] r = fgets(text, n, st[s]);
    if (r == null) rec(0);
    else if (r == text) rec(1);
    else rec(2);
    rec(90);
    for (int i = 0; i < 90; i = i + 1) rec(ord(text[i]));
  } else if (f == 36) flag(feof(st[s]));
  else if (f == 37) flag(ferror(st[s]));
  else if (f == 38) flag(fflush(st[s]));
  else if (f == 39) { int h = next(); int l = next(); flag(fseek(st[s], h, l)); }
  else if (f == 40) { get(name); two[0] = 77; two[1] = 77; flag(fsize(name, two)); rec(two[0]); rec(two[1]); }
  else if (f == 41) flag(putchar(chr(next())));
  else if (f == 42) { get(text); flag(puts(text)); }
  else if (f == 43) rec(ord(getchar()));
  else if (f == 44) { get(text); rec(fprintf(st[s], "%s", text)); }
  else if (f == 45) { get(text); rec(printf("%s", text)); }
  else if (f == 46) { get(text); perror(text); rec(0); }
}

void env(int f) {
  if (f == 50) { get(name); maybe(getEnv(name)); }
  else if (f == 51) { int k = next(); get(name); held[k] = getEnv(name); maybe(held[k]); }
  else if (f == 52) maybe(held[next()]);
  else if (f == 53) { get(name); get(text); flag(setEnv(name, text, next() != 0)); }
  else if (f == 54) { get(text); flag(putEnv(text)); }
  else if (f == 55) { get(name); flag(unsetEnv(name)); }
  else if (f == 56) maybe(getWd());
  else if (f == 57) {
    get(name);
    int n = next();
    for (int i = 0; i < 400; i = i + 1) place[i] = 'U';
    flag(absPath(name, place, n));
    for (int i = 0; i < 400; i = i + 1) rec(ord(place[i]));
  } else if (f == 58) { get(name); flag(chDir(name)); }
  else if (f == 59) { int k = next(); get(name); held[k] = getEnv(name); get(text); flag(setEnv(text, held[k], true)); }
  table(environ);
}

void spoil() {
  for (int i = 0; i < 400; i = i + 1) { text[i] = '#'; name[i] = '#'; }
}

int base(int k) { return k * 1000; }

void mem(int f) {
  int k = next();
  int n = 0;
  if (f == 60) ia[k] = iMalloc(next() + next());
  else if (f == 61) ca[k] = cMalloc(next() + next());
  else if (f == 62) ba[k] = bMalloc(next() + next());
  else if (f == 63) ra[k] = rMalloc(next() + next());
  else if (f == 64) pa[k] = malloc(sizeof(Pair));
  else if (f == 65) pa[k] = calloc(1, sizeof(Pair));
  else if (f == 66) { n = next(); ia[k][n] = next(); }
  else if (f == 67) { n = next(); ca[k][n] = chr(next()); }
  else if (f == 68) { n = next(); ba[k][n] = next() != 0; }
  else if (f == 69) { n = next(); ra[k][n] = ca[next()]; }
  else if (f == 70) { pa[k].a = next(); pa[k].b = chr(next()); pa[k].next = pa[next()]; }
  else if (f == 71) { n = next(); rec(ia[k][n]); }
  else if (f == 72) { n = next(); rec(ord(ca[k][n])); }
  else if (f == 73) { n = next(); flag(ba[k][n]); }
  else if (f == 74) {
    n = next();
    int j = 0 - 1;
    for (int i = 0; i < 8; i = i + 1) if (ca[i] != null && ca[i] == ra[k][n]) j = i;
    rec(j);
  } else if (f == 75) {
    rec(pa[k].a);
    rec(ord(pa[k].b));
    int j = 0 - 1;
    if (pa[k].next == null) j = 0 - 2;
    for (int i = 0; i < 8; i = i + 1) if (pa[i] != null && pa[i] == pa[k].next) j = i;
    rec(j);
  } else if (f == 76) { free(ia[k]); ia[k] = null; }
  else if (f == 77) { free(ca[k]); ca[k] = null; }
  else if (f == 78) { free(ba[k]); ba[k] = null; }
  else if (f == 79) { free(ra[k]); ra[k] = null; }
  else if (f == 80) { free(pa[k]); pa[k] = null; }
  else if (f == 81) srand(next());
  else if (f == 82) rec(rand());
  else if (f == 83) { void[] x = malloc(next()); rec(ord(x == null)); }
  else if (f == 84) { n = next(); void[] x = calloc(n, next()); rec(ord(x == null)); }
  if (60 <= f && f <= 63 || f == 83 || f == 84) rec(7);
}

public int main(int argc, char[][] argv, char[][] envp) {
  st[5] = stdin;
  st[6] = stdout;
  st[7] = stderr;
  while (true) {
    int f = next();
    rec(0 - 1000 - f);
    if (f < 0) return 0;
    else if (f == 99) return next();
    else if (f == 98) exit(next());
    else if (f == 97) { rec(argc); table(argv); table(envp); table(environ); }
    else if (f < 30) strings(f);
    else if (f < 50) files(f);
    else if (f < 60) { env(f); spoil(); }
    else mem(f);
  }
  return 0;
}
'''
