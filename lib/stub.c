/* Stands for cpp, the translators, as--, ld--, objexe-- and cc in check D01: what it writes says which program was run
   on what.  FAIL=name:k makes the k-th run of a program fail after it has written half of its output; runs are counted in
   the file named by COUNT. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>

static int failing;
static char *slurp(const char *n) {
  FILE *f = strcmp(n, "-") ? fopen(n, "r") : stdin;
  if (f == NULL) return NULL;
  char *b = malloc(1 << 16);
  b[fread(b, 1, 65535, f)] = 0;
  return b;
}
static void emit(const char *n, const char *s) {
  FILE *f = n ? fopen(n, "w") : stdout;
  if (f == NULL) exit(3);
  if (failing) fprintf(f, "part"); else fprintf(f, "%s", s);
  fclose(f);
}
static int cmp(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static const char *base(const char *p) { const char *s = strrchr(p, '/'); return s ? s + 1 : p; }
static int ends(const char *s, const char *t) { return strlen(s) >= strlen(t) && !strcmp(s + strlen(s) - strlen(t), t); }

int main(int argc, char **argv) {
  const char *me = base(argv[0]);
  char *c = getenv("COUNT"), *f = getenv("FAIL");
  int n = 0;
  if (c) {                                  /* one byte per run */
    int d = open(c, O_RDWR | O_CREAT | O_APPEND, 0600);
    write(d, me, strlen(me)); write(d, "\n", 1);
    close(d);
    FILE *g = fopen(c, "r");
    char l[100];
    while (fgets(l, 100, g)) { l[strcspn(l, "\n")] = 0; if (!strcmp(l, me)) n++; }
    fclose(g);
  }
  if (f) { char t[100]; snprintf(t, 100, "%s:%d", me, n); failing = !strcmp(t, f); }
  static char out[1 << 18], dir[4096], lib[100];
  char *D[100], *in[100], *o = NULL, *inc = "";
  int nd = 0, ni = 0, cflag = 0, std = 0, K = 0, P = 0, opt = 0;
  for (int i = 1; i < argc; i++) {
    char *a = argv[i];
    if (!strncmp(a, "-I", 2)) {
      a = a[2] ? a + 2 : argv[++i];
      if (strstr(a, "cmmInclude")) std = 1;
      else if (strstr(a, "cmmLib")) { if (!*lib) strcpy(lib, base(a)); }
      else { strcat(dir, a); strcat(dir, ","); }
    } else if (!strncmp(a, "-D", 2)) D[nd++] = a[2] ? a + 2 : argv[++i];
    else if (!strcmp(a, "-include")) { inc = argv[++i]; if (strstr(inc, "LibRtc/")) strcpy(lib, "LibRtc"); else if (strstr(inc, "LibNortc/")) strcpy(lib, "LibNortc"); }
    else if (!strcmp(a, "-o")) o = argv[++i];
    else if (!strcmp(a, "-c")) cflag = 1;
    else if (!strcmp(a, "-K")) K = 1;
    else if (!strcmp(a, "-P")) P = 1;
    else if (!strcmp(a, "-O0")) opt = 1;
    else if (a[0] != '-' || !a[1]) in[ni++] = a;
  }
  qsort(D, nd, sizeof *D, cmp);
  char d[4096] = "";
  for (int i = 0; i < nd; i++) if (i == 0 || strcmp(D[i], D[i - 1])) { strcat(d, D[i]); strcat(d, ","); }
  if (!strcmp(me, "cpp")) {
    char *s = slurp(ni ? in[0] : "-");
    if (ni > 1 || s == NULL) return 1;
    sprintf(out, "cpp{%s;%s;%d;%s}(%s)", dir, d, std, base(inc), s);
    emit(ni > 1 ? in[1] : o, out);
  } else if (strstr(me, "c--")) {
    char *s = slurp(ni ? in[0] : "-");
    if (ni > 1 || s == NULL) return 1;
    sprintf(out, "%s{%s%s}(%s)", me, K ? "K" : "", opt ? "O0" : "", s);
    emit(NULL, out);
  } else if (!strcmp(me, "as--")) {
    char *s = ni == 1 && ends(in[0], ".s") ? slurp(in[0]) : NULL, t[4096];
    if (s == NULL) return 1;
    sprintf(out, "as(%s)", s);
    sprintf(t, "%.*s.lst", (int)strlen(in[0]) - 2, in[0]); emit(t, "list");
    sprintf(t, "%.*s.o", (int)strlen(in[0]) - 2, in[0]); emit(t, out);
  } else if (!strcmp(me, "ld--")) {
    strcpy(out, "ld(");
    for (int i = 1; i < ni; i++) {
      char *s = ends(in[i], "/libtac.o") ? "libtac" : slurp(in[i]);
      if (s == NULL) return 1;
      strcat(out, s); strcat(out, ";");
    }
    strcat(out, ")");
    printf("symbols\n");
    emit(in[0], out);
  } else if (!strcmp(me, "objexe--")) {
    char *s = ni == 2 ? slurp(in[1]) : NULL;
    if (s == NULL) return 1;
    sprintf(out, "exe{%s}(%s)", P ? "P" : "", s);
    printf("2 b\n1 a\n");
    emit(in[0], out);
  } else if (!strcmp(me, "cc")) {
    int rtc = 0;
    for (int i = 0; i < nd; i++) rtc |= !strcmp(D[i], "_RTC");
    if (cflag) {
      char *s = ni == 1 ? slurp(in[0]) : NULL, t[4096];
      if (s == NULL || !ends(in[0], ".c")) return 1;
      sprintf(out, "cc{%s;%s;%s}(%s)", rtc ? "rtc" : "", base(inc), lib, s);
      sprintf(t, "%.*s.o", (int)strlen(base(in[0])) - 2, base(in[0]));
      emit(o ? o : t, out);
    } else {
      int k = 0;
      strcpy(out, "");
      for (int i = 0; i < ni; i++) {
        char *s = strstr(in[i], "/LibRtc/") || strstr(in[i], "/LibNortc/") ? NULL : slurp(in[i]);
        if (s == NULL && !strstr(in[i], "/cmmLib/")) return 1;
        if (s == NULL) { if (ends(in[i], ".c")) k = strstr(in[i], "/LibRtc/") ? 1 : 2; continue; }
        strcat(out, s); strcat(out, ";");
      }
      char *t = malloc(1 << 18);
      sprintf(t, "link{%s;%s}(%s)", rtc ? "rtc" : "", k == 1 ? "LibRtc" : k == 2 ? "LibNortc" : "", out);
      emit(o ? o : "a.out", t);
    }
  } else return 2;
  return failing;
}
