/* TaC CPU for the library checks: executes an image made by lib/asm.py.  The instruction semantics is that of
   spec/TaC.tla (checked against it by L06).  Compiled as a shared library, driven from lib/tacsim.py. */
#include <string.h>

enum { LD, ST, ADD, ADDS, SUB, CMP, AND, OR, XOR, MUL, DIV, MOD, SHLA, SHLL, SHRA, SHRL,
       JMP, JLT, JLE, JZ, JGE, JGT, JNZ, JC, JNC, JHI, JLS, JM, JNM,
       PUSH, POP, CALL, RET, RETI, SVC, IN, OUT, EI, DI, HALT, NO };
enum { MNONE, MI, MR, MA, MX, MB };

typedef struct { int op, mode, r, x, v; } Ins;
Ins code[20000];
int ncode, dbase, top;
unsigned char mem[65536];
unsigned short R[15];
int fz, fn, fv, fc;
int pc, steps, faultpc, faultaddr;
int visited[20000];

/* 0: returned to address `magic`; 1: SVC; 2: IN; 3: OUT; -1: fault; -2: too many steps */
static int bad;

static int chk(int a, int w) {
  if (a < dbase || a >= top || (w && (a & 1))) { bad = 1; faultaddr = a; return 0; }
  return 1;
}
static int rw(int a) { a &= 0xffff; return chk(a, 1) ? mem[a] << 8 | mem[a + 1] : 0; }
static int rb(int a) { a &= 0xffff; return chk(a, 0) ? mem[a] : 0; }
static void ww(int a, int v) { a &= 0xffff; if (chk(a, 1)) { mem[a] = v >> 8 & 255; mem[a + 1] = v & 255; } }
static void wb(int a, int v) { a &= 0xffff; if (chk(a, 0)) mem[a] = v & 255; }
static void nz(int r) { fz = r == 0; fn = r >> 15 & 1; fv = fc = 0; }

void alu(int op, int a, int b, int *res) {
  int r = a, n = b & 15;
  switch (op) {
  case ADDS: b = b * 2 & 0xffff; /* fall through */
  case ADD: r = (a + b) & 0xffff; nz(r); fv = (~(a ^ b) & (r ^ a)) >> 15 & 1; fc = a + b > 65535; break;
  case SUB: case CMP:
    r = (a - b) & 0xffff; nz(r); fv = ((a ^ b) & (r ^ a)) >> 15 & 1; fc = a < b;
    if (op == CMP) r = a;
    break;
  case AND: r = a & b; nz(r); break;
  case OR: r = a | b; nz(r); break;
  case XOR: r = a ^ b; nz(r); break;
  case MUL: r = (int)((unsigned)a * (unsigned)b & 0xffff); nz(r); break;
  case DIV: if (!b) { bad = 1; break; } r = a / b; nz(r); break;
  case MOD: if (!b) { bad = 1; break; } r = a % b; nz(r); break;
  case SHLA: case SHLL: r = a << n & 0xffff; nz(r); fc = n && a >> (16 - n) & 1; break;
  case SHRA: r = (short)a >> n & 0xffff; nz(r); fc = n && a >> (n - 1) & 1; break;
  case SHRL: r = a >> n; nz(r); fc = n && a >> (n - 1) & 1; break;
  }
  *res = r;
}

int taken(int op) {
  switch (op) {
  case JMP: return 1;
  case JZ: return fz;
  case JNZ: return !fz;
  case JLT: return fn != fv;
  case JGE: return fn == fv;
  case JLE: return fz || fn != fv;
  case JGT: return !fz && fn == fv;
  case JC: return fc;
  case JNC: return !fc;
  case JHI: return !fc && !fz;
  case JLS: return fc || fz;
  case JM: return fn;
  case JNM: return !fn;
  }
  return 0;
}

/* code addresses are 2 * instruction number (from 1); 0 is the return address of the harness */
int run(int limit) {
  int t;
  bad = 0;
  for (;;) {
    if (pc == 0) return 0;
    if (pc < 1 || pc > ncode) { faultpc = pc; return -1; }
    if (steps++ > limit) { faultpc = pc; return -2; }
    Ins *i = &code[pc];
    faultpc = pc;
    visited[pc]++;
    pc++;
    int o = 0;
    switch (i->mode) {
    case MI: o = i->v & 0xffff; break;
    case MR: o = R[i->x]; break;
    case MA: if (i->op != ST) o = rw(i->v); break;
    case MX: if (i->op != ST) o = rw(R[i->x] + i->v); break;
    case MB: if (i->op != ST) o = rb(R[i->x]); break;
    }
    if (bad) return -1;
    switch (i->op) {
    case LD: R[i->r] = o; break;
    case ST:
      if (i->mode == MA) ww(i->v, R[i->r]);
      else if (i->mode == MX) ww(R[i->x] + i->v, R[i->r]);
      else wb(R[i->x], R[i->r]);
      break;
    case PUSH: R[14] -= 2; ww(R[14], R[i->r]); break;
    case POP: t = rw(R[14]); R[14] += 2; R[i->r] = t; break;
    case CALL: R[14] -= 2; ww(R[14], pc * 2); pc = i->v; break;
    case RET: t = rw(R[14]); R[14] += 2; if (t & 1) bad = 1; pc = t / 2; break;
    case SVC: return 1;
    case IN: R[0] = i->r; return 2;
    case OUT: R[0] = i->r; return 3;
    case NO: case EI: case DI: break;
    case RETI: case HALT: bad = 1; break;
    default:
      if (i->op >= JMP && i->op <= JNM) { if (taken(i->op)) pc = i->v; }
      else { alu(i->op, R[i->r], o, &t); if (!bad) R[i->r] = t; }
    }
    if (bad) return -1;
  }
}
