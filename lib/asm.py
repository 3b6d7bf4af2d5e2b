"""Assembler for the subset of TaC assembly language the compiler and lib/SrcTac use.
Produces the image executed by spec/TaC.tla: code (one record per instruction),
initial data memory, symbol table."""
import re

REGS = {('G%d' % i): i + 1 for i in range(12)}
REGS.update({'FP': 13, 'SP': 14, 'G12': 13, 'G13': 14})
ALU = {'ADD', 'ADDS', 'SUB', 'CMP', 'AND', 'OR', 'XOR', 'MUL', 'DIV', 'MOD',
       'SHLA', 'SHLL', 'SHRA', 'SHRL'}
JMP = {'JMP', 'JLT', 'JLE', 'JZ', 'JGE', 'JGT', 'JNZ', 'JC', 'JNC', 'JHI', 'JLS', 'JM', 'JNM'}
DATA = {'DW', 'DB', 'WS', 'BS', 'STRING'}
ESC = {'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, '"': 34, "'": 39, 'a': 7, 'b': 8, 'f': 12, 'v': 11}


class AsmError(Exception):
    pass


def unescape(s):
    """bytes of a string literal in assembly notation"""
    out, i = [], 0
    b = s.encode('latin-1') if isinstance(s, str) else s
    while i < len(b):
        c = b[i]
        if c == 92:
            i += 1
            if i >= len(b):
                raise AsmError('escape')
            c = chr(b[i])
            if c in 'xX':
                h = bytes(b[i + 1:i + 3]).decode('latin-1')
                m = re.match(r'[0-9a-fA-F]{1,2}', h)
                if not m:
                    raise AsmError('escape x')
                out.append(int(m.group(0), 16))
                i += 1 + len(m.group(0))
                continue
            if c in '01234567':
                m = re.match(rb'[0-7]{1,3}', b[i:i + 3])
                out.append(int(m.group(0), 8) & 255)
                i += len(m.group(0))
                continue
            out.append(ESC.get(c, ord(c)))
            i += 1
            continue
        out.append(c)
        i += 1
    return out


def num(s):
    s = s.strip()
    m = re.fullmatch(r"([+-]?)(0[xX][0-9a-fA-F]+|\d+)", s)
    if m:
        v = int(m.group(2), 16) if m.group(2)[:2].lower() == '0x' else int(m.group(2))
        return -v if m.group(1) == '-' else v
    m = re.fullmatch(r"'(.)'", s)
    if m:
        return ord(m.group(1))
    return None


class Asm:
    def __init__(self, dbase=4096):
        self.dbase = dbase
        self.stm = []       # (op, operand text, line)
        self.labels = {}    # label -> ('c', index of stm) / ('d', index)
        self.equ = {}
        self.unit = 0

    def add(self, text, src='?'):
        """add one assembly source; labels beginning with '.' are local to it"""
        self.unit += 1
        u = self.unit
        pend = []
        for ln, raw in enumerate(text.split('\n'), 1):
            line = raw
            if '"' not in line:
                line = line.split(';')[0]
            if not line.strip() or line.startswith(';'):
                continue
            m = re.match(r'([^\s]*)\s*(.*)$', line)
            lab, rest = m.group(1), m.group(2).strip()
            if lab:
                name = self.lname(lab, u)
                mm = re.match(r'(?i)equ\s+(.*)$', rest)
                if mm:
                    self.equ[name] = num(mm.group(1))
                    continue
                if name in self.labels:
                    # a common: WS 1 beside another definition of one word
                    k = self.labels[name]
                    old = self.stm[k][:2] if k < len(self.stm) else None
                    if old == ('WS', '1') and re.match(r'(?i)(WS|DW)\s', rest):
                        self.stm[k] = ('WS', '0') + self.stm[k][2:]
                    elif re.fullmatch(r'(?i)WS\s+1', rest) and old and old[0] == 'DW':
                        continue
                    else:
                        raise AsmError('%s:%d: label %s defined twice' % (src, ln, lab))
                self.labels[name] = len(self.stm)
            if not rest:
                continue
            m = re.match(r'(\S+)\s*(.*)$', rest)
            self.stm.append((m.group(1).upper(), m.group(2).strip(), u, '%s:%d' % (src, ln)))

    @staticmethod
    def lname(lab, u):
        return '%d%s' % (u, lab) if lab.startswith('.') else lab

    def image(self, ext, heapwords=0):
        """ext: name -> external function number"""
        # pass 1: addresses
        caddr, daddr = {}, {}
        nc, da = 0, self.dbase
        for i, (op, arg, u, w) in enumerate(self.stm):
            if op in DATA:
                if op in ('DW', 'WS') and da % 2:
                    da += 1
                daddr[i] = da
                if op == 'DW':
                    da += 2 * len(arg.split(','))
                elif op == 'DB':
                    da += len(arg.split(','))
                elif op == 'WS':
                    da += 2 * num(arg)
                elif op == 'BS':
                    da += num(arg)
                else:
                    da += len(unescape(self.strlit(arg, w))) + 1
                # the next statement decides the alignment
            else:
                nc += 1
                caddr[i] = nc
        daddr[len(self.stm)] = da + da % 2
        caddr[len(self.stm)] = nc + 1
        self.sym = {}
        for name, i in self.labels.items():
            if i in daddr and not (i == len(self.stm) and i - 1 in caddr):
                self.sym[name] = ('d', daddr[i])
            else:
                self.sym[name] = ('c', caddr[i])
        mem = {}
        code = []
        for i, (op, arg, u, w) in enumerate(self.stm):
            if op in DATA:
                a = daddr[i]
                if op == 'DW':
                    for x in arg.split(','):
                        v = self.val(x, u, w)
                        mem[a], mem[a + 1] = (v >> 8) & 255, v & 255
                        a += 2
                elif op == 'DB':
                    for x in arg.split(','):
                        mem[a] = self.val(x, u, w) & 255
                        a += 1
                elif op in ('WS', 'BS'):
                    for k in range(num(arg) * (2 if op == 'WS' else 1)):
                        mem[a + k] = 0
                else:
                    for c in unescape(self.strlit(arg, w)) + [0]:
                        mem[a] = c
                        a += 1
            else:
                code.append(self.ins(op, arg, u, w, ext))
        da += da % 2
        words = [(mem.get(self.dbase + 2 * k, 0) << 8) | mem.get(self.dbase + 2 * k + 1, 0)
                 for k in range((da - self.dbase) // 2)]
        heap = da + 2
        words += [0] * 1 + [-1] * heapwords if heapwords else []
        return dict(code=code, data=words, dbase=self.dbase, heap=heap)

    @staticmethod
    def strlit(arg, w):
        m = re.fullmatch(r'"(.*)"', arg, re.S)
        if not m:
            raise AsmError('%s: string %r' % (w, arg))
        return m.group(1)

    def val(self, x, u, w):
        x = x.strip()
        v = num(x)
        if v is not None:
            if not -32768 <= v <= 65535:
                raise AsmError('%s: %s does not fit a word' % (w, x))
            return v & 0xffff
        name = self.lname(x, u)
        if name in self.equ:
            return self.equ[name] & 0xffff
        if name in self.sym:
            k, a = self.sym[name]
            return a if k == 'd' else self.caddr(a)
        raise AsmError('%s: undefined symbol %s' % (w, x))

    @staticmethod
    def caddr(i):
        """address of instruction i"""
        return i * 2

    def ins(self, op, arg, u, w, ext):
        a = [x.strip() for x in arg.split(',')] if arg else []
        rec = dict(o=op, r=0, m='', v=0, x=0)

        def reg(s):
            s = s.upper()
            if s not in REGS:
                raise AsmError('%s: register %s' % (w, s))
            return REGS[s]
        if op in ('RET', 'RETI', 'EI', 'DI', 'HALT', 'NO'):
            if a:
                raise AsmError('%s: operand' % w)
            return rec
        if op in ('PUSH', 'POP'):
            if len(a) != 1:
                raise AsmError('%s: operands' % w)
            rec['r'] = reg(a[0])
            return rec
        if op == 'CALL' or op in JMP:
            if len(a) != 1:
                raise AsmError('%s: operands' % w)
            name = self.lname(a[0], u)
            if name in self.sym:
                k, x = self.sym[name]
                if k != 'c':
                    raise AsmError('%s: %s is not code' % (w, a[0]))
                rec['v'] = x
            elif op == 'CALL' and name in ext:
                rec['v'] = -ext[name]
            else:
                raise AsmError('%s: undefined %s' % (w, a[0]))
            return rec
        if op in ALU or op in ('LD', 'ST', 'IN', 'OUT'):
            if len(a) < 2:
                raise AsmError('%s: operands' % w)
            rec['r'] = reg(a[0])
            o = a[1:]
            if len(o) == 2:
                rec['m'] = 'x'
                rec['v'] = self.val(o[0], u, w)
                if rec['v'] >= 32768:
                    rec['v'] -= 65536
                rec['x'] = reg(o[1])
            elif o[0].startswith('#'):
                rec['m'] = 'i'
                rec['v'] = self.val(o[0][1:], u, w)
            elif o[0].startswith('@'):
                rec['m'] = 'b'
                rec['x'] = reg(o[0][1:])
            elif o[0].startswith('%'):
                rec['m'] = 'x'
                rec['x'] = reg(o[0][1:])
            elif o[0].upper() in REGS:
                rec['m'] = 'r'
                rec['x'] = reg(o[0])
            else:
                rec['m'] = 'a'
                rec['v'] = self.val(o[0], u, w)
            if op == 'ST' and rec['m'] in ('i', 'r'):
                raise AsmError('%s: store operand' % w)
            return rec
        if op == 'SVC' and not a:
            return rec
        if op == 'SVC':
            rec['m'] = 'i'
            rec['v'] = self.val(a[1][1:] if len(a) > 1 else a[0].lstrip('#'), u, w)
            return rec
        raise AsmError('%s: unknown operation %s' % (w, op))
