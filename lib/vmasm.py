"""Reader for the listings of vm-c-- and ic-c--: builds the image run by spec/VM.tla."""
import re
import asm

POPS = dict(LDC=0, LDL=0, LDP=0, LDG=0, STL=1, STP=1, STG=1, LDW=2, LDB=2, STW=3, STB=3,
            NEG=1, BNOT=1, NOT=1, CHR=1, BOOL=1, POP=1, JMP=0, JT=1, JF=1, ARG=1, MREG=1,
            CALLF=0, CALLP=0, ENTRY=0, ENTRYK=0, ENTRYI=0, RET=0, RETI=0)
for _o in 'ADD SUB SHL SHR BAND BOR BXOR MUL DIV MOD LT LE GT GE EQ NE'.split():
    POPS[_o] = 2
VREF = 1073741824
DATA = ('DW', 'DB', 'WS', 'BS', 'STRING')


class VmError(Exception):
    pass


def commons(items):
    """items without the WS 1 of names that have another definition of one word"""
    defs = {}
    for k in range(len(items) - 1):
        if items[k][0] == 'lab' and items[k + 1][0] in ('WS', 'DW'):
            defs.setdefault(items[k][1], []).append(k)
    drop = set()
    for n, ks in defs.items():
        ws = [k for k in ks if items[k + 1] == ('WS', '1')
              and (k + 2 == len(items) or items[k + 2][0] not in DATA)]
        for k in ws[:len(ks) - 1]:
            drop |= {k, k + 1}
    return [x for k, x in enumerate(items) if k not in drop]


def image(text, ext, intr=None):
    """text: VM listing; ext: external name -> function number"""
    items = []          # ('lab', name) / (op, operand)
    for ln, raw in enumerate(text.split('\n'), 1):
        if not raw.strip() or raw.startswith(';'):
            continue
        if raw[0] != '\t':
            items.append(('lab', raw.strip()))
        else:
            p = raw[1:].split('\t', 1)
            items.append((p[0], p[1] if len(p) > 1 else ''))
    items = commons(items)
    objs, code, lab = [], [], {}
    pend, cur = [], None
    for op, arg in items:
        if op == 'lab':
            pend.append(arg)
            cur = None
            continue
        if op in DATA:
            if cur is None:
                cur = dict(w=0 if op in ('DB', 'BS', 'STRING') else 1, e=[], f=[])
                objs.append(cur)
                for l in pend:
                    if l in lab:
                        raise VmError('label %s defined twice' % l)
                    lab[l] = ('d', len(objs))
                pend = []
            if cur['w'] != (0 if op in ('DB', 'BS', 'STRING') else 1):
                raise VmError('bytes and words in one object')
            if op == 'DW':
                cur['e'].append(arg)
            elif op == 'DB':
                cur['e'].append(int(arg) & 255)
            elif op in ('WS', 'BS'):
                cur['e'] += [0] * int(arg)
            else:
                cur['e'] += asm.unescape(asm.Asm.strlit(arg, 'vm')) + [0]
            continue
        if op not in POPS:
            raise VmError('unknown instruction %s' % op)
        cur = None
        for l in pend:
            if l in lab:
                raise VmError('label %s defined twice' % l)
            lab[l] = ('c', len(code) + 1)
        pend = []
        code.append((op, arg))
    for l in pend:
        lab[l] = ('c', len(code) + 1)

    def const(a):
        if re.fullmatch(r'-?\d+', a):
            v = int(a)
            if not -32768 <= v <= 65535:
                raise VmError('constant %s' % a)
            return v - 65536 if v > 32767 else v
        if a not in lab:
            raise VmError('undefined label %s' % a)
        k, i = lab[a]
        if k != 'd':
            return 2 * VREF - 1 - 2 * i       # address of a function
        return VREF + i
    for o in objs:
        o['e'] = [const(x) if isinstance(x, str) else x for x in o['e']]
        del o['f']
    out = []
    for op, arg in code:
        r = dict(o=op, n=0, x=0, k=POPS[op])
        if op == 'LDC':
            r['n'] = const(arg)
        elif op in ('LDL', 'LDP', 'STL', 'STP', 'ENTRY', 'ENTRYK', 'ENTRYI'):
            r['n'] = int(arg)
        elif op in ('LDG', 'STG'):
            if lab.get(arg, 'c')[0] != 'd':
                raise VmError('%s is not a global variable' % arg)
            r['n'] = lab[arg][1]
        elif op in ('JMP', 'JT', 'JF'):
            if lab.get(arg, 'd')[0] != 'c':
                raise VmError('%s is not a code label' % arg)
            r['n'] = lab[arg][1]
        elif op in ('CALLF', 'CALLP'):
            n, f = arg.split(',')
            r['n'] = int(n)
            if f in lab:
                if lab[f][0] != 'c':
                    raise VmError('%s is not a function' % f)
                r['x'] = lab[f][1]
            elif f in ext:
                r['x'] = -ext[f]
            else:
                raise VmError('undefined function %s' % f)
        elif arg:
            raise VmError('operand of %s' % op)
        out.append(r)
    if '_main' not in lab or lab['_main'][0] != 'c':
        raise VmError('no _main')
    im = dict(code=out, objs=objs, entry=lab['_main'][1])
    if intr:
        if lab.get(intr, 'd')[0] != 'c':
            raise VmError('no ' + intr)
        im['intr'] = lab[intr][1]
    return im


IC = {'vmRet': 'RET', 'vmRetI': 'RETI', 'vmMReg': 'MREG', 'vmArg': 'ARG', 'vmLdWrd': 'LDW',
      'vmLdByt': 'LDB', 'vmStWrd': 'STW', 'vmStByt': 'STB', 'vmNeg': 'NEG', 'vmNot': 'NOT',
      'vmBNot': 'BNOT', 'vmChr': 'CHR', 'vmBool': 'BOOL', 'vmAdd': 'ADD', 'vmSub': 'SUB',
      'vmShl': 'SHL', 'vmShr': 'SHR', 'vmBAnd': 'BAND', 'vmBXor': 'BXOR', 'vmBOr': 'BOR',
      'vmMul': 'MUL', 'vmDiv': 'DIV', 'vmMod': 'MOD', 'vmGt': 'GT', 'vmGe': 'GE', 'vmLt': 'LT',
      'vmLe': 'LE', 'vmEq': 'EQ', 'vmNe': 'NE', 'vmPop': 'POP'}
IC1 = {'vmEntry': 'ENTRY', 'vmEntryK': 'ENTRYK', 'vmEntryI': 'ENTRYI', 'vmLdLoc': 'LDL',
       'vmLdPrm': 'LDP', 'vmStLoc': 'STL', 'vmStPrm': 'STP', 'vmLdCns': 'LDC', 'vmDwCns': 'DW',
       'vmDbCns': 'DB', 'vmWs': 'WS', 'vmBs': 'BS'}
ICN = {'vmLdGlb': 'LDG', 'vmStGlb': 'STG', 'vmLdNam': 'LDC', 'vmDwName': 'DW'}
ICL = {'vmJmp': 'JMP', 'vmJT': 'JT', 'vmJF': 'JF', 'vmLdLab': 'LDC', 'vmDwLab': 'DW'}


def ic_to_vm(text, names):
    """names: name table index -> name in assembly notation"""
    out = []

    def nm(i):
        if i not in names:
            raise VmError('name %d has no definition' % i)
        return names[i]
    for raw in text.split('\n'):
        if not raw:
            continue
        m = re.fullmatch(r'(vm\w+)\((.*)\)', raw)
        if not m:
            raise VmError('line %r' % raw)
        f, a = m.groups()
        if f == 'vmStr':
            out.append('\tSTRING\t' + a)
            continue
        p = [int(x) for x in a.split(',')] if a else []
        want = 0 if f in IC else 2 if f in ('vmCallF', 'vmCallP') else 3 if f.startswith('vmBool') and f != 'vmBool' else 1
        if len(p) != want:
            raise VmError('operands of %r' % raw)
        if f in IC:
            out.append('\t' + IC[f])
        elif f in IC1:
            out.append('\t%s\t%d' % (IC1[f], p[0]))
        elif f in ICN:
            out.append('\t%s\t%s' % (ICN[f], nm(p[0])))
        elif f in ICL:
            out.append('\t%s\t.L%d' % (ICL[f], p[0]))
        elif f == 'vmNam':
            out.append(nm(p[0]))
        elif f == 'vmLab':
            out.append('.L%d' % p[0])
        elif f in ('vmCallF', 'vmCallP'):
            out.append('\t%s\t%d,%s' % (f[2:].upper(), p[0], nm(p[1])))
        elif f in ('vmBoolOR', 'vmBoolAND'):
            x = 1 if f == 'vmBoolOR' else 0
            out += ['\tJMP\t.L%d' % p[2], '.L%d' % p[0], '\tLDC\t%d' % x]
            if p[1] != -1:
                out += ['\tJMP\t.L%d' % p[2], '.L%d' % p[1], '\tLDC\t%d' % (1 - x)]
            out.append('.L%d' % p[2])
        else:
            raise VmError('unknown operation %s' % f)
    return '\n'.join(out) + '\n'


def ic_names(ic, order):
    """Name table indices of an ic-c-- listing.  order: the names in the order the
    source text introduces them (functions, prototypes, global variables, ...), each with
    the number of further entries it leaves in the table."""
    names, i = {}, 0
    for n, extra in order:
        names[i] = n
        i += 1 + extra
    return names
