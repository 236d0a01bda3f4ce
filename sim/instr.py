#!/usr/bin/env python3
"""Insert `call ptw_hook` before every instruction that touches memory other
threads could touch (gcc AT&T x86-64 PE assembly), so that the simulator may
switch threads at any such instruction.

A hook goes before
  * every instruction with a memory operand whose base is not %rsp,
  * every %rsp-based access to a frame slot whose address escapes
    (there is a `lea off(%rsp), reg` in the same function near it),
  * every `lock`/`rep` prefix (never between prefix and instruction).
An instruction that modifies memory without a lock prefix (addl $1, x) is split into load,
hook, operation and store: it is not atomic on more than one processor.
ptw_hook preserves all registers and flags; Win64 has no red zone, so pushing
a return address at any instruction is harmless."""
import re, sys

SKIP = re.compile(r'^(lea[lqw]?|nop[wl]?|push[qlw]?|pop[qlw]?|call[q]?|jmp[q]?|ret[q]?|ud2|rex\.W|prefetch\w*|endbr64|xgetbv)$')
MEM = re.compile(r'(-?[\w.$+*/-]*)\(([^)]*)\)')
LEA_RSP = re.compile(r'^\s*lea[q]?\s+(-?\d*)\(%rsp\)')
FRAME = 48

RMW = re.compile(r'^(add|sub|adc|sbb|and|or|xor|inc|dec|neg|not|shl|shr|sar|sal|bts|btr|btc|cmpxchg|xadd)([bwlq])$')
SUB = dict(b='b', w='w', l='d', q='')
ACC = dict(b='%al', w='%ax', l='%eax', q='%rax')

def split_rmw(mn, ops, labels):
    """An instruction that reads and writes memory without a lock prefix is not atomic:
    load, possible switch, operation and store.  Same registers and flags afterwards."""
    m = RMW.match(mn)
    ops = ops.split('#')[0].strip()
    if not m or not ops.endswith(')') or '%rsp' in ops or re.search(r'%[abcd]h\b', ops):
        return None
    k = ops.rfind(',', 0, ops.rfind('('))
    src, mem = (ops[:k].strip(), ops[k + 1:].strip()) if k >= 0 else ('', ops)
    if '(' in src:
        return None
    op, z = m.groups()
    reg = next(r for r in ('r10', 'r11', 'r9') if '%' + r not in ops)
    v = '%' + reg + SUB[z]
    body = ['movq %%%s, (%%rsp)' % reg, 'mov%s %s, %s' % (z, mem, v), 'call ptw_hook']
    if op == 'cmpxchg':
        labels[0] += 2; a, b = '.Lptw%d' % (labels[0] - 1), '.Lptw%d' % labels[0]
        body += ['cmp%s %s, %s' % (z, v, ACC[z]), 'jne ' + a, 'mov%s %s, %s' % (z, src, mem), 'jmp ' + b, a + ':', 'mov%s %s, %s' % (z, v, ACC[z]), b + ':']
    elif op == 'xadd':
        body += ['movq %%%s, 8(%%rsp)' % reg, 'add%s %s, %s' % (z, src, v), 'mov%s %s, %s' % (z, v, mem), 'mov%s 8(%%rsp), %s' % (z, src)]
    else:
        body += ['%s%s %s%s' % (op, z, src + ', ' if src else '', v), 'mov%s %s, %s' % (z, v, mem)]
    return ['leaq -16(%rsp), %rsp'] + body + ['movq (%%rsp), %%%s' % reg, 'leaq 16(%rsp), %rsp']

def instrument(lines):
    out = []
    labels = [0]
    # pass 1: functions and their escaped frame offsets
    start = 0
    funcs = []       # (start, end)
    cur = None
    for i, l in enumerate(lines):
        if '.seh_proc' in l:
            cur = i
        elif '.seh_endproc' in l and cur is not None:
            funcs.append((cur, i)); cur = None
    esc = {}
    for a, b in funcs:
        s = []
        for l in lines[a:b]:
            m = LEA_RSP.match(l)
            if m:
                s.append(int(m.group(1) or 0))
        for i in range(a, b):
            esc[i] = s
    intext = True
    skipnext = False
    n = 0
    for i, l in enumerate(lines):
        st = l.strip()
        if not st or st.startswith('#') or st.startswith('/'):
            out.append(l); continue
        if st.startswith('.'):
            d = st.split()[0]
            if d == '.text' or (d == '.section' and re.match(r'\.section\s+\.text', st)):
                intext = True
            elif d in ('.section', '.data', '.bss', '.rdata'):
                intext = False
            out.append(l); continue
        if re.match(r'^[\w.$@?]+:', st):
            out.append(l); continue
        if not intext:
            out.append(l); continue
        # strip trailing comment
        for ins in [st]:
            parts = ins.split(None, 1)
            mn = parts[0]
            ops = parts[1] if len(parts) > 1 else ''
            want = False
            locked = mn == 'lock'
            if skipnext:
                skipnext = False
                locked = True
            elif mn in ('lock', 'rep', 'repz', 'repnz', 'repe', 'repne'):
                want = True
                if not ops:
                    skipnext = True
            elif SKIP.match(mn):
                want = False
            else:
                for m in MEM.finditer(ops):
                    base = m.group(2)
                    disp = m.group(1)
                    if base.startswith('%rsp'):
                        try:
                            off = int(disp or 0)
                        except ValueError:
                            off = 0
                        if any(e <= off < e + FRAME for e in esc.get(i, ())):
                            want = True
                    elif '%rip' in base and ('__imp_' in disp or '.refptr' in disp or '.LC' in disp):
                        pass
                    else:
                        want = True
                if not ops and mn in ('stosb','stosq','stosl','movsb','movsq','movsl'):
                    want = True
            if want:
                out.append('\tcall\tptw_hook\n'); n += 1
                sp = None if locked else split_rmw(mn, ops, labels)
                if sp:
                    out.extend('\t' + x + '\n' for x in sp); n += 1; continue
            out.append(l)
    return out, n

if __name__ == '__main__':
    src, dst = sys.argv[1:3]
    with open(src) as f:
        lines = f.readlines()
    out, n = instrument(lines)
    with open(dst, 'w') as f:
        f.writelines(out)
