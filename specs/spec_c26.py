from vspec import ASSUME, ANY
import bitcoin.core
from bitcoin.core.key import CECKey
import bitcoin.core.script
from bitcoin.core.script import (CScript, CScriptOp, FindAndDelete, RawSignatureHash, OPCODES_BY_NAME, OPCODE_NAMES,
                                 DISABLED_OPCODES)
from bitcoin.core.scripteval import EvalScript, EvalScriptError, MissingOpArgumentsError, ArgumentsInvalidError
import netlib
import scriptlib


def run(prog, stack, tx, idx):
    st = list(stack)
    EvalScript(st, CScript(scriptlib.encode(prog)), tx, idx)
    return st


def run_flags(prog, stack, tx, idx, flags):
    st = list(stack)
    EvalScript(st, CScript(scriptlib.encode(prog)), tx, idx, flags)
    return st


def judge(prog, stack, tx, idx):
    def code(start, sigs):
        s = CScript(scriptlib.encode(prog[start:]))
        for x in sigs:
            s = FindAndDelete(s, CScript(scriptlib.push(len(x)) + x))
        return s

    def checksig(sig, key, script):
        k = CECKey()
        k.set_pubkey(key)
        if len(sig) == 0:
            return False
        h, err = RawSignatureHash(script, tx, idx, sig[-1])
        return k.verify(h, sig[:-1])
    return scriptlib.evaluate(prog, stack, code, checksig)


def run_ref(prog, stack, tx, idx):
    if len(scriptlib.encode(prog)) > 10000:
        raise EvalScriptError('')
    try:
        return judge(prog, stack, tx, idx)
    except (scriptlib.Missing, scriptlib.Failed):
        raise EvalScriptError('')


def run_flags_ref(prog, stack, tx, idx, flags):
    return run_ref(prog, stack, tx, idx)


def arguments(prog, stack, tx, idx):
    st = list(stack)
    try:
        EvalScript(st, CScript(scriptlib.encode(prog)), tx, idx)
    except (MissingOpArgumentsError, ArgumentsInvalidError):
        return ('evaluated', 'missing')
    except EvalScriptError:
        return ('evaluated', 'failed')
    return ('evaluated', 'fine')


def arguments_ref(prog, stack, tx, idx):
    try:
        judge(prog, stack, tx, idx)
    except scriptlib.Missing:
        return ('evaluated', 'missing')
    except scriptlib.Failed:
        return ('evaluated', ANY)
    return ('evaluated', 'fine')


def long_script(data, stack, tx, idx):
    ASSUME(len(data) > 10000)
    st = list(stack)
    EvalScript(st, CScript(data), tx, idx)
    return st


def long_script_ref(data, stack, tx, idx):
    ASSUME(len(data) > 10000)
    raise EvalScriptError('')


def by_name():
    return [(n, int(OPCODES_BY_NAME[n])) for n, v in scriptlib.NAMES if n not in ('OP_FALSE', 'OP_TRUE', 'OP_INVALIDOPCODE')] + [len(OPCODES_BY_NAME)]


def by_name_ref():
    l = [(n, v) for n, v in scriptlib.NAMES if n not in ('OP_FALSE', 'OP_TRUE', 'OP_INVALIDOPCODE')]
    return l + [len(l)]


def constants():
    return [(n, int(getattr(bitcoin.core.script, n))) for n, v in scriptlib.NAMES]


def constants_ref():
    return [(n, v) for n, v in scriptlib.NAMES]


def by_value():
    return [(OPCODE_NAMES[v], v) for n, v in scriptlib.NAMES if n not in ('OP_FALSE', 'OP_TRUE')] + [len(OPCODE_NAMES)]


def by_value_ref():
    l = [(n, v) for n, v in scriptlib.NAMES if n not in ('OP_FALSE', 'OP_TRUE')]
    return l + [len(l)]


def disabled():
    return [n in DISABLED_OPCODES for n in range(256)]


def disabled_ref():
    return [n in scriptlib.DISABLED for n in range(256)]


def printed(lo):
    return [str(CScriptOp(n)) for n in range(lo, lo + 32)]


def printed_ref(lo):
    out = []
    for n in range(lo, lo + 32):
        s = 'CScriptOp(0x%x)' % n
        for name, v in scriptlib.NAMES:
            if v == n and name not in ('OP_FALSE', 'OP_TRUE'):
                s = name
        out.append(s)
    return out


def small(n):
    return int(CScriptOp.encode_op_n(n))


def small_ref(n):
    if n < 0 or n > 16:
        raise ValueError('')
    return 0 if n == 0 else 0x50 + n


def smallop(n):
    op = CScriptOp(n)
    return (int(op), op.is_small_int(), op.decode_op_n() if op.is_small_int() else None)


def smallop_ref(n):
    if n == 0:
        return (0, True, 0)
    if n < 0x51 or n > 0x60:
        return (n, False, None)
    return (n, True, n - 0x50)
