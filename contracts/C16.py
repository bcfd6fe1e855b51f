import z3
from vals import *
from llparse import *
from engine import *
PROP = 'C16'
# AES_* by contract (proved for the real code in C15): one uninterpreted bijection per key on 16-byte blocks
_K = z3.BitVecSort(128)
ENC = z3.Function('aes_enc', _K, _K); DEC = z3.Function('aes_dec', _K, _K)


def _bytes(m, st, p, n): return [m.load(st, Ptr(p.oid, lin_add(p.off, i)), INT(8)) for i in range(n)]


def _init(m, st, a, ins):
    k = tuple(_bytes(m, st, a[1], a[2]))
    ref = st.ghost.setdefault('aeskey', k)
    m.oblige(st, int(ref == k), 'callee-precondition', 'both sides use the same key')
    for i in range(240): m.store(st, Ptr(a[0].oid, lin_add(a[0].off, i)), (i * 3) & 255, INT(8))


def _apply(F, G):
    def h(m, st, a, ins):
        rk = _bytes(m, st, a[0], 240)
        m.oblige(st, int(all(x == (i * 3) & 255 for i, x in enumerate(rk))), 'callee-precondition', 'round keys are the expanded key')
        bs = [m.sv(x, 8) if x is not UNDEF else m.havoc(st, 8, 'undef') for x in _bytes(m, st, a[1], 16)]
        x = z3.simplify(z3.Concat(*reversed(bs)))
        if z3.is_app(x) and x.num_args() == 1 and x.decl().eq(G): y = x.arg(0)
        else:
            y = F(x)
            st.pc.append(G(y) == x)
        for i in range(16): m.store(st, Ptr(a[1].oid, lin_add(a[1].off, i)), m.norm(z3.Extract(8 * i + 7, 8 * i, y), 8), INT(8))
    return h


R = {r'^AES_init_ctx\(': _init, r'^AES_ECB_encrypt\(': _apply(ENC, DEC), r'^AES_ECB_decrypt\(': _apply(DEC, ENC)}
RB = 'data of at most 35 bytes, first chunk 0..18 bytes, second 0..33, then the rest'
UNITS = [dict(cpp='C16.cpp', sources=['encryption/*.cpp', 'module/io/*.cpp', 'utils/except.cpp', 'utils/log.cpp'],
              defaults=dict(mode='bv', max_unroll=600, replace=R, max_paths=60000), harness=dict(
                  writer=dict(weight=5, bounded='any buffer state, next chunk of at most 40 bytes'),
                  writer_close=dict(bounded='at most 33 single-byte writes'),
                  reader0=dict(weight=9, bounded=RB), reader1=dict(weight=9, bounded=RB), reader2=dict(weight=9, bounded=RB),
                  reader_full=dict(weight=9, tier='thorough', bounded=RB),
                  roundtrip=dict(weight=4, bounded='6 data lengths up to 47, write/read chunks of 7, 16 or 23 bytes'),
                  damaged_file=dict(bounded='files of at most 37 arbitrary bytes')))]
LEVEL = 'other'
EXPLANATION = """Writer and reader are executed on a ghost file system (engine/fs_model.py) with every data byte symbolic; AES_* calls are replaced by
their contract: one uninterpreted bijection per key, decryption its inverse (proved for the real AES in C15). The writer contract starts from
every buffer state it can be in (0..16 pending arbitrary bytes; the state holds nothing else), so for chunks within the bound it covers any number
of calls; the reader contract covers every position reached by a first chunk."""
LEVEL_NOTE = 'bounded stand-ins (chunk and file sizes stated per contract), all data bytes symbolic; sizes beyond that only by runtime contract runs'
ASSUMPTIONS = ['no I/O errors, file not modified by others; std::fstream behaves as in engine/fs_model.py', 'AES contract from C15']
