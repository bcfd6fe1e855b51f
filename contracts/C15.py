PROP = 'C15'
UNITS = [dict(cpp='C15.cpp', sources=['encryption/aes.cpp'], defaults=dict(mode='bv', gf2=True, max_unroll=300, timeout_ms=3000, hard_timeout=3, small_cells=24),
              harness=dict(ecb_encrypt=dict(weight=4), ecb_decrypt=dict(weight=5), ecb_inverse=dict(weight=5), short_key_schedule=dict(weight=6), init_with_iv=dict(weight=6)))]
EXPLANATION = '''AES_ECB_encrypt/decrypt with every round-key value and every block equal Cipher/InvCipher of FIPS-197 written from the standard
(S-box recomputed as the affine map of the field inverse); decrypt o encrypt = encrypt o decrypt = id; AES_init_ctx equals the standard's key
expansion for every key. Obligations are discharged by GF(2) normal forms over opaque atoms (engine/gf2.py): S-box lookups are applications of
the 256-entry table found in the program, two tables cancel only if evaluating all 256 entries shows them inverse. No bound.'''
LEVEL_NOTE = 'all keys (any length 0..33), all blocks, all 14 rounds; CBC/CTR modes are not part of the statement'
ASSUMPTIONS = ['engine/gf2.py normal forms: xor/shift/mask/constant-multiply rules on bits']
