CLAIMED = {'S%02d' % i for i in range(1, 10)} | {'B%02d' % i for i in range(1, 11)} | {'N%02d' % i for i in range(1, 6)} | {'X01', 'X02', 'X03'}
TECH = {'X01': 'function contracts over symbolic bytes, discharged by normal forms over GF(2)', 'X02': 'function contracts over symbolic bits (FIPS-197 as specification), discharged by normal forms over GF(2)',
 'X03': 'the block cipher by its discharged contract (X02); mode, padding and buffer handling: bounded symbolic execution against a CBC specification'}
LEVEL = {'X03': 'other'}
LNOTE = {
 'X01': 'For each macro and type a one-line function instantiating it is put under contract; its obligations hold for every value, by comparing normal forms of the bytes. Proved with the swap and cast helpers on the real code; that the appended bytes land in the buffer is executed with strbuf.c in place on buffers of a few sizes (bounded, reported separately). Trusted: clang AST, vf/bits.py, little-endian host.',
 'X02': 'aes256_init, aes256_enc, aes256_dec against FIPS-197 as polynomials over GF(2) in the 256 key bits and 128 block bits, and the lemma that decryption inverts encryption: for every key and block, no bound. Trusted: clang AST, vf/bits.py.',
 'X03': 'aes256_* enter by their contract, which is re-proved on every run; strbuf_encrypt and strbuf_decrypt are then executed symbolically for all contents, keys and vectors, at the listed sizes and capacities only: bounded, not counted as proved. Trusted: clang AST, vf/bits.py; allocators do not fail.'}
NA = {'N06': 'a bound on the rounding error of a chain of floating-point operations over arbitrarily many digits needs floating-point error analysis; the contracts treat floating point as exact real arithmetic, so no obligation of theirs expresses or decides an error in units of the last place'}
