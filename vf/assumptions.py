COMMON = [
 'the compiled program behaves as the clang AST of the same source under the x86-64 Linux ABI (int 32 bit, char signed, pointers 64 bit)',
 'addresses are below 2^47; an object never wraps around the address space',
 'a view handed in by the caller has size >= 0, null data only with size 0, and its bytes are readable (documented type invariant)',
 'forming a pointer outside an object without dereferencing it is not treated as a fault (only wrap-around and access are)',
 'memcpy/memmove/memcmp of 0 bytes accept any pointer; the C library is modelled in the C locale (see trusted_base)',
]
STRV = ['C strings handed in are at most INT_MAX characters long']
STRB = ['allocators never report failure (the library does not support that: it asserts) and return memory aligned for the header, disjoint from everything else alive; realloc-like calls keep the content up to the smaller size',
 'a text or view argument lies in the content of the buffer or outside its memory; a view argument is not the header or spare capacity']
MODEL = {
 'vsnprintf': 'vsnprintf (C library): gives the same text for the same format and arguments, writes min(length, n-1) characters and a zero, or reports a negative result (then it may have written anything inside n bytes); its arguments do not lie in the buffer written to',
 'vfptrprnf': 'vfptrprnf (the prnf formatter, a test dependency of the repository): calls the character handler once per character of a text determined by format and arguments, at most INT_MAX times; the handler itself is verified, by induction over the characters',
 'read': 'read() writes at most the returned number of bytes to the buffer given and returns -1..n', 'write': 'write() returns -1..n and modifies nothing',
 'malloc': 'malloc() returns null or a fresh aligned block', 'realloc': 'realloc() returns null (old block kept) or a fresh aligned block with the old content up to the smaller size', 'free': 'free() releases exactly the block given',
}
def of(prop, trusted):
    out = list(COMMON)
    if prop[0] in 'SB': out += STRV
    if prop[0] == 'B': out += STRB
    if prop == 'X01': out.append('the host is little endian; the types are those of fixed width the macros dispatch on')
    if prop == 'X03': out.append('allocators do not report failure; the buffer, key and vector do not overlap; the size of the content is at most INT_MAX - 16')
    out += [MODEL[t] for t in trusted if t in MODEL]
    if prop == 'B03': out.append('the number of arguments is that of the views passed and below INT_MAX')
    return out
