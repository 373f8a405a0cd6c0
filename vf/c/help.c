/* replay support: an allocator that moves every block, guards and poisons memory and notes misuse; stand-ins for read() and write() */
#include <sys/mman.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include "strbuf.h"
#define NB 4096
#define PG 4096ul
struct blk { char *base; size_t map; char *addr; size_t n; int live; };
static struct blk T[NB]; static int nt;
int vf_calls, vf_bad_this, vf_bad_ptr, vf_bad_size, vf_bad_canary;
void *vf_app, *vf_fn;

static void canary(struct blk *b) { char *e = b->base + b->map - PG; for (char *p = b->addr + b->n; p < e; p++) if (*p != 0x5A) vf_bad_canary++; }
void vf_reset(void) { for (int i = 0; i < nt; i++) munmap(T[i].base, T[i].map); nt = 0; vf_calls = vf_bad_this = vf_bad_ptr = vf_bad_size = vf_bad_canary = 0; }
void vf_check(void) { for (int i = 0; i < nt; i++) if (T[i].live) canary(&T[i]); }
int vf_nblocks(void) { return nt; }
void *vf_block(int i, size_t *n) { *n = T[i].n; return T[i].live ? T[i].addr : 0; }
void *vf_new(size_t n)
{
	if (nt >= NB) return 0;
	struct blk *b = &T[nt++];
	size_t body = ((n + 7) & ~7ul), pages = (body + PG - 1) / PG * PG;
	b->map = pages + 2 * PG;
	b->base = mmap(0, b->map, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (b->base == MAP_FAILED) { nt--; return 0; }
	mprotect(b->base + PG, pages, PROT_READ | PROT_WRITE);
	b->addr = b->base + PG + pages - body; b->n = n; b->live = 1;
	memset(b->addr, 0xA5, n < 65536 ? n : 65536);
	memset(b->addr + n, 0x5A, body - n);
	return b->addr;
}
static struct blk *find(void *p) { for (int i = 0; i < nt; i++) if (T[i].live && T[i].addr == p) return &T[i]; return 0; }
static void drop(struct blk *b) { canary(b); b->live = 0; mprotect(b->base, b->map, PROT_NONE); }
void *vf_alloc(strbuf_allocator_t *this, void *ptr, size_t size)
{
	vf_calls++;
	if (!this || this->app_data != vf_app || (void *)this->allocator != vf_fn) vf_bad_this++;
	if (size > 0x7fffffffUL + 64) vf_bad_size++;
	struct blk *o = 0;
	if (ptr && !(o = find(ptr))) { vf_bad_ptr++; return size ? vf_new(size) : 0; }
	if (!size) { if (o) drop(o); return 0; }
	char *r = vf_new(size);
	if (o && r) { size_t m = o->n < size ? o->n : size; memcpy(r, o->addr, m); drop(o); }
	return r;
}
strview_t vf_vfmt(void *f, strbuf_t **b, const char *fmt, ...) { va_list va; va_start(va, fmt); strview_t r = ((strview_t(*)(strbuf_t **, const char *, va_list))f)(b, fmt, va); va_end(va); return r; }
strview_t vf_vcat(void *f, strbuf_t **b, int n, ...) { va_list va; va_start(va, n); strview_t r = ((strview_t(*)(strbuf_t **, int, va_list))f)(b, n, va); va_end(va); return r; }
int vf_text(char *out, size_t n, const char *fmt, ...) { va_list va; va_start(va, fmt); int r = vsnprintf(out, n, fmt, va); va_end(va); return r; }
int vfptrprnf(void (*out_fptr)(void *, char), void *out_vars, const char *fmtstr, va_list va);
#pragma weak vfptrprnf
struct col { char *out; size_t n, i; };
static void put(void *v, char x) { struct col *c = v; if (c->i < c->n) c->out[c->i] = x; c->i++; }
int vf_ptext(char *out, size_t n, const char *fmt, ...) { struct col c = {out, n, 0}; va_list va; va_start(va, fmt); vfptrprnf(put, &c, fmt, va); va_end(va); return (int)c.i; }

/* outside world */
int vf_io_calls, vf_io_kind, vf_io_fd, vf_io_ret; const void *vf_io_ptr; size_t vf_io_n; void *vf_io_vars; char vf_io_data[8192]; const char *vf_io_src;
static void note(int k, int fd, const void *p, size_t n) { vf_io_calls++; vf_io_kind = k; vf_io_fd = fd; vf_io_ptr = p; vf_io_n = n; }
long vf_read(int fd, void *p, size_t n) { note(1, fd, p, n); if (vf_io_ret > 0) memcpy(p, vf_io_src, vf_io_ret); return vf_io_ret; }
long vf_write(int fd, const void *p, size_t n) { note(2, fd, p, n); volatile char x = 0; for (size_t i = 0; i < n; i++) x += ((const char *)p)[i]; return vf_io_ret; }
int vf_fetch(char *dst, int space, void *vars) { note(3, 0, dst, space); vf_io_vars = vars; for (int i = 0; i < space; i++) dst[i] = vf_io_src[i & 4095]; return vf_io_ret; }
int vf_fail;
void *vf_srealloc(void *p, size_t n)
{
	struct blk *o = 0;
	if (p && !(o = find(p))) { vf_bad_ptr++; return 0; }
	if (!n) { vf_bad_size++; return 0; }
	if (vf_fail) return 0;
	char *r = vf_new(n);
	if (o) { memcpy(r, o->addr, o->n < n ? o->n : n); drop(o); }
	return r;
}
void *vf_smalloc(size_t n) { return vf_srealloc(0, n); }
void *vf_scalloc(size_t a, size_t n) { char *p = vf_srealloc(0, a * n); if (p) memset(p, 0, a * n); return p; }
void vf_sfree(void *p) { struct blk *o = 0; if (!p) return; if (!(o = find(p))) { vf_bad_ptr++; return; } drop(o); }
