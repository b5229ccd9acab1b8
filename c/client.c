// A C client of libkoopa, written against the published header only. It walks
// raw programs into an array of words and assembles raw programs from one, so
// that the checks (in Rust) can compare and enumerate them. Every number that
// comes from an enumeration of the header is translated by name.
//
// Words: objects are numbered from 1 in discovery order, 0 is null. Strings are
// offsets + 1 into a pool, 0 is null. A slice is: kind, length, items.
//   root:     values slice, functions slice
//   type:     1 tag [base len | base | slice ret]
//   function: 2 type name params bbs
//   block:    3 name params used_by insts
//   value:    4 type name used_by tag payload
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "koopa.h"

typedef uint64_t W;
enum { OT = 1, OF, OB, OV };

int kc_ec(koopa_error_code_t e) {
  switch (e) {
    case KOOPA_EC_SUCCESS: return 0;
    case KOOPA_EC_INVALID_UTF8_STRING: return 1;
    case KOOPA_EC_INVALID_FILE: return 2;
    case KOOPA_EC_INVALID_KOOPA_PROGRAM: return 3;
    case KOOPA_EC_IO_ERROR: return 4;
    case KOOPA_EC_NULL_BYTE_ERROR: return 5;
    case KOOPA_EC_INSUFFICIENT_BUFFER_LENGTH: return 6;
    case KOOPA_EC_RAW_SLICE_ITEM_KIND_MISMATCH: return 7;
    case KOOPA_EC_NULL_POINTER_ERROR: return 8;
    case KOOPA_EC_TYPE_MISMATCH: return 9;
    case KOOPA_EC_FUNC_PARAM_NUM_MISMATCH: return 10;
  }
  return 255;
}

#define KINDS(X) \
  X(0, KOOPA_RSIK_UNKNOWN) X(1, KOOPA_RSIK_TYPE) X(2, KOOPA_RSIK_FUNCTION) \
  X(3, KOOPA_RSIK_BASIC_BLOCK) X(4, KOOPA_RSIK_VALUE)
#define TTAGS(X) \
  X(0, KOOPA_RTT_INT32) X(1, KOOPA_RTT_UNIT) X(2, KOOPA_RTT_ARRAY) \
  X(3, KOOPA_RTT_POINTER) X(4, KOOPA_RTT_FUNCTION)
#define VTAGS(X) \
  X(0, KOOPA_RVT_INTEGER) X(1, KOOPA_RVT_ZERO_INIT) X(2, KOOPA_RVT_UNDEF) \
  X(3, KOOPA_RVT_AGGREGATE) X(4, KOOPA_RVT_FUNC_ARG_REF) \
  X(5, KOOPA_RVT_BLOCK_ARG_REF) X(6, KOOPA_RVT_ALLOC) \
  X(7, KOOPA_RVT_GLOBAL_ALLOC) X(8, KOOPA_RVT_LOAD) X(9, KOOPA_RVT_STORE) \
  X(10, KOOPA_RVT_GET_PTR) X(11, KOOPA_RVT_GET_ELEM_PTR) \
  X(12, KOOPA_RVT_BINARY) X(13, KOOPA_RVT_BRANCH) X(14, KOOPA_RVT_JUMP) \
  X(15, KOOPA_RVT_CALL) X(16, KOOPA_RVT_RETURN)
#define OPS(X) \
  X(0, KOOPA_RBO_NOT_EQ) X(1, KOOPA_RBO_EQ) X(2, KOOPA_RBO_GT) \
  X(3, KOOPA_RBO_LT) X(4, KOOPA_RBO_GE) X(5, KOOPA_RBO_LE) \
  X(6, KOOPA_RBO_ADD) X(7, KOOPA_RBO_SUB) X(8, KOOPA_RBO_MUL) \
  X(9, KOOPA_RBO_DIV) X(10, KOOPA_RBO_MOD) X(11, KOOPA_RBO_AND) \
  X(12, KOOPA_RBO_OR) X(13, KOOPA_RBO_XOR) X(14, KOOPA_RBO_SHL) \
  X(15, KOOPA_RBO_SHR) X(16, KOOPA_RBO_SAR)

#define TO(n, e) case e: return n;
#define FROM(n, e) case n: return e;
static W kind_of(koopa_raw_slice_item_kind_t k) { switch (k) { KINDS(TO) } return 255; }
static W ttag_of(koopa_raw_type_tag_t k) { switch (k) { TTAGS(TO) } return 255; }
static W vtag_of(koopa_raw_value_tag_t k) { switch (k) { VTAGS(TO) } return 255; }
static W op_of(koopa_raw_binary_op_t k) { switch (k) { OPS(TO) } return 255; }
static koopa_raw_slice_item_kind_t kind_for(W w) { switch (w) { KINDS(FROM) } abort(); }
static koopa_raw_type_tag_t ttag_for(W w) { switch (w) { TTAGS(FROM) } abort(); }
static koopa_raw_value_tag_t vtag_for(W w) { switch (w) { VTAGS(FROM) } abort(); }
static koopa_raw_binary_op_t op_for(W w) { switch (w) { OPS(FROM) } abort(); }

// ---- walking ----

typedef struct { W *w; size_t n, cap; } Vec;
static void push(Vec *v, W x) {
  if (v->n == v->cap) {
    v->cap = v->cap ? v->cap * 2 : 256;
    v->w = realloc(v->w, v->cap * sizeof(W));
    if (!v->w) abort();
  }
  v->w[v->n++] = x;
}

typedef struct {
  Vec out, objs;      // objs: pointer, kind
  char *strs; size_t sn, scap;
  W *tab; size_t tcap;  // open addressing: object number
  int bad;
} Walk;

#define MAX_OBJS (1u << 22)

static size_t slot(Walk *k, const void *p, W kind) {
  W h = ((W)p ^ (kind << 60)) * 0x9e3779b97f4a7c15ull;
  size_t i = h >> 20 & (k->tcap - 1);
  while (k->tab[i]) {
    W o = k->tab[i] - 1;
    if (k->objs.w[2 * o] == (W)p && k->objs.w[2 * o + 1] == kind) break;
    i = (i + 1) & (k->tcap - 1);
  }
  return i;
}

static W obj(Walk *k, const void *p, W kind) {
  if (!p) return 0;
  if (k->objs.n * 2 >= k->tcap) {
    free(k->tab);
    k->tcap = k->tcap ? k->tcap * 4 : 1024;
    k->tab = calloc(k->tcap, sizeof(W));
    if (!k->tab) abort();
    for (W o = 0; o < k->objs.n / 2; ++o)
      k->tab[slot(k, (void *)k->objs.w[2 * o], k->objs.w[2 * o + 1])] = o + 1;
  }
  size_t i = slot(k, p, kind);
  if (!k->tab[i]) {
    push(&k->objs, (W)p);
    push(&k->objs, kind);
    k->tab[i] = k->objs.n / 2;
  }
  return k->tab[i];
}

static W str(Walk *k, const char *s) {
  if (!s) return 0;
  size_t l = strlen(s) + 1;
  while (k->sn + l > k->scap) {
    k->scap = k->scap ? k->scap * 2 : 1024;
    k->strs = realloc(k->strs, k->scap);
    if (!k->strs) abort();
  }
  memcpy(k->strs + k->sn, s, l);
  W r = k->sn + 1;
  k->sn += l;
  return r;
}

static void slice(Walk *k, const koopa_raw_slice_t *s, W kind) {
  push(&k->out, kind_of(s->kind));
  push(&k->out, s->len);
  if (s->len > MAX_OBJS) { k->bad = 1; return; }
  for (uint32_t i = 0; i < s->len; ++i) push(&k->out, obj(k, s->buffer[i], kind));
}

static void walk_type(Walk *k, koopa_raw_type_t t) {
  push(&k->out, ttag_of(t->tag));
  switch (t->tag) {
    case KOOPA_RTT_ARRAY:
      push(&k->out, obj(k, t->data.array.base, OT));
      push(&k->out, t->data.array.len);
      break;
    case KOOPA_RTT_POINTER:
      push(&k->out, obj(k, t->data.pointer.base, OT));
      break;
    case KOOPA_RTT_FUNCTION:
      slice(k, &t->data.function.params, OT);
      push(&k->out, obj(k, t->data.function.ret, OT));
      break;
    default:
      break;
  }
}

static void walk_value(Walk *k, koopa_raw_value_t v) {
  push(&k->out, obj(k, v->ty, OT));
  push(&k->out, str(k, v->name));
  slice(k, &v->used_by, OV);
  push(&k->out, vtag_of(v->kind.tag));
#define V(x) push(&k->out, obj(k, x, OV))
#define B(x) push(&k->out, obj(k, x, OB))
  switch (v->kind.tag) {
    case KOOPA_RVT_INTEGER: push(&k->out, (W)(int64_t)v->kind.data.integer.value); break;
    case KOOPA_RVT_AGGREGATE: slice(k, &v->kind.data.aggregate.elems, OV); break;
    case KOOPA_RVT_FUNC_ARG_REF: push(&k->out, v->kind.data.func_arg_ref.index); break;
    case KOOPA_RVT_BLOCK_ARG_REF: push(&k->out, v->kind.data.block_arg_ref.index); break;
    case KOOPA_RVT_GLOBAL_ALLOC: V(v->kind.data.global_alloc.init); break;
    case KOOPA_RVT_LOAD: V(v->kind.data.load.src); break;
    case KOOPA_RVT_STORE: V(v->kind.data.store.value); V(v->kind.data.store.dest); break;
    case KOOPA_RVT_GET_PTR: V(v->kind.data.get_ptr.src); V(v->kind.data.get_ptr.index); break;
    case KOOPA_RVT_GET_ELEM_PTR: V(v->kind.data.get_elem_ptr.src); V(v->kind.data.get_elem_ptr.index); break;
    case KOOPA_RVT_BINARY:
      push(&k->out, op_of(v->kind.data.binary.op));
      V(v->kind.data.binary.lhs);
      V(v->kind.data.binary.rhs);
      break;
    case KOOPA_RVT_BRANCH:
      V(v->kind.data.branch.cond);
      B(v->kind.data.branch.true_bb);
      B(v->kind.data.branch.false_bb);
      slice(k, &v->kind.data.branch.true_args, OV);
      slice(k, &v->kind.data.branch.false_args, OV);
      break;
    case KOOPA_RVT_JUMP:
      B(v->kind.data.jump.target);
      slice(k, &v->kind.data.jump.args, OV);
      break;
    case KOOPA_RVT_CALL:
      push(&k->out, obj(k, v->kind.data.call.callee, OF));
      slice(k, &v->kind.data.call.args, OV);
      break;
    case KOOPA_RVT_RETURN: V(v->kind.data.ret.value); break;
    default: break;
  }
}

Walk *kc_walk(const koopa_raw_program_t *raw) {
  Walk *k = calloc(1, sizeof *k);
  slice(k, &raw->values, OV);
  slice(k, &raw->funcs, OF);
  for (size_t i = 0; i < k->objs.n && !k->bad; i += 2) {
    if (i / 2 > MAX_OBJS) k->bad = 1;
    const void *p = (const void *)k->objs.w[i];
    push(&k->out, k->objs.w[i + 1]);
    switch (k->objs.w[i + 1]) {
      case OT: walk_type(k, p); break;
      case OF: {
        koopa_raw_function_t f = p;
        push(&k->out, obj(k, f->ty, OT));
        push(&k->out, str(k, f->name));
        slice(k, &f->params, OV);
        slice(k, &f->bbs, OB);
        break;
      }
      case OB: {
        koopa_raw_basic_block_t b = p;
        push(&k->out, str(k, b->name));
        slice(k, &b->params, OV);
        slice(k, &b->used_by, OV);
        slice(k, &b->insts, OV);
        break;
      }
      case OV: walk_value(k, p); break;
    }
  }
  return k;
}
int kc_walk_bad(Walk *k) { return k->bad; }
const W *kc_walk_words(Walk *k, size_t *n) { *n = k->out.n; return k->out.w; }
const char *kc_walk_strs(Walk *k, size_t *n) { *n = k->sn; return k->strs; }
void kc_walk_free(Walk *k) {
  free(k->out.w); free(k->objs.w); free(k->strs); free(k->tab); free(k);
}

// ---- assembling ----

typedef struct Chunk { struct Chunk *next; } Chunk;
typedef struct {
  koopa_raw_program_t raw;
  Chunk *chunks;
  void **obj;
  const W *in;
  const char *strs;
} Asm;

static void *mem(Asm *a, size_t n) {
  // pointers handed to the library are at least as aligned as its structures
  Chunk *c = malloc(16 + n);
  if (!c) abort();
  memset(c, 0x5a, 16 + n);
  c->next = a->chunks;
  a->chunks = c;
  return (char *)c + 16;
}

static void *ref(Asm *a) { W w = *a->in++; return w ? a->obj[w - 1] : 0; }
static const char *name(Asm *a) { W w = *a->in++; return w ? a->strs + w - 1 : 0; }
static koopa_raw_slice_t mkslice(Asm *a) {
  koopa_raw_slice_t s;
  s.kind = kind_for(*a->in++);
  s.len = (uint32_t)*a->in++;
  s.buffer = s.len ? mem(a, s.len * sizeof(void *)) : 0;
  for (uint32_t i = 0; i < s.len; ++i) s.buffer[i] = ref(a);
  return s;
}

// kinds: one word per object; words: root slices, then the records in order
Asm *kc_assemble(const W *kinds, size_t nobj, const W *words, const char *strs) {
  Asm *a = calloc(1, sizeof *a);
  a->in = words;
  a->strs = strs;
  a->obj = calloc(nobj + 1, sizeof(void *));
  for (size_t i = 0; i < nobj; ++i) {
    static const size_t sz[] = {0, sizeof(koopa_raw_type_kind_t), sizeof(koopa_raw_function_data_t),
                                sizeof(koopa_raw_basic_block_data_t), sizeof(koopa_raw_value_data_t)};
    a->obj[i] = mem(a, sz[kinds[i]]);
  }
  a->raw.values = mkslice(a);
  a->raw.funcs = mkslice(a);
  for (size_t i = 0; i < nobj; ++i) {
    ++a->in;
    switch (kinds[i]) {
      case OT: {
        koopa_raw_type_kind_t *t = a->obj[i];
        t->tag = ttag_for(*a->in++);
        switch (t->tag) {
          case KOOPA_RTT_ARRAY: t->data.array.base = ref(a); t->data.array.len = *a->in++; break;
          case KOOPA_RTT_POINTER: t->data.pointer.base = ref(a); break;
          case KOOPA_RTT_FUNCTION: t->data.function.params = mkslice(a); t->data.function.ret = ref(a); break;
          default: break;
        }
        break;
      }
      case OF: {
        koopa_raw_function_data_t *f = a->obj[i];
        f->ty = ref(a);
        f->name = name(a);
        f->params = mkslice(a);
        f->bbs = mkslice(a);
        break;
      }
      case OB: {
        koopa_raw_basic_block_data_t *b = a->obj[i];
        b->name = name(a);
        b->params = mkslice(a);
        b->used_by = mkslice(a);
        b->insts = mkslice(a);
        break;
      }
      case OV: {
        koopa_raw_value_data_t *v = a->obj[i];
        v->ty = ref(a);
        v->name = name(a);
        v->used_by = mkslice(a);
        v->kind.tag = vtag_for(*a->in++);
        switch (v->kind.tag) {
          case KOOPA_RVT_INTEGER: v->kind.data.integer.value = (int32_t)*a->in++; break;
          case KOOPA_RVT_AGGREGATE: v->kind.data.aggregate.elems = mkslice(a); break;
          case KOOPA_RVT_FUNC_ARG_REF: v->kind.data.func_arg_ref.index = *a->in++; break;
          case KOOPA_RVT_BLOCK_ARG_REF: v->kind.data.block_arg_ref.index = *a->in++; break;
          case KOOPA_RVT_GLOBAL_ALLOC: v->kind.data.global_alloc.init = ref(a); break;
          case KOOPA_RVT_LOAD: v->kind.data.load.src = ref(a); break;
          case KOOPA_RVT_STORE: v->kind.data.store.value = ref(a); v->kind.data.store.dest = ref(a); break;
          case KOOPA_RVT_GET_PTR: v->kind.data.get_ptr.src = ref(a); v->kind.data.get_ptr.index = ref(a); break;
          case KOOPA_RVT_GET_ELEM_PTR: v->kind.data.get_elem_ptr.src = ref(a); v->kind.data.get_elem_ptr.index = ref(a); break;
          case KOOPA_RVT_BINARY:
            v->kind.data.binary.op = op_for(*a->in++);
            v->kind.data.binary.lhs = ref(a);
            v->kind.data.binary.rhs = ref(a);
            break;
          case KOOPA_RVT_BRANCH:
            v->kind.data.branch.cond = ref(a);
            v->kind.data.branch.true_bb = ref(a);
            v->kind.data.branch.false_bb = ref(a);
            v->kind.data.branch.true_args = mkslice(a);
            v->kind.data.branch.false_args = mkslice(a);
            break;
          case KOOPA_RVT_JUMP: v->kind.data.jump.target = ref(a); v->kind.data.jump.args = mkslice(a); break;
          case KOOPA_RVT_CALL: v->kind.data.call.callee = ref(a); v->kind.data.call.args = mkslice(a); break;
          case KOOPA_RVT_RETURN: v->kind.data.ret.value = ref(a); break;
          default: break;
        }
        break;
      }
    }
  }
  return a;
}
const koopa_raw_program_t *kc_assembled(Asm *a) { return &a->raw; }
void kc_assembly_free(Asm *a) {
  for (Chunk *c = a->chunks; c;) {
    Chunk *n = c->next;
    // a use after this shows
    free(c);
    c = n;
  }
  free(a->obj);
  free(a);
}

// ---- entry points ----

int kc_parse_file(const char *p, koopa_program_t *o) { return kc_ec(koopa_parse_from_file(p, o)); }
int kc_parse_string(const char *p, koopa_program_t *o) { return kc_ec(koopa_parse_from_string(p, o)); }
int kc_parse_stdin(koopa_program_t *o) { return kc_ec(koopa_parse_from_stdin(o)); }
int kc_parse_raw(int fd, koopa_program_t *o) { return kc_ec(koopa_parse_from_raw(fd, o)); }
void kc_delete_program(koopa_program_t p) { koopa_delete_program(p); }
// f: 0 text, 1 LLVM
int kc_dump_file(int f, koopa_program_t p, const char *path) {
  return kc_ec(f ? koopa_dump_llvm_to_file(p, path) : koopa_dump_to_file(p, path));
}
int kc_dump_string(int f, koopa_program_t p, char *b, size_t *n) {
  return kc_ec(f ? koopa_dump_llvm_to_string(p, b, n) : koopa_dump_to_string(p, b, n));
}
int kc_dump_stdout(int f, koopa_program_t p) {
  return kc_ec(f ? koopa_dump_llvm_to_stdout(p) : koopa_dump_to_stdout(p));
}
int kc_dump_raw(int f, koopa_program_t p, int fd) {
  return kc_ec(f ? koopa_dump_llvm_to_raw(p, fd) : koopa_dump_to_raw(p, fd));
}
koopa_raw_program_builder_t kc_new_builder() { return koopa_new_raw_program_builder(); }
void kc_delete_builder(koopa_raw_program_builder_t b) { koopa_delete_raw_program_builder(b); }
koopa_raw_program_t *kc_build(koopa_raw_program_builder_t b, koopa_program_t p) {
  koopa_raw_program_t *r = malloc(sizeof *r);
  *r = koopa_build_raw_program(b, p);
  return r;
}
void kc_raw_free(koopa_raw_program_t *r) { free(r); }
int kc_generate(const koopa_raw_program_t *r, koopa_program_t *o) { return kc_ec(koopa_generate_raw_to_koopa(r, o)); }
