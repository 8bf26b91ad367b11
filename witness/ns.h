// Vocabulary shared by the witness units.  None of these functions has a
// definition: the analyser gives them their meaning (see nsa/absint.py).
#ifndef NS_WITNESS_H
#define NS_WITNESS_H
extern "C" {
unsigned long ns_u64();            // any value
unsigned int ns_u32();
unsigned char ns_u8();
long ns_i64();
int ns_i32();
unsigned long ns_size(unsigned long max); // any count <= max
unsigned long ns_hsize(unsigned long max); // same, inside a client history
void ns_havoc(void *p, unsigned long n); // contents become arbitrary
int ns_shard();                        // the case being analysed (opt shards=a..b)
bool ns_bool();
float ns_float();
double ns_double();
void ns_assume(bool);
void ns_check(bool, const char *id);   // obligation: true on every path
void ns_fail(const char *id);
void ns_reach(const char *id);         // must be reachable (non-vacuity)
void ns_coarsen();                     // marks a "most general client" loop
void *ns_buf(unsigned long n);         // caller-owned memory, any content
const char *ns_cstr(unsigned long n);  // NUL-terminated, n arbitrary non-zero chars
void ns_heap_clean();
bool ns_live(const void *p, unsigned long n);
bool ns_init(const void *p, unsigned long n);
void ns_poison(void *p, unsigned long n);
void ns_throw_maybe();
bool ns_same_block(const void *, const void *);
void ns_dump(const char *);
}
typedef unsigned long u64;
static inline unsigned ns_bits(float f) { union { float f; unsigned u; } b; b.f = f; return b.u; }
static inline u64 ns_bits(double f) { union { double f; u64 u; } b; b.f = f; return b.u; }
static inline float ns_float_of(unsigned u) { union { float f; unsigned u; } b; b.u = u; return b.f; }
static inline double ns_double_of(u64 u) { union { double f; u64 u; } b; b.u = u; return b.f; }
#endif
