// C16 the containers of the library against executable models, on simulated heaps, several containers sharing one heap
#include "sem.h"
#include <set>
#include <deque>
#include <algorithm>
#include <memory>
extern "C" {
#include <libfirm/adt/obst.h>
#include "set.h"
#include "pset.h"
#include "pmap.h"
#include "pqueue.h"
#include "array.h"
#include "bipartite.h"
#include "unionfind.h"
#include "list.h"
#include "xmalloc.h"
#include "cpset.h"
#include "pset_new.h"
#include "pdeq.h"
#include "bitset.h"
#include "raw_bitset.h"
#include "ident_t.h"
}
#undef set
#define BAD(cls, ...) violation(cls, __VA_ARGS__)

struct Con { virtual ~Con() {} virtual void step() = 0; virtual void full() = 0; virtual const char *name() = 0; };
typedef unsigned U;
static U hfun(int kind, U id) { switch (kind) { case 0: return (U)mix64(id); case 1: return 42; case 2: return id; case 3: return id << 24; case 4: return id & 3; case 5: return id * 256; case 6: return ~id; default: return (U)mix64(id) & 0xffff00ff; } }
struct Obj { U id; U pad; };
static U g_k; static U obj_hash(const void *o) { return hfun(g_k, ((const Obj *)o)->id); }
static int obj_eq(const void *a, const void *b) { return ((const Obj *)a)->id == ((const Obj *)b)->id; }
static int obj_ne(const void *a, const void *b) { return !obj_eq(a, b); }
static Obj *new_obj(U id) { Obj *o = (Obj *)xmalloc(sizeof(Obj)); o->id = id; o->pad = ~id; return o; }
static int set_ne(const void *a, const void *b, size_t n) { return memcmp(a, b, n) != 0; }

struct SetC : Con { // variable sized elements, copied
	struct ::set *s; std::map<std::vector<int>, void *> m; int k; U dom;
	SetC() : k((int)draw(8)), dom(4 + (U)draw(chance(1, 3) ? 6000 : 60)) { s = (new_set)(set_ne, draw(3) ? draw(600) : draw(70000)); }
	const char *name() override { return "set"; }
	std::vector<int> key(U id) { std::vector<int> v(1 + id % 4); for (size_t i = 0; i < v.size(); ++i) v[i] = (int)(id >> (i & 1)) + (int)i; return v; }
	void one(U id, int op)
	{
		auto v = key(id); U h = hfun(k, (U)fnv(v.data(), v.size() * 4)); size_t n = v.size() * sizeof(int); auto it = m.find(v); void *r;
		if (op == 0) { r = (set_find)(s, v.data(), n, h); if (r != (it == m.end() ? nullptr : it->second)) BAD("set-find", "set_find returns %s for an element that is %s", r ? "an element" : "nothing", it == m.end() ? "not in the set" : "in the set"); return; }
		if (op == 1) r = (set_insert)(s, v.data(), n, h); else { set_entry *e = (op == 2 ? (set_hinsert)(s, v.data(), n, h) : set_hinsert0(s, v.data(), n, h)); if (e->hash != h || e->size != n) BAD("set-entry", "the entry of an element of size %zu hash %x says %zu, %x", n, h, e->size, e->hash); r = e->dptr; if (op == 3 && it == m.end() && ((char *)r)[n]) BAD("set-hinsert0", "set_hinsert0 does not terminate the element with zero"); }
		if (!r || memcmp(r, v.data(), n)) BAD("set-insert-value", "inserting returns an element with other contents");
		if (it != m.end() && it->second != r) BAD("set-duplicate", "inserting an equal element again returns another element"); if (it == m.end()) m[v] = r;
	}
	void step() override
	{
		int op = (int)draw(10); U id = (U)draw(dom); ev("set op %d %u", op, id);
		if (op == 9) { if (dom < 100) { full(); return; } U n = 1 + (U)draw(2500); for (U i = 0; i < n; ++i) one((id + i) % dom, 1 + i % 3); probe("set_bulk_inserts"); return; }
		if (op == 8) { auto *p = (int *)(set_first)(s); if (!p != m.empty()) BAD("set-first", "set_first disagrees with the set's emptiness"); if (p) { U n = (U)draw(4); for (U i = 0; i < n && p; ++i) { one(id, 0); p = (int *)(set_next)(s); } (set_break)(s); } return; }
		one(id, op < 4 ? 0 : 1 + op % 3);
	}
	void full() override
	{
		if (set_count(s) != m.size()) BAD("set-count", "set_count says %zu of %zu elements", set_count(s), m.size());
		std::map<void *, int> left; for (auto &e : m) { if (memcmp(e.second, e.first.data(), e.first.size() * 4)) BAD("set-content", "an element of the set changed its contents"); ++left[e.second]; }
		for (void *p = (set_first)(s); p; p = (set_next)(s)) if (left.erase(p) == 0) BAD("set-iterate", "iterating a set yields an element twice or one that was never inserted");
		if (!left.empty()) BAD("set-iterate", "iterating a set misses %zu of %zu elements", left.size(), m.size());
		for (auto &e : m) if ((set_find)(s, e.first.data(), e.first.size() * 4, hfun(k, (U)fnv(e.first.data(), e.first.size() * 4))) != e.second) BAD("set-find", "an element of the set is not found");
	}
	~SetC() { del_set(s); }
};
struct PSetC : Con {
	pset *s; std::map<U, Obj *> m; int k; U dom;
	PSetC() : k((int)draw(8)), dom(4 + (U)draw(chance(1, 3) ? 6000 : 60)) { s = (new_pset)(obj_ne, draw(3) ? draw(600) : draw(70000)); }
	const char *name() override { return "pset"; }
	void one(U id, int op)
	{
		Obj *o = new_obj(id); U h = hfun(k, id); auto it = m.find(id); Obj *want = it == m.end() ? nullptr : it->second, *r;
		switch (op) {
		case 0: r = (Obj *)(pset_find)(s, o, h); if (r != want) BAD("pset-find", "pset_find returns %s for an element that is %s", r ? "an element" : "nothing", want ? "in the set" : "not in the set"); return;
		case 1: r = (Obj *)(pset_insert)(s, o, h); if (r != (want ? want : o)) BAD("pset-insert", "pset_insert returns the wrong element"); m[id] = r; return;
		case 2: { pset_entry *e = (pset_hinsert)(s, o, h); if (e->dptr != (want ? want : o) || e->hash != h) BAD("pset-insert", "pset_hinsert returns the wrong entry"); m[id] = (Obj *)e->dptr; return; }
		case 3: if (!want) return; r = (Obj *)pset_remove(s, o, h); if (r != want) BAD("pset-remove", "pset_remove returns another element than the one in the set"); m.erase(id); return;
		}
	}
	void step() override
	{
		int op = (int)draw(12); U id = (U)draw(dom); ev("pset op %d %u", op, id);
		if (op == 11) { if (dom < 100) { full(); return; } U n = 1 + (U)draw(2500), rm = (U)draw(3); for (U i = 0; i < n; ++i) one((id + i) % dom, rm == 2 || (rm && i % 3 == 0) ? 3 : 1); probe("pset_bulk_changes"); return; }
		one(id, op < 3 ? 0 : op < 6 ? 3 : 1 + op % 2);
	}
	void full() override
	{
		if (pset_count(s) != m.size()) BAD("pset-count", "pset_count says %zu of %zu elements", pset_count(s), m.size());
		std::map<U, Obj *> left = m; for (void *p = (pset_first)(s); p; p = (pset_next)(s)) { auto it = left.find(((Obj *)p)->id); if (it == left.end() || it->second != p) BAD("pset-iterate", "iterating a pset yields an element twice or one that is not in it"); left.erase(it); }
		if (!left.empty()) BAD("pset-iterate", "iterating a pset misses %zu of %zu elements", left.size(), m.size());
		for (auto &e : m) if ((pset_find)(s, e.second, hfun(k, e.first)) != e.second) BAD("pset-find", "an element of the pset is not found");
	}
	~PSetC() { del_pset(s); }
};
struct PMapC : Con {
	pmap *s; std::map<const void *, void *> m; std::vector<Obj *> pool;
	PMapC() { s = chance(1, 2) ? pmap_create() : pmap_create_ex(draw(3000)); U n = 4 + (U)draw(chance(1, 4) ? 3000 : 60); for (U i = 0; i < n; ++i) pool.push_back(new_obj(i)); }
	const char *name() override { return "pmap"; }
	void step() override
	{
		int op = (int)draw(8); const void *key = pool[draw(pool.size())]; auto it = m.find(key); ev("pmap op %d %u", op, ((Obj *)key)->id);
		switch (op) {
		case 0: if ((pmap_contains(s, key) != 0) != (it != m.end())) BAD("pmap-contains", "pmap_contains is wrong"); break;
		case 1: if ((pmap_get)(s, key) != (it == m.end() ? nullptr : it->second)) BAD("pmap-get", "pmap_get returns another value than the one stored last"); break;
		case 2: { pmap_entry *e = pmap_find(s, key); if (!e != (it == m.end()) || (e && (e->key != key || e->value != it->second))) BAD("pmap-find", "pmap_find returns the wrong entry"); break; }
		case 3: { U n = (U)draw(pool.size()); for (U i = 0; i < n; ++i) { void *v = new_obj(i); pmap_insert(s, pool[i], v); m[pool[i]] = v; } break; }
		case 4: { U n = (U)draw(3); pmap_entry *e = pmap_first(s); for (U i = 0; e && i < n; ++i) e = pmap_next(s); pmap_break(s); break; }
		default: { void *v = draw(6) ? new_obj(7) : nullptr; pmap_insert(s, key, v); m[key] = v; }
		}
	}
	void full() override
	{
		if (pmap_count(s) != m.size()) BAD("pmap-count", "pmap_count says %zu of %zu entries", pmap_count(s), m.size());
		auto left = m; for (pmap_entry *e = pmap_first(s); e; e = pmap_next(s)) { auto it = left.find(e->key); if (it == left.end() || it->second != e->value) BAD("pmap-iterate", "iterating a map yields an entry twice or a wrong one"); left.erase(it); }
		if (!left.empty()) BAD("pmap-iterate", "iterating a map misses %zu of %zu entries", left.size(), m.size());
		for (auto &e : m) if ((pmap_get)(s, e.first) != e.second) BAD("pmap-get", "pmap_get returns another value than the one stored last");
	}
	~PMapC() { pmap_destroy(s); }
};
struct PSetNewC : Con {
	pset_new_t s; std::set<void *> m; std::vector<Obj *> pool;
	PSetNewC() { if (chance(1, 2)) pset_new_init(&s); else pset_new_init_size(&s, draw(200)); U n = 4 + (U)draw(chance(1, 3) ? 2000 : 60); for (U i = 0; i < n; ++i) pool.push_back(new_obj(i)); }
	const char *name() override { return "pset_new"; }
	void ins(void *p) { bool r = pset_new_insert(&s, p); if (r != m.insert(p).second) BAD("pset_new-insert", "pset_new_insert reports %s", r ? "a new element that was already there" : "a new element as already there"); }
	void step() override
	{
		int op = (int)draw(9); void *p = pool[draw(pool.size())]; ev("pset_new op %d %u", op, ((Obj *)p)->id);
		if (op < 3) ins(p); else if (op < 5) { pset_new_remove(&s, p); m.erase(p); } else if (op == 5) { if (pset_new_contains(&s, p) != (m.count(p) > 0)) BAD("pset_new-contains", "pset_new_contains is wrong"); }
		else if (op == 6) { U a = (U)draw(pool.size()), n = (U)draw(pool.size() - a + 1); for (U i = a; i < a + n; ++i) ins(pool[i]); }
		else if (op == 7) { U a = (U)draw(pool.size()), n = (U)draw(pool.size() - a + 1); for (U i = a; i < a + n; ++i) { pset_new_remove(&s, pool[i]); m.erase(pool[i]); } }
		else { pset_new_iterator_t it; pset_new_iterator_init(&it, &s); void *q; U every = 1 + (U)draw(4), i = 0; auto left = m; while ((q = pset_new_iterator_next(&it))) { if (!left.erase(q)) BAD("pset_new-iterate", "iterating yields an element twice or one that is not in the set"); if (i++ % every == 0) { pset_new_remove_iterator(&s, &it); m.erase(q); } } if (!left.empty()) BAD("pset_new-iterate", "iterating with removal misses %zu elements", left.size()); probe("removals_while_iterating"); }
		if (pset_new_size(&s) != m.size()) BAD("pset_new-size", "pset_new_size says %zu of %zu elements", pset_new_size(&s), m.size());
	}
	void full() override
	{
		auto left = m; void *x; pset_new_iterator_t it; foreach_pset_new(&s, void*, x, it) { if (!left.erase(x)) BAD("pset_new-iterate", "iterating yields an element twice or one that is not in the set"); }
		if (!left.empty()) BAD("pset_new-iterate", "iterating misses %zu of %zu elements", left.size(), m.size());
		for (void *p : pool) if (pset_new_contains(&s, p) != (m.count(p) > 0)) BAD("pset_new-contains", "pset_new_contains is wrong");
	}
	~PSetNewC() { pset_new_destroy(&s); }
};
struct CPSetC : Con {
	cpset_t s; std::map<U, Obj *> m; U k, dom;
	CPSetC() : k((U)draw(8)), dom(4 + (U)draw(chance(1, 3) && k != 1 && k != 4 ? 2000 : 60)) { if (chance(1, 2)) cpset_init(&s, obj_hash, obj_eq); else cpset_init_size(&s, obj_hash, obj_eq, draw(200)); }
	const char *name() override { return "cpset"; }
	void ins(U id) { Obj *o = new_obj(id); auto it = m.find(id); void *r = cpset_insert(&s, o); if (r != (it == m.end() ? o : it->second)) BAD("cpset-insert", "cpset_insert returns the wrong element"); m[id] = (Obj *)r; }
	void step() override
	{
		g_k = k; int op = (int)draw(9); U id = (U)draw(dom); Obj o = { id, 0 }; auto it = m.find(id); ev("cpset op %d %u", op, id);
		if (op < 3) ins(id); else if (op < 5) { cpset_remove(&s, &o); m.erase(id); } else if (op == 5) { if (cpset_find(&s, &o) != (it == m.end() ? nullptr : it->second)) BAD("cpset-find", "cpset_find is wrong"); }
		else if (op == 6) { U n = (U)draw(dom); for (U i = 0; i < n; ++i) ins((id + i) % dom); }
		else if (op == 7) { U n = (U)draw(dom); for (U i = 0; i < n; ++i) { o.id = (id + i) % dom; cpset_remove(&s, &o); m.erase(o.id); } }
		else { cpset_iterator_t c; cpset_iterator_init(&c, &s); void *q; U every = 1 + (U)draw(4), i = 0; auto left = m; while ((q = cpset_iterator_next(&c))) { if (!left.erase(((Obj *)q)->id)) BAD("cpset-iterate", "iterating yields an element twice or one that is not in the set"); if (i++ % every == 0) { cpset_remove_iterator(&s, &c); m.erase(((Obj *)q)->id); } } if (!left.empty()) BAD("cpset-iterate", "iterating with removal misses %zu elements", left.size()); }
		if (cpset_size(&s) != m.size()) BAD("cpset-size", "cpset_size says %zu of %zu elements", cpset_size(&s), m.size());
	}
	void full() override
	{
		g_k = k; auto left = m; cpset_iterator_t c; cpset_iterator_init(&c, &s); while (void *q = cpset_iterator_next(&c)) if (!left.erase(((Obj *)q)->id)) BAD("cpset-iterate", "iterating yields an element twice or one that is not in the set");
		if (!left.empty()) BAD("cpset-iterate", "iterating misses %zu of %zu elements", left.size(), m.size());
		for (U id = 0; id < dom; ++id) { Obj o = { id, 0 }; auto it = m.find(id); if (cpset_find(&s, &o) != (it == m.end() ? nullptr : it->second)) BAD("cpset-find", "cpset_find is wrong"); }
	}
	~CPSetC() { cpset_destroy(&s); }
};
struct PQueueC : Con {
	pqueue_t *q; std::multiset<std::pair<int, void *>> m; int range;
	PQueueC() : range(1 + (int)draw(chance(1, 2) ? 4 : 1000000)) { q = new_pqueue(); }
	const char *name() override { return "pqueue"; }
	void pop()
	{
		if (m.empty()) return; int best = m.rbegin()->first; void *d = pqueue_pop_front(q); auto it = m.find({ best, d });
		if (it == m.end()) BAD("pqueue-order", "the queue yields an element that has not the highest priority %d", best); m.erase(it);
	}
	void step() override
	{
		int op = (int)draw(7); ev("pqueue op %d", op);
		if (op < 4) { int n = op == 3 ? (int)draw(40) : 1; while (n-- > 0) { int p = (int)draw(range) - range / 2; if (draw(40) == 1) p = draw(2) ? INT32_MAX : INT32_MIN; void *d = new_obj(1); pqueue_put(q, d, p); m.insert({ p, d }); } }
		else if (op < 6) pop(); else { U n = (U)draw(40); while (n--) pop(); }
		if (pqueue_length(q) != m.size() || (pqueue_empty(q) != 0) != m.empty()) BAD("pqueue-length", "the queue says %zu of %zu elements", pqueue_length(q), m.size());
	}
	void full() override { while (!m.empty()) pop(); if (!pqueue_empty(q)) BAD("pqueue-length", "an emptied queue is not empty"); }
	~PQueueC() { del_pqueue(q); }
};
struct E24 { u64 a, b, c; };
static inline void mk(char &x, u64 v) { x = (char)v; } static inline void mk(U &x, u64 v) { x = (U)v; } static inline void mk(E24 &x, u64 v) { x = { v, ~v, v * 3 }; }
template <class T> struct ArrC : Con { // flexible arrays
	T *a; std::vector<T> m; u64 n = 0;
	ArrC() { size_t k = draw(20); a = NEW_ARR_F(T, k); for (size_t i = 0; i < k; ++i) { mk(a[i], ++n); m.push_back(a[i]); } }
	const char *name() override { return "array"; }
	void resized() { size_t k = ARR_LEN(a), old = m.size(); m.resize(k); for (size_t i = old; i < k; ++i) { mk(a[i], ++n); m[i] = a[i]; } }
	void step() override
	{
		int op = (int)draw(9); ev("array op %d", op);
		switch (op) {
		case 0: case 1: { T x; mk(x, ++n); ARR_APP1(T, a, x); m.push_back(x); break; }
		case 2: { size_t k = draw(80); while (k--) { T x; mk(x, ++n); ARR_APP1(T, a, x); m.push_back(x); } break; }
		case 3: { size_t k = draw(100); ARR_RESIZE(T, a, k); if (ARR_LEN(a) != k) BAD("array-length", "an array resized to %zu has length %zu", k, ARR_LEN(a)); resized(); break; }
		case 4: { size_t k = draw(100); ARR_SETLEN(T, a, k); if (ARR_LEN(a) != k) BAD("array-length", "an array set to %zu has length %zu", k, ARR_LEN(a)); resized(); break; }
		case 5: { size_t k = draw(30); ARR_EXTEND(T, a, k); if (ARR_LEN(a) != m.size() + k) BAD("array-length", "an array of %zu extended by %zu has length %zu", m.size(), k, ARR_LEN(a)); resized(); break; }
		case 6: { size_t k = draw(m.size() + 1); ARR_SHRINKLEN(a, k); m.resize(k); break; }
		case 7: { T *b = DUP_ARR_F(T, a); DEL_ARR_F(a); a = b; break; }
		case 8: { size_t k = draw(60); ARR_EXTO(T, a, k); resized(); break; }
		}
		full();
	}
	void full() override { if (ARR_LEN(a) != m.size()) BAD("array-length", "the array has length %zu instead of %zu", ARR_LEN(a), m.size()); if (!m.empty() && memcmp(a, m.data(), m.size() * sizeof(T))) BAD("array-content", "the array lost its contents"); }
	~ArrC() { DEL_ARR_F(a); }
};
struct DeqC : Con {
	deq_t q; std::deque<void *> m; size_t n = 0;
	DeqC() { deq_init(&q); }
	const char *name() override { return "deq"; }
	void one(int op)
	{
		if (op == 0) { m.push_front((void *)++n); deq_push_pointer_left(&q, (void *)n); } else if (op == 1) { m.push_back((void *)++n); deq_push_pointer_right(&q, (void *)n); }
		else if (!m.empty()) { void *w, *r; if (op == 2) { w = m.front(); m.pop_front(); r = (deq_pop_pointer_left)(&q); } else { w = m.back(); m.pop_back(); r = (deq_pop_pointer_right)(&q); } if (w != r) BAD("deq-order", "the queue yields element %zu instead of %zu", (size_t)r, (size_t)w); }
		if (deq_empty(&q) != m.empty()) BAD("deq-empty", "deq_empty is wrong with %zu elements", m.size());
	}
	void step() override { int op = (int)draw(4); U n2 = chance(1, 3) ? 1 + (U)draw(700) : 1; ev("deq op %d x%u", op, n2); while (n2--) one(op); }
	void full() override { size_t i = 0; deq_pointer_iter_t it; for (deq_pointer_iter_init(&it, &q); !deq_pointer_iter_at_end(&it); deq_pointer_iter_next(&it), ++i) if (i >= m.size() || *it.block_p != m[i]) BAD("deq-iterate", "iterating yields another element at %zu", i); if (i != m.size()) BAD("deq-iterate", "iterating yields %zu of %zu elements", i, m.size()); }
	~DeqC() { deq_free(&q); }
};
struct BitC : Con { // two sets of one size, in both representations
	size_t n; bitset_t *b[2]; std::vector<bool> m[2]; unsigned *r = nullptr;
	BitC() { static const size_t sz[] = { 1, 31, 32, 33, 63, 64, 65, 96, 7, 100 }; n = chance(1, 2) ? sz[draw(10)] : 1 + draw(300); for (int i = 0; i < 2; ++i) { b[i] = bitset_malloc(n); m[i].assign(n, false); } r = (unsigned *)xmalloc(BITSET_SIZE_BYTES(n) + 64); }
	const char *name() override { return "bitset"; }
	void cmp(int x) { for (size_t i = 0; i < n; ++i) if (bitset_is_set(b[x], i) != m[x][i]) BAD("bitset-content", "bit %zu of %zu is %d", i, n, !m[x][i]); for (size_t i = n; i < BITSET_SIZE_ELEMS(n) * 32; ++i) if (b[x]->data[i / 32] >> (i % 32) & 1) BAD("bitset-tail", "a bit beyond the %zu of the set is set", n); }
	void step() override
	{
		int x = (int)draw(2), y = 1 - x, op = (int)draw(22); size_t p = draw(n), e = draw(n + 1); auto &M = m[x], &N = m[y]; ev("bitset op %d %zu %zu", op, p, e);
		switch (op) {
		case 0: bitset_set(b[x], p); M[p] = true; break;
		case 1: bitset_clear(b[x], p); M[p] = false; break;
		case 2: bitset_flip(b[x], p); M[p] = !M[p]; break;
		case 3: bitset_flip_all(b[x]); M.flip(); break;
		case 4: bitset_copy(b[x], b[y]); M = N; break;
		case 5: if (chance(1, 3)) { bitset_set_all(b[x]); M.assign(n, true); } break;
		case 6: if (chance(1, 3)) { bitset_clear_all(b[x]); M.assign(n, false); } break;
		case 7: case 8: { bool v = op == 7; size_t lo = std::min(p, e), hi = std::max(p, e); if (lo == hi || hi % 32 == 0) break; bitset_mod_range(b[x], p, e, v); for (size_t i = lo; i < hi; ++i) M[i] = v; break; }
		case 9: bitset_and(b[x], b[y]); for (size_t i = 0; i < n; ++i) M[i] = M[i] && N[i]; break;
		case 10: bitset_or(b[x], b[y]); for (size_t i = 0; i < n; ++i) M[i] = M[i] || N[i]; break;
		case 11: bitset_andnot(b[x], b[y]); for (size_t i = 0; i < n; ++i) M[i] = M[i] && !N[i]; break;
		case 12: bitset_xor(b[x], b[y]); for (size_t i = 0; i < n; ++i) M[i] = M[i] != N[i]; break;
		case 13: { bitset_minus1(b[x]); size_t i = 0; while (i < n && !M[i]) M[i++] = true; if (i < n) M[i] = false; break; }
		case 14: { size_t c = 0; for (bool v : M) c += v; if (bitset_popcount(b[x]) != c) BAD("bitset-popcount", "popcount says %zu instead of %zu", bitset_popcount(b[x]), c); if (bitset_is_empty(b[x]) != (c == 0)) BAD("bitset-empty", "is_empty is wrong with %zu bits", c); break; }
		case 15: case 16: { bool v = op == 15; size_t i = e; while (i < n && M[i] != v) ++i; size_t w = i < n ? i : (size_t)-1, g = v ? bitset_next_set(b[x], e) : bitset_next_clear(b[x], e); if (g != w) BAD("bitset-next", "the next %s bit from %zu of %zu is %zd instead of %zd", v ? "set" : "clear", e, n, (ssize_t)g, (ssize_t)w); break; }
		case 17: case 18: { bool v = op == 17; size_t i = p; while (i > 0 && M[i - 1] != v) --i; size_t w = i ? i - 1 : (size_t)-1, g = v ? bitset_prev_set(b[x], p) : bitset_prev_clear(b[x], p); if (g != w) BAD("bitset-prev", "the previous %s bit before %zu is %zd instead of %zd", v ? "set" : "clear", p, (ssize_t)g, (ssize_t)w); break; }
		case 19: { bool sub = true, common = false; for (size_t i = 0; i < n; ++i) { sub &= !M[i] || N[i]; common |= M[i] && N[i]; } if (bitset_contains(b[x], b[y]) != sub) BAD("bitset-contains", "contains is wrong"); if (bitset_intersect(b[x], b[y]) != common) BAD("bitset-intersect", "intersect is wrong"); break; }
		case 20: { memset(r, 0x5a, BITSET_SIZE_BYTES(n)); rbitset_copy(r, b[x]->data, n); if (!rbitsets_equal(r, b[x]->data, n) || rbitsets_equal(b[0]->data, b[1]->data, n) != (m[0] == m[1])) BAD("bitset-equal", "comparing raw bitsets is wrong"); rbitset_copy_to_bitset(r, b[y]); N = M; break; }
		case 21: { std::vector<bool> s(n, false); bitset_foreach(b[x], i) s[i] = true; if (s != M) BAD("bitset-foreach", "iterating yields other elements"); std::vector<bool> c(n, true); bitset_foreach_clear(b[x], i) c[i] = false; if (c != M) BAD("bitset-foreach", "iterating over clear bits yields other elements"); std::vector<bool> rs(n, false), rc(n, true); rbitset_foreach(b[x]->data, n, i) rs[i] = true; rbitset_foreach_clear(b[x]->data, n, i) rc[i] = false; if (rs != M || rc != M) BAD("bitset-foreach", "iterating over the raw bitset yields other elements"); size_t i = e; while (i < n && !M[i]) ++i; if (i < n && rbitset_next(b[x]->data, e, true) != i) BAD("bitset-next", "rbitset_next from %zu is not %zu", e, i); std::vector<bool> rv(n, false); for (size_t i = n % 32 ? n : n - 1; (i = rbitset_prev(b[x]->data, i, true)) != (size_t)-1;) rv[i] = true; if (n % 32 == 0 && M[n - 1]) rv[n - 1] = true; if (rv != M) BAD("bitset-foreach", "iterating backwards yields other elements"); break; }
		}
		cmp(x);
	}
	void full() override { cmp(0); cmp(1); }
};
struct UFC : Con {
	std::vector<int> d, m; UFC() { size_t n = 1 + draw(200); d.assign(n, 99); uf_init(d.data(), n); m.resize(n); for (size_t i = 0; i < n; ++i) m[i] = (int)i; }
	const char *name() override { return "unionfind"; }
	void step() override
	{
		U n = 1 + (U)draw(8); ev("uf x%u", n); while (n--) { int a = (int)draw(d.size()), b = (int)draw(d.size()), ra = uf_find(d.data(), a), rb = uf_find(d.data(), b); if ((ra == rb) != (m[a] == m[b])) BAD("uf-find", "%d and %d are %s", a, b, m[a] == m[b] ? "in one set but have two representatives" : "in two sets but have one representative"); int r = uf_union(d.data(), ra, rb); if (r != ra && r != rb) BAD("uf-union", "the union has a foreign representative"); int x = m[a], y = m[b]; for (int &v : m) if (v == x) v = y; if (uf_find(d.data(), a) != r || uf_find(d.data(), b) != r) BAD("uf-union", "a member of the union has another representative"); }
	}
	void full() override { std::map<int, int> rep; for (size_t i = 0; i < m.size(); ++i) { int r = uf_find(d.data(), (int)i); auto it = rep.emplace(m[i], r).first; if (it->second != r) BAD("uf-find", "members of one set have two representatives"); } std::set<int> s; for (auto &e : rep) if (!s.insert(e.second).second) BAD("uf-find", "two sets have one representative"); }
};
struct LN { list_head h; int id; };
struct ListC : Con {
	list_head h[2]; std::deque<LN *> m[2]; std::vector<LN *> all;
	ListC() { for (auto &x : h) { INIT_LIST_HEAD(&x); } }
	const char *name() override { return "list"; }
	void step() override
	{
		int x = (int)draw(2), y = 1 - x, op = (int)draw(8); ev("list op %d", op); auto nw = [&] { LN *l = (LN *)xmalloc(sizeof(LN)); l->id = (int)all.size(); all.push_back(l); return l; };
		switch (op) {
		case 0: case 1: { LN *l = nw(); list_add(&l->h, &h[x]); m[x].push_front(l); break; }
		case 2: { LN *l = nw(); list_add_tail(&l->h, &h[x]); m[x].push_back(l); break; }
		case 3: case 4: { if (m[x].empty()) break; size_t i = draw(m[x].size()); LN *l = m[x][i]; m[x].erase(m[x].begin() + i); if (op == 3) list_del(&l->h); else { list_del_init(&l->h); if (!list_empty(&l->h)) BAD("list-del", "an unlinked and initialised entry is not empty"); } break; }
		case 5: case 6: { if (m[x].empty()) break; size_t i = draw(m[x].size()); LN *l = m[x][i]; m[x].erase(m[x].begin() + i); if (op == 5) { list_move(&l->h, &h[y]); m[y].push_front(l); } else { list_move_tail(&l->h, &h[y]); m[y].push_back(l); } break; }
		case 7: list_splice_init(&h[x], &h[y]); m[y].insert(m[y].begin(), m[x].begin(), m[x].end()); m[x].clear(); break;
		}
		full();
	}
	void full() override { for (int x = 0; x < 2; ++x) { size_t i = 0; for (list_head *p = h[x].next; p != &h[x]; p = p->next, ++i) if (i >= m[x].size() || (LN *)p != m[x][i]) BAD("list-order", "the list has another entry at %zu", i); if (i != m[x].size() || (list_empty(&h[x]) != 0) != m[x].empty()) BAD("list-length", "the list has %zu of %zu entries", i, m[x].size()); for (list_head *p = h[x].prev; p != &h[x]; p = p->prev) if ((LN *)p != m[x][--i]) BAD("list-order", "backwards the list has another entry at %zu", i); } }
};
struct BipC : Con {
	U l, r; bipartite_t *g; std::set<std::pair<U, U>> m;
	BipC() : l(1 + (U)draw(40)), r(1 + (U)draw(70)) { g = bipartite_new(l, r); }
	const char *name() override { return "bipartite"; }
	void step() override
	{
		int op = (int)draw(5); ev("bipartite op %d", op); U n = 1 + (U)draw(op < 3 ? 6 : 3);
		while (n--) { U i = (U)draw(l), j = (U)draw(r); if (op < 3) { bipartite_add(g, i, j); m.insert({ i, j }); } else if (op == 3) { bipartite_remv(g, i, j); m.erase({ i, j }); } if ((bipartite_adj(g, i, j) != 0) != (m.count({ i, j }) > 0)) BAD("bipartite-adj", "an edge that was %s is %s", m.count({ i, j }) ? "added" : "removed", m.count({ i, j }) ? "missing" : "there"); }
		if (op == 4) full();
	}
	void full() override
	{
		for (U i = 0; i < l; ++i) for (U j = 0; j < r; ++j) if ((bipartite_adj(g, i, j) != 0) != (m.count({ i, j }) > 0)) BAD("bipartite-adj", "edge %u-%u is wrong", i, j);
		std::vector<int> mt(l, 77); bipartite_matching(g, mt.data()); std::set<int> used;
		for (U i = 0; i < l; ++i) if (mt[i] >= 0) { if (!m.count({ i, (U)mt[i] })) BAD("bipartite-matching", "the matching uses edge %u-%d that does not exist", i, mt[i]); if (!used.insert(mt[i]).second) BAD("bipartite-matching", "the matching uses node %d twice", mt[i]); }
		for (auto &e : m) if (mt[e.first] < 0 && !used.count((int)e.second)) BAD("bipartite-matching", "the matching leaves out edge %u-%u although both ends are free", e.first, e.second);
	}
	~BipC() { bipartite_free(g); }
};
struct ObstC : Con {
	struct obstack o; std::vector<std::pair<char *, std::string>> m; std::string grow; bool growing = false;
	ObstC() { obstack_init(&o); }
	const char *name() override { return "obstack"; }
	static std::string bytes(size_t n) { u64 s = drawSeed(); std::string r; for (size_t i = 0; i < n; ++i) r += (char)mix64(s + i); return r; }
	void step() override
	{
		int op = (int)draw(6); size_t n = draw(chance(1, 8) ? 20000 : 200); ev("obstack op %d %zu", op, n);
		if (op == 0 && !growing) { auto s = bytes(n); char *p = (char *)obstack_copy0(&o, s.data(), s.size()); m.push_back({ p, s + '\0' }); }
		else if (op == 1 && !growing) { auto s = bytes(n); char *p = (char *)obstack_alloc(&o, n); memcpy(p, s.data(), n); m.push_back({ p, s }); }
		else if (op == 2 || op == 3) { auto s = bytes(n); if (op == 2) obstack_grow(&o, s.data(), n); else for (char c : s) obstack_1grow(&o, c); grow += s; growing = true; }
		else if (op == 4 && growing) { if (obstack_object_size(&o) != grow.size()) BAD("obstack-size", "the growing object has size %zu instead of %zu", (size_t)obstack_object_size(&o), grow.size()); char *p = (char *)obstack_finish(&o); m.push_back({ p, grow }); grow.clear(); growing = false; }
		else if (op == 5 && !growing && !m.empty() && chance(1, 3)) { size_t i = draw(m.size()); full(); obstack_free(&o, m[i].first); m.resize(i); }
		for (auto &e : m) if (!e.second.empty() && (uintptr_t)e.first % sizeof(void *)) BAD("obstack-align", "an object of the obstack is not aligned");
	}
	void full() override { for (auto &e : m) if (memcmp(e.first, e.second.data(), e.second.size())) BAD("obstack-content", "an object of the obstack lost its contents"); }
	~ObstC() { obstack_free(&o, nullptr); }
};
struct IdC : Con {
	std::map<std::string, ident *> m; std::set<std::string> uniq; U dom; IdC() : dom(3 + (U)draw(chance(1, 4) ? 5000 : 40)) {}
	const char *name() override { return "ident"; }
	static std::string str(U id) { std::string s; u64 h = id; do { s += "ab.$Z_\x80"[h % 7]; h /= 7; } while (h); return id % 5 ? s : s + s; }
	void check(const std::string &s, ident *i) { if (strcmp(get_id_str(i), s.c_str())) BAD("ident-text", "the identifier of '%s' reads '%s'", s.c_str(), get_id_str(i)); auto it = m.emplace(s, i).first; if (it->second != i) BAD("ident-unique", "'%s' has two identifiers", s.c_str()); }
	void step() override
	{
		U id = (U)draw(dom); std::string s = str(id); int op = (int)draw(5); ev("ident op %d %u", op, id);
		switch (op) {
		case 0: check(s, new_id_from_str(s.c_str())); break;
		case 1: { std::string t = s + "tail"; check(s, new_id_from_chars(t.c_str(), s.size())); break; }
		case 2: check(s + "." + std::to_string(id), new_id_fmt("%s.%u", s.c_str(), id)); break;
		case 3: { ident *i = id_unique(s.c_str()); std::string t = get_id_str(i); if (t.compare(0, s.size(), s)) BAD("ident-unique-tag", "the unique identifier of '%s' reads '%s'", s.c_str(), t.c_str()); if (!uniq.insert(t).second) BAD("ident-unique", "id_unique returns '%s' twice", t.c_str()); check(t, i); break; }
		case 4: { U n = (U)draw(dom); for (U i = 0; i < n; ++i) { auto t = str(id + i); check(t, new_id_from_str(t.c_str())); } break; }
		}
	}
	void full() override { std::set<ident *> s; for (auto &e : m) { check(e.first, e.second); if (!s.insert(e.second).second) BAD("ident-unique", "two strings have one identifier"); check(e.first, new_id_from_chars(e.first.data(), e.first.size())); } }
};
static Con *make(int k)
{
	switch (k) { case 0: return new SetC; case 1: return new PSetC; case 2: return new PMapC; case 3: return new PSetNewC; case 4: return new CPSetC; case 5: return new PQueueC; case 6: return new ArrC<char>; case 7: return new ArrC<U>; case 8: return new ArrC<E24>; case 9: return new DeqC; case 10: return new BitC; case 11: return new UFC; case 12: return new ListC; case 13: return new BipC; case 14: return new ObstC; default: return new IdC; }
}
static void c16()
{
	SubCfg m = draw_machine(); int n = 1 + (int)draw(4), ops = 6 + (int)draw(g_thorough ? 300 : 90); std::vector<int> kinds; bool id = false; for (int i = 0; i < n; ++i) { int k = (int)draw(16); if (k == 15 && id) k = 0; id |= k == 15; kinds.push_back(k); }
	SubOut o = run_sub(m, [&] {
		init_ident(); std::vector<std::unique_ptr<Con>> c; for (int k : kinds) { c.emplace_back(make(k)); probe(c.back()->name()); }
		for (int i = 0; i < ops; ++i) { size_t x = draw(c.size()); ev("container %zu (%s)", x, c[x]->name()); c[x]->step(); note_history(mix64(i * 64 + kinds[x])); if (chance(1, 25)) c[x]->full(); if (chance(1, 60)) { int k = kinds[x]; if (k == 15) continue; ev("replace container %zu", x); c[x]->full(); c[x].reset(); c[x].reset(make(k)); } }
		for (auto &x : c) x->full(); for (auto &x : c) x.reset(); finish_ident();
	});
	if (o.died()) violation(o.cls().c_str(), "a legal sequence of container operations ends the process: %s", (o.what + " " + o.err).c_str());
	set_nontrivial(ops > 6); set_sample("%d containers, %d operations", n, ops);
}
REGISTER("C16", c16, 200000, 1500000, "exploration", "one run applies a drawn sequence of operations to 1-4 live containers of drawn kinds (set, pset, pmap, pset_new, cpset, pqueue, flexible arrays of three element sizes, deq, bitset, union-find, list, bipartite graph, obstack, identifiers) sharing one simulated heap with drawn addresses, junk contents, block reuse and moving reallocation, with drawn hash functions from good to constant; after every operation the result, and at drawn points and the end the whole contents, are compared with a model; distinct by operation sequence", { "operations the containers exclude by an assertion (insertion or removal during the iteration of a set) are not generated" }, "ir/adt, ir/obstack, ir/ident", "heap");
