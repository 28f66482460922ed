// Roots for the hash accumulator analysis. Never executed.
#include <cstdint>
#include <cstddef>
#include <functional>
#include "utility.h"
#include "spgemm-blocks/hash/HashAccumulator.h"
#ifndef VP_K
#define VP_K int
#endif
using K = VP_K;
using Set = HashAccumulator<K, void, void>;
using Map = HashAccumulator<K, double, bool>;
struct SetX : Set { using Set::findIdxForce; };
struct MapX : Map { using Map::findIdxForce; };
extern "C" {
void set_resize(Set &t, std::make_unsigned_t<K> n) { t.resize(n); }
void map_resize(Map &t, std::make_unsigned_t<K> n) { t.resize(n); }
bool set_erase(Set &t, K k) { return t.erase(k); }
bool map_erase(Map &t, K k) { return t.erase(k); }
std::make_unsigned_t<K> set_find(Set &t, K k) { return t.find(k); }
std::make_unsigned_t<K> map_find(Map &t, K k) { return t.find(k); }
std::make_unsigned_t<K> set_findIdx(Set &t, K k) { return t.findIdx(k); }
std::make_unsigned_t<K> map_findIdx(Map &t, K k) { return t.findIdx(k); }
std::make_unsigned_t<K> set_force(SetX &t, K k) { return t.findIdxForce(k); }
std::make_unsigned_t<K> map_force(MapX &t, K k) { return t.findIdxForce(k); }
bool set_insert_untracked(Set &t, K k) { return t.insert<false>(k); }
bool set_insert_tracked(Set &t, K k) { return t.insert<true>(k); }
bool map_insert_mask(Map &t, K k) { return t.insert(k); }
bool map_insert_tracked(Map &t, K k, double v) { return t.insert<true>(k, v, true); }
bool map_insert_untracked(Map &t, K k, double v) { return t.insert<false>(k, v, true); }
using ME = HashAccumEntryT<K, double, bool>;
extern const size_t vp_entry_offs[] = {offsetof(ME, value1), offsetof(ME, value2)};
extern const size_t vp_entry_size[] = {sizeof(HashAccumEntryT<K>), sizeof(HashAccumEntryT<K, double, bool>)};
}
