// C14: part of the formatted types.
#include "c14.h"
#define T(...) type<__VA_ARGS__>(r, #__VA_ARGS__, k)
void types1(Rng& r, u64 k) {
    T(u8); T(i32); T(u64); T(bool); T(String<>); T(Vec<i32>); T(Stack<i64>); T(Queue<String<>>); T(Array<i32, 1>); T(Array<Vec<i32>, 2>); T(Map<u64, Map<i32, bool>>);
    T(Pair<String<>, Pair<u8, i8>>); T(Opt<Opt<u8>>); T(Box<Box<String<>>>); T(Arc<u64>); T(Tuple<i32>); T(Variant<i32, f32>); T(Math::Vec2); T(Math::VecN<5>); T(Math::Vec3i);
    T(Math::Vec3u); T(Math::VecNu<11>); T(Math::BBox); T(Big); T(WithArr); T(Vec<Outer>);
}
