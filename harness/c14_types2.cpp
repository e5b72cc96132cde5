// C14: part of the formatted types.
#include "c14.h"
#define T(...) type<__VA_ARGS__>(r, #__VA_ARGS__, k)
void types2(Rng& r, u64 k) {
    T(i16); T(u32); T(f32); T(char); T(i32*); T(Vec<String<>>); T(Stack<Opt<u8>>); T(Heap<i32>); T(Array<u64, 3>); T(Map<i32, i32>); T(Vec<Map<String<>, Opt<i64>>>); T(Opt<i32>);
    T(Box<i32>); T(Rc<i32>); T(Arc<Vec<i32>>); T(Tuple<f32, i32, String_View>); T(Variant<String<>, Vec<u8>>); T(Math::Vec3); T(Math::VecN<12>); T(Math::Vec4i); T(Math::Vec4u);
    T(Math::Mat4); T(Vec<Math::Vec3>); T(Inner); T(Hollow); T(Opt<Inner>);
}
