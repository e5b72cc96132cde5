// C27: matrices, quaternions and boxes, compared with double precision linear algebra written here.
#include "mon.h"
#include <rpp/base.h>
#include <rpp/vmath.h>
using namespace rpp;
using mon::Rng;

struct D3 { double v[3]; double& operator[](int i) { return v[i]; } double operator[](int i) const { return v[i]; } };
struct D4 { double m[4][4]; }; // m[column][row]
static D4 of(const Mat4& m) { D4 d; for(u64 c = 0; c < 4; c++) for(u64 r = 0; r < 4; r++) d.m[c][r] = m[c][r]; return d; }
static D3 of(Vec3 v) { return {{v.x, v.y, v.z}}; }
static Vec3 to(const D3& d) { return Vec3{(f32)d[0], (f32)d[1], (f32)d[2]}; }
static D4 ident() { D4 d{}; for(int i = 0; i < 4; i++) d.m[i][i] = 1; return d; }
static D4 mul(const D4& a, const D4& b) { D4 r{}; for(int c = 0; c < 4; c++) for(int i = 0; i < 4; i++) for(int k = 0; k < 4; k++) r.m[c][i] += a.m[k][i] * b.m[c][k]; return r; }
static D3 lin(const D4& a, const D3& v) { D3 r{}; for(int i = 0; i < 3; i++) for(int k = 0; k < 3; k++) r[i] += a.m[k][i] * v[k]; return r; }
static D3 pt(const D4& a, const D3& v) { D3 r = lin(a, v); for(int i = 0; i < 3; i++) r[i] += a.m[3][i]; return r; }
static void apply4(const D4& a, const double* v, double* o) { for(int i = 0; i < 4; i++) { o[i] = 0; for(int k = 0; k < 4; k++) o[i] += a.m[k][i] * v[k]; } }
static double dot(const D3& a, const D3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static D3 crs(const D3& a, const D3& b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static double len(const D3& a) { return std::sqrt(dot(a, a)); }
static D3 norm(const D3& a) { double l = len(a); return {{a[0] / l, a[1] / l, a[2] / l}}; }
static double dist(const D3& a, const D3& b) { D3 d{{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; return len(d); }
static D4 rot(double deg, D3 ax) { // Rodrigues
    ax = norm(ax);
    double t = deg * M_PI / 180, c = std::cos(t), s = std::sin(t);
    D4 r = ident();
    for(int j = 0; j < 3; j++) {
        D3 e{};
        e[j] = 1;
        D3 k = crs(ax, e);
        for(int i = 0; i < 3; i++) r.m[j][i] = e[i] * c + k[i] * s + ax[i] * ax[j] * (1 - c);
    }
    return r;
}
static double diff(const D4& a, const D4& b) { double d = 0; for(int c = 0; c < 4; c++) for(int r = 0; r < 4; r++) { double x = std::fabs(a.m[c][r] - b.m[c][r]); if(!(x <= d)) d = x; } return d; }
static double mag(const D4& a) { double d = 0; for(auto& c : a.m) for(double x : c) d = std::max(d, std::fabs(x)); return d; }
static bool invert(const D4& a, D4& o) { // Gauss-Jordan with pivoting
    double w[4][8];
    for(int r = 0; r < 4; r++) for(int c = 0; c < 4; c++) { w[r][c] = a.m[c][r]; w[r][c + 4] = r == c; }
    for(int k = 0; k < 4; k++) {
        int p = k;
        for(int r = k; r < 4; r++) if(std::fabs(w[r][k]) > std::fabs(w[p][k])) p = r;
        if(std::fabs(w[p][k]) < 1e-9) return false;
        for(int c = 0; c < 8; c++) std::swap(w[k][c], w[p][c]);
        for(int c = 7; c >= k; c--) w[k][c] /= w[k][k];
        for(int r = 0; r < 4; r++) if(r != k) for(int c = 7; c >= k; c--) w[r][c] -= w[r][k] * w[k][c];
    }
    for(int r = 0; r < 4; r++) for(int c = 0; c < 4; c++) o.m[c][r] = w[r][c + 4];
    return true;
}
static f32 num(Rng& r, double lim = 10) { return r.chance(15) ? (f32)r.range(-3, 3) : (f32)((r.unit() * 2 - 1) * lim); }
static Vec3 vec(Rng& r, double lim = 10) { return Vec3{num(r, lim), num(r, lim), num(r, lim)}; }
static Vec3 dir(Rng& r) { // directions, often axis aligned
    for(;;) {
        Vec3 v = r.chance(30) ? Vec3{(f32)r.range(-1, 1), (f32)r.range(-1, 1), (f32)r.range(-1, 1)} : vec(r, 3);
        if(len(of(v)) > 0.05) return v;
    }
}
static f32 angle(Rng& r) { return r.chance(35) ? (f32)(45 * r.range(-8, 8)) : (f32)(r.unit() * 720 - 360); }
static std::string show(const D4& a) { std::string s; for(auto& c : a.m) { s += "{"; for(double x : c) s += mon::fmt("%.6g ", x); s += "}"; } return s; }
static std::string show(Vec3 v) { return mon::fmt("(%.7g, %.7g, %.7g)", v.x, v.y, v.z); }
static bool is_rotation(const Mat4& m, double tol = 1e-5) {
    D4 d = of(m), t;
    for(int c = 0; c < 4; c++) for(int r = 0; r < 4; r++) t.m[c][r] = d.m[r][c];
    D3 x{{d.m[0][0], d.m[0][1], d.m[0][2]}}, y{{d.m[1][0], d.m[1][1], d.m[1][2]}}, z{{d.m[2][0], d.m[2][1], d.m[2][2]}};
    return diff(mul(d, t), ident()) < tol && std::fabs(dot(crs(x, y), z) - 1) < tol;
}
static Mat4 mat(Rng& r) {
    Mat4 m;
    switch(r(6)) {
    case 0: for(u64 c = 0; c < 4; c++) for(u64 i = 0; i < 4; i++) m[c][i] = num(r); return m;
    case 1: for(u64 c = 0; c < 4; c++) for(u64 i = 0; i < 4; i++) m[c][i] = (f32)r.range(-2, 2); return m;
    case 2: return Mat4::translate(vec(r)) * Mat4::rotate(angle(r), dir(r)) * Mat4::scale(Vec3{(f32)(0.3 + 3 * r.unit()), (f32)(0.3 + 3 * r.unit()), (f32)-(0.3 + 3 * r.unit())});
    case 3: return Mat4::proj((f32)(20 + 100 * r.unit()), (f32)(0.5 + 2 * r.unit()), (f32)(0.05 + r.unit())) * Mat4::translate(vec(r));
    case 4: { // a permutation with signs: zero blocks everywhere
        int p[4] = {0, 1, 2, 3};
        for(int i = 3; i > 0; i--) std::swap(p[i], p[r((uint64_t)i + 1)]);
        m = Mat4::zero;
        for(u64 c = 0; c < 4; c++) m[c][(u64)p[c]] = (f32)(r.chance(50) ? 1 : -1) * (f32)(1 + r(3));
        return m;
    }
    default: return Mat4::rotate(angle(r), dir(r)) * Mat4::rotate(angle(r), dir(r));
    }
}
static void matrices(Rng& r, uint64_t n) {
    for(uint64_t c = 0; c < n; c++) {
        Mat4 a = mat(r), b = mat(r), a0 = a, b0 = b;
        D4 da = of(a), db = of(b);
        {   // the same sixteen numbers through every view
            const Mat4& ca = a; int k = 0;
            for(const Vec4& col : ca) { for(int j = 0; j < 4; j++) MON_CHECK(col[j] == a.data[4 * k + j] && ca[k][j] == col[j], "mat.views", "iteration column %d", k); k++; }
            MON_CHECK(k == 4 && ca.end() - ca.begin() == 4 && &*a.begin() == &a[0] && a.end() == a.begin() + 4, "mat.views", "iteration bounds");
        }
        mon::ctx("A %s B %s", show(da).c_str(), show(db).c_str());
        double tol = 1e-6 * 4 * (mag(da) * mag(db) + 1);
        Mat4 p = a * b;
        MON_CHECK(diff(of(p), mul(da, db)) <= tol, "mat.product", "A * B differs by %g from the matrix product", diff(of(p), mul(da, db)));
        Vec3 v = vec(r), w = vec(r);
        D3 dv = of(v);
        double t2 = 1e-6 * 40 * (mag(da) + 1);
        MON_CHECK(dist(of(a * v), pt(da, dv)) <= t2, "mat.point", "A * %s = %s, expected %s", show(v).c_str(), show(a * v).c_str(), show(to(pt(da, dv))).c_str());
        MON_CHECK(dist(of(a.rotate(v)), lin(da, dv)) <= t2, "mat.direction", "A.rotate(%s) = %s, expected %s", show(v).c_str(), show(a.rotate(v)).c_str(), show(to(lin(da, dv))).c_str());
        double h[4] = {v.x, v.y, v.z, num(r)}, o[4];
        apply4(da, h, o);
        Vec4 hv = a * Vec4{v, (f32)h[3]};
        for(u64 i = 0; i < 4; i++) MON_CHECK(std::fabs(hv[i] - o[i]) <= t2, "mat.vec4", "component %d of A * Vec4 is %g, expected %g", (int)i, hv[i], o[i]);
        // transpose
        Mat4 t = a.T(), ts = Mat4::transpose(a);
        for(u64 i = 0; i < 4; i++) for(u64 j = 0; j < 4; j++) MON_CHECK(t[i][j] == a[j][i] && ts[i][j] == a[j][i], "mat.transpose", "element %d,%d", (int)i, (int)j);
        // element-wise operations
        f32 s = num(r);
        if(s == 0) s = 2;
        Mat4 e[] = {a + b, a - b, a + s, a - s, a * s, a / s};
        for(u64 i = 0; i < 4; i++)
            for(u64 j = 0; j < 4; j++) {
                f32 x = a[i][j], y = b[i][j], want[] = {x + y, x - y, x + s, x - s, x * s, x / s};
                for(int k = 0; k < 6; k++) MON_CHECK(e[k][i][j] == want[k], "mat.elementwise", "operation %d, element %d,%d: %g expected %g", k, (int)i, (int)j, e[k][i][j], want[k]);
            }
        // inverse
        D4 inv;
        if(invert(da, inv)) {
            double k = mag(da) * mag(inv);
            if(k < 60) {
                double lim = 3e-6 * k * k * mag(inv) + 1e-5;
                Mat4 i1 = a.inverse(), i2 = Mat4::inverse(a);
                MON_CHECK(diff(of(i1), inv) <= lim, "mat.inverse", "inverse of %s is %s, expected %s (off by %g, limit %g)", show(da).c_str(), show(of(i1)).c_str(), show(inv).c_str(), diff(of(i1), inv), lim);
                MON_CHECK(i1 == i2, "mat.inverse", "the static and the member inverse differ");
                MON_CHECK(diff(of(a * i1), ident()) <= 3e-6 * k * k + 1e-5, "mat.inverse", "A * A^-1 differs by %g from the identity", diff(of(a * i1), ident()));
                mon::count("inverses");
                mon::count_max("inverse_err_ppm_of_limit", (uint64_t)(1e6 * diff(of(i1), inv) / lim));
            }
        }
        // comparison
        MON_CHECK(a == a0 && !(a != a0) && b == b0, "mat.operand", "an operation changed its operand");
        Mat4 x = a;
        u64 i = r(4), j = r(4);
        x[i][j] = x[i][j] + 100.0f;
        MON_CHECK(!(x == a) && x != a, "mat.compare", "matrices that differ in element %d,%d are equal", (int)i, (int)j);
        u64 k = 0;
        for(const Vec4& col : a) { MON_CHECK(col == a[k], "mat.iterate", "column %d", (int)k); k++; }
        MON_CHECK(k == 4, "mat.iterate", "%d columns", (int)k);
        Mat4 flat{a.data[0], a.data[1], a.data[2], a.data[3], a.data[4], a.data[5], a.data[6], a.data[7], a.data[8], a.data[9], a.data[10], a.data[11], a.data[12], a.data[13], a.data[14], a.data[15]}, cols{a[0], a[1], a[2], a[3]};
        MON_CHECK(flat == a && cols == a && a.data[1] == a[0][1] && a.data[4] == a[1][0], "mat.construct", "a matrix built from its elements or columns differs");
        MON_CHECK(Mat4{} == Mat4::I && diff(of(Mat4::I), ident()) == 0 && mag(of(Mat4::zero)) == 0 && a * Mat4::I == a && (Mat4::swap_x_z * v) == (Vec3{v.z, v.y, v.x}), "mat.constants", "I, zero or swap_x_z is wrong");
        mon::eval(10);
        mon::distinct(mon::mix(std::hash<f32>()(a[0][0]), std::hash<f32>()(b[2][1])));
    }
}
static void constructors(Rng& r, uint64_t n) {
    for(uint64_t c = 0; c < n; c++) {
        Vec3 v = vec(r), s = vec(r), p = vec(r);
        mon::ctx("constructors v %s s %s p %s", show(v).c_str(), show(s).c_str(), show(p).c_str());
        Vec3 tp = Mat4::translate(v) * p, want = p + v;
        MON_CHECK(dist(of(tp), of(want)) < 1e-5 && Mat4::translate(v).rotate(p) == p, "mat.translate", "translate(%s) maps %s to %s", show(v).c_str(), show(p).c_str(), show(tp).c_str());
        MON_CHECK(Mat4::scale(s) * p == s * p, "mat.scale", "scale(%s) maps %s to %s", show(s).c_str(), show(p).c_str(), show(Mat4::scale(s) * p).c_str());
        f32 a = angle(r);
        Vec3 ax = dir(r), ax0 = ax;
        Mat4 R = Mat4::rotate(a, ax);
        MON_CHECK(diff(of(R), rot(a, of(ax))) < 5e-6, "mat.rotate", "rotate(%g, %s) differs by %g from the rotation", a, show(ax).c_str(), diff(of(R), rot(a, of(ax))));
        MON_CHECK(ax == ax0 && is_rotation(R), "mat.rotate", "rotate(%g, %s) is no rotation", a, show(ax).c_str());
        // look_at: the eye at the origin, the target straight ahead (-z), up in the upper half plane without x
        Vec3 eye = vec(r), at = vec(r), up = dir(r);
        D3 f{{(double)at.x - eye.x, (double)at.y - eye.y, (double)at.z - eye.z}};
        if(len(f) > 0.1 && len(crs(norm(f), norm(of(up)))) > 0.02) {
            Mat4 L = Mat4::look_at(eye, at, up);
            double tol = 3e-4;
            MON_CHECK(is_rotation(Mat4{L[0], L[1], L[2], Vec4{0.0f, 0.0f, 0.0f, 1.0f}}, tol), "mat.look_at", "look_at(%s, %s, %s) is no rigid motion", show(eye).c_str(), show(at).c_str(), show(up).c_str());
            MON_CHECK(dist(of(L * eye), D3{{0, 0, 0}}) < tol && dist(of(L * at), D3{{0, 0, -len(f)}}) < tol, "mat.look_at", "look_at maps the eye to %s and the target to %s", show(L * eye).c_str(), show(L * at).c_str());
            Vec3 u = L.rotate(up);
            MON_CHECK(std::fabs(u.x) < tol * 10 && u.y > 0, "mat.look_at", "look_at maps the up direction to %s", show(u).c_str());
            MON_CHECK(L[3][3] == 1 && L[0][3] == 0 && L[1][3] == 0 && L[2][3] == 0, "mat.look_at", "look_at has another bottom row");
        }
        // rotations that carry an axis onto a direction
        Vec3 d = dir(r);
        if(r.chance(10)) d = Vec3{0.0f, (f32)(r.chance(50) ? -1 : 1) * (f32)(0.1 + r.unit() * 5), 0.0f};
        D3 nd = norm(of(d));
        Mat4 Y = Mat4::rotate_y_to(d), Z = Mat4::rotate_z_to(d);
        mon::ctx("rotate to %s", show(d).c_str());
        MON_CHECK(is_rotation(Y, 3e-5), "mat.rotate_to", "rotate_y_to(%s) is no rotation: %s", show(d).c_str(), show(of(Y)).c_str());
        MON_CHECK(is_rotation(Z, 3e-5), "mat.rotate_to", "rotate_z_to(%s) is no rotation: %s", show(d).c_str(), show(of(Z)).c_str());
        MON_CHECK(dist(of(Y.rotate(Vec3{0.0f, 1.0f, 0.0f})), nd) < 4e-3, "mat.rotate_to", "rotate_y_to(%s) turns +y onto %s", show(d).c_str(), show(Y.rotate(Vec3{0.0f, 1.0f, 0.0f})).c_str());
        MON_CHECK(dist(of(Z.rotate(Vec3{0.0f, 0.0f, -1.0f})), nd) < 4e-3, "mat.rotate_to", "rotate_z_to(%s) turns -z onto %s", show(d).c_str(), show(Z.rotate(Vec3{0.0f, 0.0f, -1.0f})).c_str());
        // orthographic box to the unit square
        f32 l = num(r), rt = l + (f32)(0.5 + 10 * r.unit()), bo = num(r), tp2 = bo + (f32)(0.5 + 10 * r.unit()), nn = (f32)(0.1 + 3 * r.unit()), ff = nn + (f32)(1 + 20 * r.unit());
        mon::ctx("ortho(%g, %g, %g, %g, %g, %g)", l, rt, bo, tp2, nn, ff);
        Mat4 O = Mat4::ortho(l, rt, bo, tp2, nn, ff);
        double tol = 1e-4;
        Vec3 c0 = O * Vec3{l, bo, -nn}, c1 = O * Vec3{rt, tp2, -ff}, mid = O * Vec3{(l + rt) / 2, (bo + tp2) / 2, -nn};
        MON_CHECK(std::fabs(c0.x + 1) < tol && std::fabs(c0.y + 1) < tol && std::fabs(c1.x - 1) < tol && std::fabs(c1.y - 1) < tol && std::fabs(mid.x) < tol && std::fabs(mid.y) < tol, "mat.ortho", "ortho maps its corners to %s and %s", show(c0).c_str(), show(c1).c_str());
        double zn = c0.z, zf = c1.z, dk = (double)ff - nn;
        auto is = [&](double a, double b) { return std::fabs(zn - a) < tol && std::fabs(zf - b) < tol; };
        bool canonical = is(0, 1) || is(1, 0) || is(-1, 1) || is(1, -1);
        if(!canonical) {
            // the finding recorded in known_findings.txt: scale of one convention with the offset of another
            if(is(nn / dk, (2.0 * ff - nn) / dk)) mon::violation("mat.ortho-depth-scale2-offset-n", "ortho(%g, %g, %g, %g, near %g, far %g) maps the near plane to depth %g and the far plane to %g", l, rt, bo, tp2, nn, ff, zn, zf);
            else mon::violation("mat.ortho", "ortho(near %g, far %g) maps the near plane to depth %g and the far plane to %g", nn, ff, zn, zf);
        }
        // perspective: near plane at depth 1, depth falls towards 0, edges of the view at +-1
        f32 fov = (f32)(20 + 120 * r.unit()), ar = (f32)(0.3 + 3 * r.unit()), zn2 = (f32)(0.01 + r.unit());
        mon::ctx("proj(%g, %g, %g)", fov, ar, zn2);
        Mat4 P = Mat4::proj(fov, ar, zn2);
        double zz = zn2 * (1 + 50 * r.unit()), hy = zz * std::tan(fov * M_PI / 360), hx = hy * ar;
        for(int sx : {-1, 0, 1})
            for(int sy : {-1, 0, 1}) {
                Vec4 q = P * Vec4{(f32)(hx * sx), (f32)(hy * sy), (f32)-zz, 1.0f};
                Vec3 k = q.proj();
                MON_CHECK(q.w > 0 && std::fabs(k.x - sx) < tol && std::fabs(k.y + sy) < tol && std::fabs(k.z - zn2 / zz) < tol, "mat.proj", "proj(%g, %g, %g) maps the view ray (%d, %d) at distance %g to %s", fov, ar, zn2, sx, sy, zz, show(k).c_str());
            }
        mon::eval(12);
    }
}
// ---- quaternions (as rotations: unit length)
static Quat uq(Rng& r) {
    if(r.chance(25)) return Quat::axis_angle(dir(r), angle(r));
    for(;;) { Quat q{num(r, 1), num(r, 1), num(r, 1), num(r, 1)}; if(q.norm2() > 0.05f) return q.unit(); }
}
static D4 qmat(const Quat& q) { // the rotation it stands for, in double precision
    double x = q.x, y = q.y, z = q.z, w = q.w, n = std::sqrt(x * x + y * y + z * z + w * w);
    x /= n; y /= n; z /= n; w /= n;
    D4 d = ident();
    for(int j = 0; j < 3; j++) {
        D3 e{}, u{{x, y, z}};
        e[j] = 1;
        D3 c = crs(u, e), cc = crs(u, c);
        for(int i = 0; i < 3; i++) d.m[j][i] = e[i] + 2 * (w * c[i] + cc[i]);
    }
    return d;
}
static D4 euler_ref(const double* a) { D4 x = rot(a[0], {{1, 0, 0}}), y = rot(a[1], {{0, 1, 0}}), z = rot(a[2], {{0, 0, 1}}); return mul(z, mul(y, x)); }
static void quats(Rng& r, uint64_t n) {
    for(uint64_t c = 0; c < n; c++) {
        Quat a = uq(r), b = uq(r), a0 = a;
        Vec3 v = vec(r);
        mon::ctx("quaternions (%.9g %.9g %.9g %.9g) (%.9g %.9g %.9g %.9g)", a.x, a.y, a.z, a.w, b.x, b.y, b.z, b.w);
        D4 A = qmat(a), B = qmat(b);
        MON_CHECK(diff(of(a.to_mat()), A) < 3e-6, "quat.to_mat", "to_mat differs by %g from the rotation", diff(of(a.to_mat()), A));
        MON_CHECK(dist(of(a.rotate(v)), lin(A, of(v))) < 6e-5, "quat.rotate", "rotate(%s) = %s, expected %s", show(v).c_str(), show(a.rotate(v)).c_str(), show(to(lin(A, of(v)))).c_str());
        MON_CHECK(diff(qmat(a * b), mul(A, B)) < 3e-6, "quat.product", "the product is not the composition of the rotations (off by %g)", diff(qmat(a * b), mul(A, B)));
        MON_CHECK(dist(of((a * b).rotate(v)), of(a.rotate(b.rotate(v)))) < 2e-4, "quat.product", "(a * b).rotate(v) is not a.rotate(b.rotate(v))");
        Quat i = a.inverse(), k = a.conjugate(), id = a * i, id2 = i * a;
        MON_CHECK(std::fabs(id.x) < 1e-5 && std::fabs(id.y) < 1e-5 && std::fabs(id.z) < 1e-5 && std::fabs(id.w - 1) < 1e-5 && std::fabs(id2.w - 1) < 1e-5, "quat.inverse", "q * q^-1 = (%g %g %g %g)", id.x, id.y, id.z, id.w);
        MON_CHECK(dist(of(i.rotate(a.rotate(v))), of(v)) < 2e-4, "quat.inverse", "the inverse does not undo the rotation of %s", show(v).c_str());
        MON_CHECK(k.x == -a.x && k.y == -a.y && k.z == -a.z && k.w == a.w, "quat.conjugate", "conjugate");
        // any quaternion: products, sums, norms
        Quat p{num(r), num(r), num(r), num(r)}, q{num(r), num(r), num(r), num(r)};
        {
            const Quat& cp = p; int at = 0; const f32 each[4] = {p.x, p.y, p.z, p.w};
            for(f32 f : cp) { MON_CHECK(at < 4 && f == each[at] && cp[at] == f && p[at] == f, "quat.views", "component %d", at); at++; }
            Quat w = p; for(f32& f : w) f += 1; w[2] += 1;
            MON_CHECK(at == 4 && w.x == p.x + 1 && w.y == p.y + 1 && w.z == p.z + 1 + 1 && w.w == p.w + 1, "quat.views", "writing through the views");
        }
        double px = p.x, py = p.y, pz = p.z, pw = p.w, qx = q.x, qy = q.y, qz = q.z, qw = q.w;
        Quat pq = p * q;
        double want[4] = {pw * qx + px * qw + py * qz - pz * qy, pw * qy - px * qz + py * qw + pz * qx, pw * qz + px * qy - py * qx + pz * qw, pw * qw - px * qx - py * qy - pz * qz};
        for(int j = 0; j < 4; j++) MON_CHECK(std::fabs(pq[j] - want[j]) < 4e-4, "quat.product", "component %d of the product is %g, expected %g", j, pq[j], want[j]);
        f32 s = num(r);
        Quat su = p + q, di = p - q, sc = p * s, ne = -p;
        for(int j = 0; j < 4; j++) MON_CHECK(su[j] == p[j] + q[j] && di[j] == p[j] - q[j] && sc[j] == s * p[j] && ne[j] == -p[j], "quat.elementwise", "component %d", j);
        double n2 = px * px + py * py + pz * pz + pw * pw;
        MON_CHECK(std::fabs(p.norm2() - n2) <= 1e-6 * n2 && std::fabs(p.norm() - std::sqrt(n2)) <= 1e-6 * std::sqrt(n2), "quat.norm", "norm");
        if(n2 > 0.01) { Quat u = p.unit(); for(int j = 0; j < 4; j++) MON_CHECK(std::fabs(u[j] - p[j] / std::sqrt(n2)) < 1e-6, "quat.unit", "unit component %d is %g", j, u[j]); }
        MON_CHECK(p.complex() == (Vec3{p.x, p.y, p.z}) && p.real() == p.w && Quat(p.complex(), p.w) == p && Quat(Vec4{p.x, p.y, p.z, p.w}) == p, "quat.construct", "parts and constructors disagree");
        Quat dd = p;
        dd[(int)r(4)] += 50.0f;
        MON_CHECK(p == p && !(p != p) && !(dd == p) && dd != p, "quat.compare", "comparison");
        MON_CHECK(a == a0 && Quat{} == Quat(0.0f, 0.0f, 0.0f, 1.0f), "quat.operand", "an operation changed its operand");
        int it = 0;
        for(f32 x : p) { MON_CHECK(x == p[it], "quat.iterate", "component %d", it); it++; }
        MON_CHECK(it == 4, "quat.iterate", "%d components", it);
        // axis and angle
        f32 deg = angle(r);
        Vec3 ax = dir(r), ax0 = ax;
        Quat g = Quat::axis_angle(ax, deg);
        MON_CHECK(diff(qmat(g), rot(deg, of(ax))) < 5e-6 && std::fabs(g.norm() - 1) < 1e-5 && ax == ax0, "quat.axis_angle", "axis_angle(%s, %g) differs by %g from the rotation", show(ax).c_str(), deg, diff(qmat(g), rot(deg, of(ax))));
        // Euler angles: x, then y, then z
        Vec3 e{angle(r), angle(r), angle(r)};
        if(r.chance(30)) { e = Vec3{0.0f, 0.0f, 0.0f}; e[r(3)] = angle(r); }
        mon::ctx("euler %s", show(e).c_str());
        double ed[3] = {e.x, e.y, e.z};
        D4 E = euler_ref(ed);
        Quat qe = Quat::euler(e);
        MON_CHECK(diff(qmat(qe), E) < 5e-6, "quat.euler", "euler(%s) = (%g %g %g %g) differs by %g from the rotation", show(e).c_str(), qe.x, qe.y, qe.z, qe.w, diff(qmat(qe), E));
        auto round_trip = [&](const char* what, const D4& R, Vec3 got) {
            double cy = std::hypot(R.m[0][0], R.m[0][1]);
            if(cy > 1e-7 && cy < 3e-3) return; // the two outer angles are lost in rounding
            double gd[3] = {got.x, got.y, got.z};
            double d = diff(euler_ref(gd), R);
            MON_CHECK(d < 2e-5 + 2e-6 / std::max(cy, 3e-3), "quat.to_euler", "%s: the angles %s give a rotation that differs by %g (cos y = %g)", what, show(got).c_str(), d, cy);
        };
        round_trip("Quat::to_euler", E, qe.to_euler());
        round_trip("Quat::to_euler", A, a.to_euler());
        Mat4 RM = Mat4::rotate(deg, ax);
        round_trip("Mat4::to_euler", of(RM), RM.to_euler());
        if(r.chance(20)) { // exact quarter turns
            Mat4 Q;
            for(int j = 0; j < 3; j++) { Mat4 t; int i0 = (int)r(3), i1 = (i0 + 1) % 3; t[i0][i0] = t[i1][i1] = 0.0f; t[i0][i1] = 1.0f; t[i1][i0] = -1.0f; Q = Q * t; }
            mon::ctx("quarter turns %s", show(of(Q)).c_str());
            round_trip("Mat4::to_euler of quarter turns", of(Q), Q.to_euler());
            mon::count("quarter_turns");
        }
        mon::eval(16);
        mon::distinct(mon::mix(std::hash<f32>()(a.x), std::hash<f32>()(e.x)));
    }
}
// ---- boxes
static void boxes(Rng& r, uint64_t n) {
    for(uint64_t c = 0; c < n; c++) {
        BBox b;
        double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
        int k = (int)r(6);
        mon::ctx("box of %d points", k);
        MON_CHECK(b.empty() && b.surface_area() == 0, "bbox.empty", "a new box is not empty");
        bool by_boxes = r.chance(30);
        for(int i = 0; i < k; i++) {
            Vec3 p = vec(r, r.chance(10) ? 1e6 : 10);
            for(int j = 0; j < 3; j++) { lo[j] = std::min(lo[j], (double)p[(u64)j]); hi[j] = std::max(hi[j], (double)p[(u64)j]); }
            if(by_boxes) { BBox o; if(r.chance(30)) b.enclose(o); o.enclose(p); b.enclose(o); } else b.enclose(p);
        }
        MON_CHECK(b.empty() == (k == 0), "bbox.empty", "a box of %d points: empty() = %d", k, b.empty());
        if(k) {
            for(int j = 0; j < 3; j++) MON_CHECK(b.min[(u64)j] == lo[j] && b.max[(u64)j] == hi[j], "bbox.enclose", "axis %d: [%g, %g], expected [%g, %g]", j, b.min[(u64)j], b.max[(u64)j], lo[j], hi[j]);
            double x = hi[0] - lo[0], y = hi[1] - lo[1], z = hi[2] - lo[2], area = 2 * (x * y + y * z + z * x);
            MON_CHECK(std::fabs(b.surface_area() - area) <= 1e-5 * (area + 1), "bbox.area", "surface area %g, expected %g", b.surface_area(), area);
            for(int j = 0; j < 3; j++) MON_CHECK(std::fabs(b.center()[(u64)j] - (lo[j] + hi[j]) / 2) <= 1e-6 * (std::fabs(lo[j]) + std::fabs(hi[j]) + 1e-3), "bbox.center", "center axis %d", j);
            BBox lit{b.min, b.max};
            MON_CHECK(lit.min == b.min && lit.max == b.max, "bbox.construct", "constructor");
        }
        // transform: the tight box around the images of the corners
        Mat4 T = r.chance(70) ? Mat4::translate(vec(r)) * Mat4::rotate(angle(r), dir(r)) * Mat4::scale(vec(r, 3)) : Mat4::rotate(angle(r), dir(r));
        D4 dt = of(T);
        mon::ctx("box of %d points [%s %s] transformed by %s", k, show(b.min).c_str(), show(b.max).c_str(), show(dt).c_str());
        BBox t = b;
        t.transform(T);
        if(!k) MON_CHECK(t.empty(), "bbox.transform", "transforming an empty box gives [%s, %s]", show(t.min).c_str(), show(t.max).c_str());
        else {
            double a[3] = {1e300, 1e300, 1e300}, z[3] = {-1e300, -1e300, -1e300}, big = 1;
            for(int m = 0; m < 8; m++) {
                D3 q = pt(dt, D3{{m & 1 ? hi[0] : lo[0], m & 2 ? hi[1] : lo[1], m & 4 ? hi[2] : lo[2]}});
                for(int j = 0; j < 3; j++) { a[j] = std::min(a[j], q[j]); z[j] = std::max(z[j], q[j]); big = std::max(big, std::fabs(q[j])); }
            }
            for(int j = 0; j < 3; j++) big = std::max({big, std::fabs(lo[j]) * mag(dt), std::fabs(hi[j]) * mag(dt)});
            for(int j = 0; j < 3; j++) MON_CHECK(std::fabs(t.min[(u64)j] - a[j]) <= 2e-6 * big && std::fabs(t.max[(u64)j] - z[j]) <= 2e-6 * big, "bbox.transform", "axis %d: [%g, %g], the corners span [%g, %g]", j, t.min[(u64)j], t.max[(u64)j], a[j], z[j]);
        }
        // projection of a box in view coordinates
        BBox w;
        Vec3 at{num(r, 5), num(r, 5), (f32)(r.unit() * 30 - 25)}, ext{(f32)(r.unit() * 4), (f32)(r.unit() * 4), (f32)(r.unit() * 4)};
        if(r.chance(20)) ext[r(3)] = 0.0f; // flat
        if(r.chance(5)) ext = Vec3(0.0f);
        w.enclose(at);
        w.enclose(at + ext);
        bool persp = r.chance(60);
        Mat4 P = persp ? Mat4::proj((f32)(30 + 90 * r.unit()), (f32)(0.5 + r.unit()), (f32)(0.05 + r.unit())) * Mat4::translate(vec(r, 1)) : Mat4::ortho(-5.0f, 5.0f, -4.0f, 4.0f, 0.1f, 30.0f);
        D4 dp = of(P);
        mon::ctx("project [%s %s] %s", show(w.min).c_str(), show(w.max).c_str(), persp ? "perspective" : "orthographic");
        double a[2] = {1e300, 1e300}, z[2] = {-1e300, -1e300}, near0 = 1e300, big = 1;
        int behind = 0;
        for(int m = 0; m < 8; m++) {
            double h[4] = {m & 1 ? w.max.x : w.min.x, m & 2 ? w.max.y : w.min.y, m & 4 ? w.max.z : w.min.z, 1}, o[4];
            apply4(dp, h, o);
            double d = o[2] / o[3];
            near0 = std::min({near0, std::fabs(d), std::fabs(o[3])});
            behind += d < 0;
            for(int j = 0; j < 2; j++) { a[j] = std::min(a[j], o[j] / o[3]); z[j] = std::max(z[j], o[j] / o[3]); big = std::max(big, std::fabs(o[j] / o[3])); }
        }
        if(near0 > 1e-3) {
            Vec2 m0, m1;
            w.project(P, m0, m1);
            if(behind == 8) MON_CHECK(m0 == (Vec2{0.0f, 0.0f}) && m1 == (Vec2{0.0f, 0.0f}), "bbox.project", "a box behind the viewer projects to [(%g, %g), (%g, %g)]", m0.x, m0.y, m1.x, m1.y);
            else if(behind) MON_CHECK(m0 == (Vec2{-1.0f, -1.0f}) && m1 == (Vec2{1.0f, 1.0f}), "bbox.project", "a box around the viewer projects to [(%g, %g), (%g, %g)]", m0.x, m0.y, m1.x, m1.y);
            else for(u64 j = 0; j < 2; j++) MON_CHECK(std::fabs(m0[j] - a[j]) <= 2e-4 * big && std::fabs(m1[j] - z[j]) <= 2e-4 * big, "bbox.project", "axis %d: [%g, %g], the corners project to [%g, %g]", (int)j, m0[j], m1[j], a[j], z[j]);
            mon::count(behind == 8 ? "projected_behind" : behind ? "projected_around" : "projected_in_front");
        }
        b.reset();
        MON_CHECK(b.empty(), "bbox.empty", "a reset box is not empty");
        Vec3 only = vec(r, 100);
        b.enclose(only);
        MON_CHECK(b.min == only && b.max == only && !b.empty(), "bbox.enclose", "a reset box enclosing %s is [%s, %s]", show(only).c_str(), show(b.min).c_str(), show(b.max).c_str());
        // a box is empty when it is inverted along any axis
        for(u64 axis = 0; axis < 3; axis++) {
            Vec3 lo3{-1.0f, -2.0f, -3.0f}, hi3{(f32)r.unit(), (f32)r.unit(), (f32)r.unit()};
            std::swap(lo3[axis], hi3[axis]);
            BBox inv{lo3, hi3}, moved = inv;
            moved.transform(T);
            MON_CHECK(inv.empty() && inv.surface_area() == 0 && moved.empty(), "bbox.empty", "a box inverted along axis %llu: empty %d, area %g, empty when transformed %d", (unsigned long long)axis, inv.empty(), inv.surface_area(), moved.empty());
        }
        mon::eval(8);
        mon::distinct(mon::mix((uint64_t)k, std::hash<f32>()(at.x)));
    }
}
int main(int argc, char** argv) {
    mon::init(argc, argv, "C27", "hash of (matrix elements), (quaternion, angle), (points, place)");
    Rng r(mon::S().seed);
    uint64_t n = mon::n(60000, 3000000);
    if(mon::want("matrices")) matrices(r, n);
    if(mon::want("constructors")) constructors(r, n);
    if(mon::want("quats")) quats(r, 2 * n);
    if(mon::want("boxes")) boxes(r, 2 * n);
    Profile::finalize();
    return mon::finish();
}
