//@srcs ImageUtil.cpp ImageGenerator.cpp
#include "Image.h"
#include "ImageUtil.h"
#include "ImageGenerator.h"
#include "h.h"
typedef std::vector<int> Px;
static void fill(H::In& in, Image& m) { for (int y = 0; y < m.height(); y++) for (int x = 0; x < m.width(); x++) for (int p = 0; p < m.planes(); p++) m(x, y, p) = (unsigned char)in.next(); }
static Px all(const Image& m) { Px r; for (int y = 0; y < m.height(); y++) for (int x = 0; x < m.width(); x++) for (int p = 0; p < m.planes(); p++) r.push_back(m(x, y, p)); return r; }
static Image gim(H::In& in, int plo, int phi, int mx = 12) { int w = in.i("w", 0, mx), h = in.i("h", 0, mx), p = in.i("p", plo, phi); Image m(w, h, p); fill(in, m); return m; }
CASE(places) {
	int w = in.i("w", 0, 9), h = in.i("h", 0, 9), p = in.i("p", 1, 5); Image m; if (in.b("resized")) { m.resize(in.i("w0", 0, 9), in.i("h0", 0, 9), in.i("p0", 1, 5)); m.resize(w, h, p); } else m = Image(w, h, p);
	CHECK(m.width() == w && m.height() == h && m.planes() == p && m.size() == w * h * p, "size"); const Image& c = m; std::set<const unsigned char*> seen;
	for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) for (int k = 0; k < p; k++) {
		unsigned char* a = m.pixel(x, y, k); CHECK(a == c.pixel(x, y, k) && a == &m(x, y, k), "%d x %d x %d: access paths differ at (%d,%d,%d)", w, h, p, x, y, k);
		CHECK(a >= m.data() && a < m.data() + w * h * p, "%d x %d x %d: (%d,%d,%d) is outside the buffer", w, h, p, x, y, k); CHECK(seen.insert(a).second, "%d x %d x %d: (%d,%d,%d) shares its byte", w, h, p, x, y, k);
		unsigned char v = (unsigned char)(17 * x + 31 * y + 7 * k + 1); m(x, y, k) = v; CHECK(c(x, y, k) == v && *m.pixel(x, y, k) == v, "read back");
	}
	if (w && h) { CHECK(m.pixel(w - 1, h - 1) == m.pixel(w - 1, h - 1, 0) && &m(0, h - 1) == m.pixel(0, h - 1, 0), "default plane"); }
	for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) for (int k = 0; k < p; k++) CHECK(c(x, y, k) == (unsigned char)(17 * x + 31 * y + 7 * k + 1), "overwritten");
}
CASE(grey) {
	Image m = gim(in, 3, 5), g = gim(in, 1, 3); Px o = all(m); ImageUtil::convert_to_bw(m, g); CHECK(g.width() == m.width() && g.height() == m.height() && g.planes() == 1, "size %d x %d x %d", g.width(), g.height(), g.planes()); CHECK(all(m) == o, "the input changed");
	for (int x = 0; x < m.width(); x++) for (int y = 0; y < m.height(); y++) { int e = (m(x, y, 0) + m(x, y, 1) + m(x, y, 2)) / 3; CHECK(((const Image&)g)(x, y) == e, "%d x %d: (%d,%d) is %d instead of %d", m.width(), m.height(), x, y, ((const Image&)g)(x, y), e); }
}
CASE(scaled) {
	Image m = gim(in, 1, 5); double s = in.num("s", 0, 1); Image o = m; const Image& q = o; ImageUtil::scale(m, s); CHECK(m.width() == o.width() && m.height() == o.height() && m.planes() == o.planes(), "size");
	for (int x = 0; x < m.width(); x++) for (int y = 0; y < m.height(); y++) for (int p = 0; p < m.planes(); p++) { double e = q(x, y, p) * s; CHECK(std::fabs(m(x, y, p) - e) <= .5 + 1e-9, "(%d,%d,%d): %d * %g gives %d", x, y, p, q(x, y, p), s, m(x, y, p)); }
	if (m.width() && m.height()) { Image b(2, 1, 1); int v = in.i("v", 0, 100); double k = in.uni("k", 1, 2.5); b(0, 0) = v; b(1, 0) = 0; ImageUtil::scale(b, k); CHECK(std::fabs(b(0, 0) - v * k) <= .5 + 1e-9 && b(1, 0) == 0, "%d * %g gives %d", v, k, b(0, 0)); }
}
CASE(numbers) {
	Image m = gim(in, 1, 1); std::vector<double> v; if (in.b("used")) v.resize(in.i("n", 0, 300), 5.); Px o = all(m); m.to_double(v); CHECK(all(m) == o, "the image changed"); CHECK((int)v.size() == m.size(), "%zu numbers for %d bytes", v.size(), m.size());
	for (int x = 0; x < m.width(); x++) for (int y = 0; y < m.height(); y++) CHECK(v[y + x * m.height()] == m(x, y), "%d x %d: number of (%d,%d) is %g instead of %d", m.width(), m.height(), x, y, v[y + x * m.height()], m(x, y));
}
CASE(sierpinski) {
	int w = in.small("w", 0, 70), h = in.small("h", 0, 70); Image m = gim(in, 1, 4); ImageGenerator::Shierpinsky(m, w, h); CHECK(m.width() == w && m.height() == h && m.planes() == 4, "size");
	for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) { int v; memcpy(&v, m.pixel(x, y), 4); CHECK(v == ((x & y) ? 0 : (1 << 25) - 1), "%d x %d: (%d,%d) is %08x", w, h, x, y, v); }
}
static int escape(double cx, double cy, int n) { double x = cx, y = cy; int k = 0; while (x * x + y * y < 4 && k < n) { double t = x * x - y * y + cx; y = 2 * x * y + cy; x = t; k++; } return k; }
CASE(mandelbrot) {
	int w = in.small("w", 0, 40), h = in.small("h", 0, 40), n = in.one_in("deflt", 4) ? 255 : in.small("n", 0, 255); Image m = gim(in, 1, 4); ImageGenerator::Mandelbrot(m, w, h, n); CHECK(m.width() == w && m.height() == h && m.planes() == 4, "size"); const Image& q = m;
	for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) {
		double cx = -2.1 + (w - x) * 3. / w, cy = -1.5 + (h - y) * 3. / h; int lo = 1 << 30, hi = -1; for (int i = -1; i < 2; i++) for (int j = -1; j < 2; j++) { int k = escape(cx + i * 1e-5, cy + j * 1e-5, n); lo = std::min(lo, k); hi = std::max(hi, k); }
		int b = q(x, y, 0); CHECK(b == q(x, y, 1) && b == q(x, y, 2) && q(x, y, 3) == 0, "%d x %d: (%d,%d) is not grey: %d %d %d %d", w, h, x, y, b, q(x, y, 1), q(x, y, 2), q(x, y, 3)); CHECK(b <= n, "(%d,%d): %d for %d iterations", x, y, b, n);
		if (lo == hi) CHECK(b == lo, "%d x %d, %d iterations: (%d,%d) is %d instead of %d", w, h, n, x, y, b, lo);
	}
}
