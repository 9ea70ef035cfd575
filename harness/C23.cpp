//@srcs ImageIoBmp.cpp
#include "Image.h"
#include "ImageIoBmp.h"
#include "h.h"
static std::string slurp(const std::string& f) { std::ifstream s(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(s)), std::istreambuf_iterator<char>()); }
static long le(const std::string& s, size_t p, int n) { long v = 0; for (int i = n - 1; i >= 0; i--) v = v * 256 + (unsigned char)s.at(p + i); return v; }
static std::string name() { return "f" + std::to_string(getpid()) + ".bmp"; }
static Image gim(H::In& in, int p) { int w = in.i("w", 1, 21), h = in.i("h", 1, 9); Image m(w, h, p); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < p; k++) m(x, y, k) = (unsigned char)in.next(); return m; }
static const int PL[3] = { 1,3,4 };
CASE(round_trip) {
	Image m = gim(in, PL[in.i("planes", 0, 2)]); int p = m.planes(); std::string f = name(); const Image& c = m; Image o = m; const Image& oc = o;
	CHECK(ImageIoBmp::write(f, &m), "not written"); for (int y = 0; y < m.height(); y++) for (int x = 0; x < m.width(); x++) for (int k = 0; k < p; k++) CHECK(c(x, y, k) == oc(x, y, k), "the image changed");
	Image r; if (in.b("used")) r.resize(in.i("w0", 0, 30), in.i("h0", 0, 30), in.i("p0", 1, 4)); CHECK(ImageIoBmp::read(f, &r), "not read"); unlink(f.c_str()); CHECK(r.width() == m.width() && r.height() == m.height() && r.planes() == p, "%d x %d x %d read back as %d x %d x %d", m.width(), m.height(), p, r.width(), r.height(), r.planes());
	const Image& q = r; for (int y = 0; y < m.height(); y++) for (int x = 0; x < m.width(); x++) for (int k = 0; k < p; k++) { int e = k == 3 ? 0 : c(x, y, k); CHECK(q(x, y, k) == e, "%d x %d x %d: (%d,%d,%d) is %d instead of %d", m.width(), m.height(), p, x, y, k, q(x, y, k), e); }
}
CASE(layout) {
	Image m = gim(in, PL[in.i("planes", 0, 2)]); int w = m.width(), h = m.height(), p = m.planes(); std::string f = name(); CHECK(ImageIoBmp::write(f, &m), "not written"); std::string s = slurp(f); unlink(f.c_str()); const Image& c = m;
	CHECK(s.size() >= 54 && s[0] == 'B' && s[1] == 'M', "header"); long off = le(s, 10, 4), line = (w * p + 3) / 4 * 4, pal = p == 1 ? 1024 : 0;
	CHECK(le(s, 2, 4) == (long)s.size(), "%d x %d x %d: the file announces %ld bytes and has %zu", w, h, p, le(s, 2, 4), s.size()); CHECK(off == 54 + pal && le(s, 14, 4) == 40, "offsets %ld %ld", off, le(s, 14, 4)); CHECK(le(s, 18, 4) == w && le(s, 22, 4) == h, "size in the header");
	CHECK(le(s, 26, 2) == 1 && le(s, 28, 2) == 8 * p && le(s, 30, 4) == 0, "format in the header"); CHECK((long)s.size() == off + line * h, "%d x %d x %d: %zu bytes instead of %ld", w, h, p, s.size(), off + line * h); CHECK(le(s, 34, 4) == line * h, "data size");
	for (long i = 0; i < pal; i++) CHECK((unsigned char)s[54 + i] == (i % 4 == 3 ? 0 : i / 4), "palette byte %ld", i);
	for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < p; k++) { int e = p == 1 ? c(x, y) : k == 3 ? 0 : c(x, y, 2 - k); int b = (unsigned char)s.at(off + line * (h - 1 - y) + x * p + k); CHECK(b == e, "%d x %d x %d: byte %d of pixel (%d,%d) is %d instead of %d", w, h, p, k, x, y, b, e); }
}
CASE(foreign) { // a well-formed file that this writer did not make: padding bytes are arbitrary, alpha is kept
	int p = PL[in.i("planes", 0, 2)], w = in.i("w", 1, 17), h = in.i("h", 1, 7); long line = (w * p + 3) / 4 * 4, off = 54 + (p == 1 ? 1024 : 0); std::string s(off + line * h, 0); auto put = [&](int a, int n, long v) { for (int i = 0; i < n; i++) s[a + i] = (char)(v >> (8 * i)); };
	for (auto& ch : s) ch = (char)in.next(); put(0, 2, 0x4d42); put(2, 4, s.size()); put(10, 4, off); put(14, 4, 40); put(18, 4, w); put(22, 4, h); put(26, 2, 1); put(28, 2, 8 * p); put(30, 4, 0); put(34, 4, line * h); put(46, 4, 0); put(50, 4, 0);
	std::string f = name(); { std::ofstream o(f, std::ios::binary); o << s; } Image m; bool ok = ImageIoBmp::read(f, &m); unlink(f.c_str()); CHECK(ok && m.width() == w && m.height() == h && m.planes() == p, "not read"); const Image& c = m;
	for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int k = 0; k < p; k++) { int e = (unsigned char)s[off + line * (h - 1 - y) + x * p + (p == 1 || k == 3 ? k : 2 - k)]; if (k != 3) CHECK(c(x, y, k) == e, "%d x %d x %d: (%d,%d,%d) is %d instead of %d", w, h, p, x, y, k, c(x, y, k), e); }
}
CASE(errors) { Image m(2, 2, 3); CHECK(!ImageIoBmp::write("no/such/folder/f.bmp", &m), "a file in a missing folder was written"); CHECK(!ImageIoBmp::read("no/such/file.bmp", &m), "a missing file was read"); std::string f = name(); { std::ofstream o(f, std::ios::binary); o << "XX" << std::string(in.i("n", 0, 90), 'a'); } bool r = ImageIoBmp::read(f, &m); unlink(f.c_str()); CHECK(!r, "a file that is not a bitmap was read"); }
