// P15: compares the files of two runs: every dataset and attribute of every file
#include "vh.h"
#include <hdf5.h>
#include <dirent.h>
#include <set>
#include <algorithm>
#include <map>
static std::string key; static std::string fileN; static long n = 0; static std::set<std::string> skip;
static double tol;
static void cmp(const std::string &what, hid_t ta, std::vector<char> &a, hid_t tb, std::vector<char> &b, size_t na, size_t nb)
{
	n++;
	if (na != nb || H5Tget_class(ta) != H5Tget_class(tb)) { vh::fail(key + ":shape", "%s %s: %zu values, %zu without the stop", fileN.c_str(), what.c_str(), nb, na); return; }
	if (H5Tget_class(ta) == H5T_STRING) { if (strncmp(a.data(), b.data(), std::min(a.size(), b.size()))) vh::fail(key + ":value", "%s %s: '%.32s', '%.32s' without the stop", fileN.c_str(), what.c_str(), b.data(), a.data()); return; }
	if (H5Tget_class(ta) != H5T_FLOAT && H5Tget_class(ta) != H5T_INTEGER) { if (a != b) vh::fail(key + ":value", "%s %s differs", fileN.c_str(), what.c_str()); return; }
	double *x = (double *) a.data(), *y = (double *) b.data(); double big = 0; for (size_t i = 0; i < na; i++) big = std::max(big, fabs(x[i]));
	if (what == "/string/codata" && na % 3 == 0) for (double *p : {x, y}) { // the order of the plaquettes depends on the threads
		struct Row { double c[3]; bool operator<(const Row &o) const { return std::lexicographical_compare(c, c + 3, o.c, o.c + 3); } }; std::sort((Row *) p, (Row *) p + na / 3); }
	bool field = what == "/m" || what == "/v"; double e = field ? 0 : tol * big;
	for (size_t i = 0; i < na; i++) if (!(fabs(x[i] - y[i]) <= e) && !(std::isnan(x[i]) && std::isnan(y[i]))) { vh::fail(key + (field ? ":field" : ":value"), "%s %s[%zu] is %.9g, %.9g without the stop", fileN.c_str(), what.c_str(), i, y[i], x[i]); return; }
}
static std::vector<char> rd(hid_t id, bool attr, hid_t &t, size_t &cnt)
{
	t = attr ? H5Aget_type(id) : H5Dget_type(id); hid_t s = attr ? H5Aget_space(id) : H5Dget_space(id); cnt = H5Sget_simple_extent_npoints(s); H5Sclose(s);
	bool num = H5Tget_class(t) == H5T_FLOAT || H5Tget_class(t) == H5T_INTEGER; std::vector<char> b(std::max<size_t>(cnt * (num ? 8 : H5Tget_size(t)), 8));
	if (attr) H5Aread(id, num ? H5T_NATIVE_DOUBLE : t, b.data()); else H5Dread(id, num ? H5T_NATIVE_DOUBLE : t, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data());
	return b;
}
typedef std::map<std::string, std::pair<hid_t, std::pair<std::vector<char>, size_t>>> Tree;
static herr_t onAttr(hid_t o, const char *nm, const H5A_info_t *, void *p) { auto &d = *(std::pair<Tree *, std::string> *) p; hid_t a = H5Aopen(o, nm, H5P_DEFAULT), t; size_t c; auto b = rd(a, true, t, c); H5Aclose(a); (*d.first)[d.second + "@" + nm] = {t, {b, c}}; return 0; }
static herr_t onObj(hid_t f, const char *nm, const H5O_info_t *i, void *p)
{
	Tree *t = (Tree *) p; std::string name = !strcmp(nm, ".") ? "" : nm; hid_t o = H5Oopen(f, nm, H5P_DEFAULT); std::pair<Tree *, std::string> d{t, "/" + name};
	H5Aiterate(o, H5_INDEX_NAME, H5_ITER_INC, nullptr, onAttr, &d);
	if (i->type == H5O_TYPE_DATASET) { hid_t ty; size_t c; auto b = rd(o, false, ty, c); (*t)["/" + name] = {ty, {b, c}}; }
	H5Oclose(o); return 0;
}
static Tree tree(const std::string &f) { Tree t; hid_t h = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (h < 0) { vh::fail(key + ":open", "%s cannot be opened", f.c_str()); return t; } H5Ovisit(h, H5_INDEX_NAME, H5_ITER_INC, onObj, &t); H5Fclose(h); return t; }
int main(int argc, char **argv)
{
	vh::open(0); tol = atof(argv[1]); bool numbers = atoi(argv[2]);
	for (const char *s : {"/@Computing time", "/@Propagation step", "/@cTime", "/@timesec", "/@Depth", "/@Wall time [s]", "/@Prop step #"}) skip.insert(s);
	if (!numbers) skip.insert("/@Current step");
	for (int i = 3; i + 2 < argc; i += 3) { // key, directory without, directory with the stop
		key = argv[i]; std::string A = argv[i + 1], B = argv[i + 2]; std::set<std::string> fa, fb;
		for (int w = 0; w < 2; w++) { DIR *d = opendir((w ? B : A).c_str()); while (auto e = readdir(d)) { std::string s = e->d_name; if (s.substr(0, 6) == "axion." && s.find(".log") == s.npos && s.find("lock") == s.npos && s.find("restart") == s.npos) (w ? fb : fa).insert(s); } closedir(d); }
		auto last = [](const std::set<std::string> &f, bool m) { std::string r; for (auto &s : f) if ((s.find(".m.") != s.npos) == m) r = s; return r; };
		if (numbers && fa != fb) { std::string l; for (auto &s : fa) if (!fb.count(s)) l += " -" + s; for (auto &s : fb) if (!fa.count(s)) l += " +" + s; vh::fail(key + ":files", "the stopped run has other files:%s", l.c_str()); }
		std::vector<std::pair<std::string, std::string>> pairs;
		if (numbers) { for (auto &s : fa) if (fb.count(s)) pairs.push_back({s, s}); }
		else for (bool m : {false, true}) pairs.push_back({last(fa, m), last(fb, m)});
		if (fa.empty()) vh::fail(key + ":files", "no files in %s", A.c_str());
		for (auto &q : pairs) {
			fileN = q.second; Tree a = tree(A + "/" + q.first), b = tree(B + "/" + q.second);
			for (auto &x : a) if (!skip.count(x.first)) { auto y = b.find(x.first); if (y == b.end()) vh::fail(key + ":shape", "%s has no %s", fileN.c_str(), x.first.c_str()); else cmp(x.first, x.second.first, x.second.second.first, y->second.first, y->second.second.first, x.second.second.second, y->second.second.second); }
			for (auto &y : b) if (!skip.count(y.first) && !a.count(y.first)) vh::fail(key + ":shape", "%s has %s, which is not there without the stop", fileN.c_str(), y.first.c_str());
			if (a.size()) vh::eval(key + " " + fileN);
		}
	}
	vh::counter("compared_objects", n); vh::close(); return 0;
}
