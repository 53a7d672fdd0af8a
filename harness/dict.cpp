// Values through the scripting layer: dict OUT SEED ROUNDS
#include "util.h"
#include "utility/dictionary.h"
#include "utility/complex.h"
#include "utility/momentum.h"
#include "utility/rng.h"
#include "utility/vector.h"
#include "utility/pyglue/pyarraywrapper.h"
#include <Python.h>
#include <numpy/arrayobject.h>
#include <memory>
#include <algorithm>
#include <map>
#include <list>
using namespace std;
using Python::AnyObject;
using Python::ArrayObject;
static ofstream Out;
static Rng R;

static string q(const string& s)
{
    static const char* h = "0123456789abcdef";
    string o = "\"";
    for (unsigned char c : s)
        if (c == '"' || c == '\\')
            o += '\\', o += c;
        else if (c < 32 || c > 126) {
            o += "%";
            o += h[c >> 4];
            o += h[c & 15];
        }
        else
            o += c;
    return o + "\"";
}
static string hex(double x)
{
    char b[64];
    if (x == 0)
        return q("0");
    if (std::isnan(x))
        return q("nan");
    if (std::isinf(x))
        return q(x < 0 ? "-inf" : "inf");
    snprintf(b, sizeof b, "%a", x);
    return q(b);
}
static string join(const vector<string>& v)
{
    string o = "[";
    for (size_t j = 0; j < v.size(); j++)
        o += (j ? "," : "") + v[j];
    return o + "]";
}
static string num(const string& dec, double asd, int mask) { return "[\"int\"," + q(dec) + "," + hex(asd) + "," + to_string(mask) + "]"; }
static string isigned(long long v)
{
    int m = 4 + (v >= INT32_MIN && v <= INT32_MAX ? 1 : 0) + (v >= 0 && v <= (long long)UINT32_MAX ? 2 : 0) + (v >= 0 ? 8 : 0);
    return num(to_string(v), (double)v, m);
}
static string iunsigned(unsigned long long v)
{
    if (v <= (unsigned long long)INT64_MAX)
        return isigned((long long)v);
    return num(to_string(v), (double)v, 8);
}

// ---- what a Python object is, without the code under test ----------------
static string walk(PyObject* o)
{
    if (!o)
        return "[\"null\"]";
    if (o == Py_None)
        return "[\"none\"]";
    if (PyBool_Check(o))
        return string("[\"bool\",") + (o == Py_True ? "1" : "0") + "]";
    if (PyLong_Check(o)) {
        int over = 0;
        long long v = PyLong_AsLongLongAndOverflow(o, &over);
        if (over == 0)
            return isigned(v);
        unsigned long long u = PyLong_AsUnsignedLongLong(o);
        if (PyErr_Occurred()) {
            PyErr_Clear();
            return "[\"huge\"]";
        }
        return iunsigned(u);
    }
    if (PyFloat_Check(o))
        return "[\"real\"," + hex(PyFloat_AsDouble(o)) + "]";
    if (PyComplex_Check(o))
        return "[\"cpx\"," + hex(PyComplex_RealAsDouble(o)) + "," + hex(PyComplex_ImagAsDouble(o)) + "]";
    if (PyUnicode_Check(o)) {
        const char* s = PyUnicode_AsUTF8(o);
        if (!s) {
            PyErr_Clear();
            return "[\"badstr\"]";
        }
        return "[\"str\"," + q(s) + "]";
    }
    if (PyList_Check(o)) {
        vector<string> v;
        for (Py_ssize_t j = 0; j < PyList_Size(o); j++)
            v.push_back(walk(PyList_GetItem(o, j)));
        return "[\"list\"," + join(v) + "]";
    }
    if (PyTuple_Check(o)) {
        vector<string> v;
        for (Py_ssize_t j = 0; j < PyTuple_Size(o); j++)
            v.push_back(walk(PyTuple_GetItem(o, j)));
        return "[\"tuple\"," + join(v) + "]";
    }
    if (PyDict_Check(o)) {
        vector<string> v;
        PyObject *k, *x;
        Py_ssize_t p = 0;
        while (PyDict_Next(o, &p, &k, &x))
            v.push_back("[" + walk(k) + "," + walk(x) + "]");
        sort(v.begin(), v.end());
        return "[\"dict\"," + join(v) + "]";
    }
    if (PyArray_Check(o)) {
        PyArrayObject* a = (PyArrayObject*)o;
        vector<string> sh, v;
        for (int j = 0; j < PyArray_NDIM(a); j++)
            sh.push_back(to_string(PyArray_DIM(a, j)));
        PyObject* c = PyArray_NewCopy(a, NPY_CORDER);
        int t = PyArray_TYPE(a);
        size_t n = PyArray_SIZE(a);
        if (t == NPY_FLOAT64)
            for (size_t j = 0; j < n; j++)
                v.push_back(hex(((double*)PyArray_DATA((PyArrayObject*)c))[j]));
        else if (t == NPY_COMPLEX128)
            for (size_t j = 0; j < 2 * n; j++)
                v.push_back(hex(((double*)PyArray_DATA((PyArrayObject*)c))[j]));
        Py_DECREF(c);
        return "[\"arr\"," + q(t == NPY_FLOAT64 ? "real" : t == NPY_COMPLEX128 ? "cpx" : "other") + "," + join(sh) + "," + join(v) + "]";
    }
    return "[\"other\"]";
}
static string dump(const Dictionary& d)
{
    vector<string> v;
    for (auto& e : d)
        v.push_back("[" + q(e.first) + "," + walk(e.second.Get()) + "]");
    sort(v.begin(), v.end());
    return join(v);
}

// ---- C++ values: how to make one, and what it is ------------------------------
template <class T>
struct Val;
template <>
struct Val<int> {
    static string name() { return "i32"; }
    static int make()
    {
        int t[] = { 0, 1, -1, INT32_MAX, INT32_MIN, 2, 10, -7 };
        return R.below(2) ? t[R.below(8)] : R.range(-1000000, 1000000);
    }
    static string is(int v) { return "[\"i32\"," + isigned(v) + "]"; }
};
template <>
struct Val<unsigned> {
    static string name() { return "u32"; }
    static unsigned make()
    {
        unsigned t[] = { 0, 1, UINT32_MAX, 1u << 31, 7 };
        return t[R.below(5)];
    }
    static string is(unsigned v) { return "[\"u32\"," + iunsigned(v) + "]"; }
};
template <>
struct Val<long long> {
    static string name() { return "i64"; }
    static long long make()
    {
        long long t[] = { 0, -1, INT64_MAX, INT64_MIN, 1LL << 40, -(1LL << 33) - 5 };
        return R.below(2) ? t[R.below(6)] : (long long)R.next();
    }
    static string is(long long v) { return "[\"i64\"," + isigned(v) + "]"; }
};
template <>
struct Val<unsigned long long> {
    static string name() { return "u64"; }
    static unsigned long long make()
    {
        unsigned long long t[] = { 0, UINT64_MAX, 1ULL << 63, 12345678901ULL };
        return R.below(2) ? t[R.below(4)] : R.next();
    }
    static string is(unsigned long long v) { return "[\"u64\"," + iunsigned(v) + "]"; }
};
static double anyreal()
{
    double t[] = { 0, 1, -1, 0.1, 1.0 / 3, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 123456.789, 1e16, 2.5e-8, HUGE_VAL };
    if (R.below(2))
        return t[R.below(13)];
    return ldexp((double)(long long)(R.next() >> 11) * (R.below(2) ? 1 : -1), R.range(-80, 20));
}
template <>
struct Val<double> {
    static string name() { return "f64"; }
    static double make() { return anyreal(); }
    static string is(double v) { return "[\"f64\"," + hex(v) + "]"; }
};
template <>
struct Val<Complex> {
    static string name() { return "c"; }
    static Complex make()
    {
        double a = anyreal(), b = R.below(4) ? anyreal() : 0;
        if (std::isinf(a) || std::isinf(b))
            return Complex(1.5, -0.25);
        return Complex(a, b);
    }
    static string is(const Complex& v) { return "[\"c\"," + hex(v.Re) + "," + hex(v.Im) + "]"; }
};
template <>
struct Val<bool> {
    static string name() { return "b"; }
    static bool make() { return R.below(2); }
    static string is(bool v) { return string("[\"b\",") + (v ? "1" : "0") + "]"; }
};
template <>
struct Val<string> {
    static string name() { return "s"; }
    static string make()
    {
        const char* t[] = { "", "a", "Beta", "it's", "say \"hi\"", "two\nlines", "tab\there", "{'a':1}", "1", "True", "\xc3\xa9t\xc3\xa9", "back\\slash", " " };
        if (R.below(4))
            return t[R.below(13)];
        string s;
        for (int n = R.below(200); n > 0; n--)
            s += (char)R.range(32, 126);
        return s;
    }
    static string is(const string& v) { return "[\"s\"," + q(v) + "]"; }
};
template <>
struct Val<spin> {
    static string name() { return "spin"; }
    static spin make() { return R.below(2) ? UP : DOWN; }
    static string is(spin v) { return "[\"spin\"," + isigned((int)v) + "]"; }
};
template <>
struct Val<Momentum> {
    static string name() { return "mom"; }
    static Momentum make() { return Momentum(R.range(-10000, 10000)); }
    static string is(Momentum v) { return "[\"mom\"," + isigned(v.K) + "]"; }
};
template <>
struct Val<RandomFactory> {
    static string name() { return "rng"; }
    static RandomFactory make()
    {
        RandomFactory r(R.below(100));
        for (int n = R.below(700); n > 0; n--)
            r.urn();
        return r;
    }
    static string is(const RandomFactory& v)
    {
        RandomFactory c = v;
        string s;
        for (int j = 0; j < 6; j++)
            s += to_string(c.irn(0, 999999)) + " ";
        return "[\"rng\"," + q(s) + "]";
    }
};
template <class T>
struct Val<Vec<T>> {
    static string name() { return "vec:" + Val<T>::name(); }
    static Vec<T> make()
    {
        Vec<T> v;
        for (int i = 0; i < D; i++)
            v[i] = Val<T>::make();
        return v;
    }
    static string is(const Vec<T>& v)
    {
        vector<string> o;
        for (int i = 0; i < D; i++)
            o.push_back(Val<T>::is(v[i]));
        return "[\"vec\"," + join(o) + "]";
    }
};
template <class T>
struct Val<vector<T>> {
    static string name() { return "list:" + Val<T>::name(); }
    static vector<T> make()
    {
        vector<T> v;
        for (int n = R.below(5); n > 0; n--)
            v.push_back(Val<T>::make());
        return v;
    }
    static string is(const vector<T>& v)
    {
        vector<string> o;
        for (size_t j = 0; j < v.size(); j++)
            o.push_back(Val<T>::is(v[j]));
        return "[\"list\"," + join(o) + "]";
    }
};
template <class T>
struct Val<list<T>> {
    static string name() { return "list:" + Val<T>::name(); }
    static list<T> make()
    {
        auto v = Val<vector<T>>::make();
        return list<T>(v.begin(), v.end());
    }
    static string is(const list<T>& v) { return Val<vector<T>>::is(vector<T>(v.begin(), v.end())); }
};
template <class K, class V>
struct Val<map<K, V>> {
    static string name() { return "map:" + Val<K>::name() + ":" + Val<V>::name(); }
    static map<K, V> make()
    {
        map<K, V> m;
        for (int n = R.below(4); n > 0; n--)
            m[Val<K>::make()] = Val<V>::make();
        return m;
    }
    static string is(const map<K, V>& m)
    {
        vector<string> o;
        for (auto& e : m)
            o.push_back("[" + Val<K>::is(e.first) + "," + Val<V>::is(e.second) + "]");
        sort(o.begin(), o.end());
        return "[\"map\"," + join(o) + "]";
    }
};
// arrays do not own their data: keep it here
static list<vector<double>> Store;
template <>
struct Val<ArrayObject> {
    static string name() { return "arr"; }
    static ArrayObject make()
    {
        int dim = R.range(1, 3);
        vector<uint> sh;
        size_t n = 1;
        for (int j = 0; j < dim; j++)
            sh.push_back(R.range(1, 3)), n *= sh.back();
        bool c = R.below(2);
        Store.push_back(vector<double>(c ? 2 * n : n));
        for (auto& x : Store.back()) {
            x = anyreal();
            if (std::isinf(x))
                x = 0.3;
        }
        if (c)
            return ArrayObject((Complex*)Store.back().data(), sh, dim);
        return ArrayObject((real*)Store.back().data(), sh, dim);
    }
    static string is(ArrayObject a)
    {
        vector<string> sh, v;
        vector<uint> s = a.Shape();
        for (auto x : s)
            sh.push_back(to_string(x));
        PyArrayObject* p = (PyArrayObject*)a.Get();
        bool c = PyArray_TYPE(p) == NPY_COMPLEX128;
        size_t n = a.Size();
        if ((int)s.size() != a.Dim())
            return "[\"bad shape\"]";
        for (size_t j = 0; j < n; j++)
            if (c) {
                v.push_back(hex(a.Data<Complex>()[j].Re));
                v.push_back(hex(a.Data<Complex>()[j].Im));
            }
            else
                v.push_back(hex(a.Data<real>()[j]));
        return "[\"arr\"," + q(c ? "cpx" : "real") + "," + join(sh) + "," + join(v) + "]";
    }
};
template <>
struct Val<Dictionary> {
    static string name() { return "d"; }
    static Dictionary make();
    static string is(const Dictionary& d);
};

static map<string, string> Meant; // of the dictionary made last, key -> value
struct Kind {
    string name;
    function<string(Dictionary&, const string&)> put; // store a new value, tell what it is
    function<string(const Dictionary&, const string&)> get; // Get<T>(key)
    function<string(const Dictionary&, const string&)> get2; // Get(key, T&)
    function<string(Dictionary&, const string&)> as; // d[key].As<T>()
};
static vector<Kind> Kinds;
template <class T>
static void readable(function<string(Dictionary&, const string&)> put = nullptr)
{
    Kind k;
    k.name = Val<T>::name();
    k.put = put;
    k.get = [](const Dictionary& d, const string& key) { return Val<T>::is(d.Get<T>(key)); };
    k.get2 = [](const Dictionary& d, const string& key) {
        T v{};
        d.Get(key, v);
        return Val<T>::is(v);
    };
    k.as = [](Dictionary& d, const string& key) {
        if (!d.HasKey(key))
            throw runtime_error("no key"); // [] would create it
        return Val<T>::is(d[key].As<T>());
    };
    Kinds.push_back(k);
}
template <class T>
static void kind()
{
    auto put = [](Dictionary& d, const string& key) {
        T v = Val<T>::make();
        string s = Val<T>::is(v);
        d[key] = v;
        return s;
    };
    readable<T>(put);
}
static int Depth = 0;
Dictionary Val<Dictionary>::make()
{
    Dictionary d;
    Depth++;
    for (int n = R.below(4); n > 0; n--) {
        int j = R.below(Kinds.size());
        if (!Kinds[j].put)
            continue;
        if (Kinds[j].name == "d" && Depth > 3)
            continue;
        Kinds[j].put(d, Val<string>::make());
    }
    Depth--;
    return d;
}
string Val<Dictionary>::is(const Dictionary& d) { return "[\"d\"," + dump(d) + "]"; }

static const char* scripts[] = {
    "{'b':11,'c':22, 'r':False}", "{}", "{'x': [1, 2.5, 3]}", "{'x': [[1,2],[3]], 'y': None}", "{'t': (1,2)}", "{'n': {'m': {'k': 1e-3}}}",
    "{'z': 1+2j, 'w': 3j}", "{'s': 'abc', 'e': ''}", "{'big': 2**62, 'neg': -2**63, 'u': 2**64-1}", "{'l': [True, False], 'm': [1, True]}", "{'d': {1: 'a', 2: 'b'}}",
    "{'sl': ['a', 'b'], 'cl': [1j, 2+0j]}",
    // not to be loaded
    "{'a':1, 2:3}", "[1,2]", "5", "{'a':", "nosuchname", "{'a': 1/0}", "{(1,2): 'a'}", "{'k': 1, None: 2, 'l': 3}"
};
static const int NSCRIPTS = 20, NGOOD = 12;

int main(int argc, char** argv)
{
    if (argc < 4)
        return 3;
    Out.open(argv[1]);
    R.s = strtoull(argv[2], 0, 10) * 65537 + 3;
    int rounds = atoi(argv[3]);
    quiet();
    Python::Initialize();
    Python::ArrayInitialize();
    if (_import_array() < 0)
        return 3;
    kind<int>();
    kind<unsigned>();
    kind<long long>();
    kind<unsigned long long>();
    kind<double>();
    kind<Complex>();
    kind<bool>();
    kind<string>();
    kind<spin>();
    kind<Momentum>();
    kind<RandomFactory>();
    kind<Vec<int>>();
    kind<Vec<double>>();
    kind<vector<int>>();
    kind<vector<double>>();
    kind<vector<Complex>>();
    kind<vector<string>>();
    kind<list<long long>>();
    readable<vector<vector<int>>>();
    kind<map<string, int>>();
    kind<map<string, double>>();
    kind<map<int, string>>();
    kind<map<string, vector<double>>>();
    kind<ArrayObject>();
    kind<Dictionary>();
    for (int r = 0; r < rounds; r++) {
        Dictionary d;
        vector<string> names = { "a", "b", "Beta", "", "x y" };
        {
            Ev e("new");
            Out << e.raw("d", dump(d)).str();
        }
        if (R.below(4) == 0) {
            int s = R.below(NSCRIPTS);
            if (s >= NGOOD && R.below(2))
                Kinds[0].put(d, "a");
            string before = dump(d);
            bool ok = true;
            try {
                d.LoadFromString(scripts[s]);
            }
            catch (std::exception& x) {
                ok = false;
            }
            Ev e("script");
            // what the script means, without the code under test
            string mean = "[]";
            if (s < NGOOD) {
                PyObject* g = PyModule_GetDict(PyImport_AddModule("__main__"));
                PyObject* v = PyRun_String(scripts[s], Py_eval_input, g, g);
                PyObject *k, *x;
                Py_ssize_t p = 0;
                vector<string> o;
                while (PyDict_Next(v, &p, &k, &x))
                    o.push_back("[" + q(PyUnicode_AsUTF8(k)) + "," + walk(x) + "]");
                sort(o.begin(), o.end());
                mean = join(o);
            }
            e.raw("before", before).b("good", s < NGOOD).b("ok", ok).raw("mean", mean).raw("d", dump(d));
            Out << e.str();
            names.clear();
            for (auto& x : d)
                names.push_back(x.first);
            names.push_back("missing");
        }
        {
            RandomFactory g = Val<RandomFactory>::make();
            Dictionary h;
            h["g"] = g;
            string a = Val<RandomFactory>::is(g), b = "[]", c = "[]";
            try {
                b = Val<RandomFactory>::is(h.Get<RandomFactory>("g"));
                h.Save("rng", "w");
                Dictionary h2;
                h2.Load("rng");
                RandomFactory z;
                h2.Get("g", z);
                c = Val<RandomFactory>::is(z);
            }
            catch (std::exception& x) {
            }
            Ev e("rngtrip");
            Out << e.raw("a", a).raw("b", b).str();
            Ev f("rngtrip");
            Out << f.raw("a", a).raw("b", c).str();
        }
        int steps = R.range(5, 25);
        for (int s = 0; s < steps; s++) {
            string key = names[R.below(names.size())];
            int op = R.below(100);
            if (op < 35) {
                int j = R.below(Kinds.size());
                if (!Kinds[j].put)
                    continue;
                string before = dump(d);
                string v = Kinds[j].put(d, key);
                string after = dump(d);
                Ev e("put");
                // only the entry that was written, and whether the others are as before
                e.s("key", key).raw("val", v).raw("py", walk(d[key].Get())).raw("before", before).raw("d", after);
                Out << e.str();
            }
            else if (op < 85) {
                int j = R.below(Kinds.size()), way = R.below(3);
                string before = dump(d), got = "[]";
                bool ok = true, has = d.HasKey(key);
                string py = has ? walk(d[key].Get()) : "[\"absent\"]";
                try {
                    got = way == 0 ? Kinds[j].get(d, key) : way == 1 ? Kinds[j].get2(d, key) : Kinds[j].as(d, key);
                }
                catch (std::exception& x) {
                    ok = false;
                }
                bool pend = PyErr_Occurred() != nullptr;
                PyErr_Clear();
                Ev e("get");
                e.s("key", key).s("type", Kinds[j].name).b("ok", ok).raw("got", got).raw("py", py).b("pend", pend).raw("before", before).raw("d", dump(d));
                Out << e.str();
            }
            else if (op < 90) {
                Dictionary f;
                for (int n = R.below(3); n > 0; n--)
                    Kinds[R.below(13)].put(f, names[R.below(names.size())]);
                string before = dump(d), with = dump(f);
                d.Update(f);
                Ev e("update");
                Out << e.raw("before", before).raw("with", with).raw("d", dump(d)).str();
            }
            else if (op < 93) {
                Dictionary c = d, f;
                f["zz"] = 1;
                f = d;
                string before = dump(d);
                if (R.below(2))
                    c["extra"] = 5;
                Ev e("copy");
                e.raw("before", before).raw("d", dump(d)).raw("f", dump(f));
                Out << e.str();
            }
            else if (op < 94) {
                d.Clear();
                Ev e("clear");
                Out << e.raw("d", dump(d)).b("empty", d.IsEmpty()).str();
            }
            else if (op < 99) {
                bool big = R.below(2), ok = true, samename = R.below(3) == 0;
                string f = samename ? "same" : "file" + to_string(R.below(1000000));
                Dictionary g, old;
                string before = dump(d);
                if (samename) {
                    // over an earlier file
                    old["old"] = string("contents");
                    if (big)
                        old.BigSave(f);
                    else
                        old.Save(f, "w");
                }
                try {
                    if (big) {
                        d.BigSave(f);
                        g.BigLoad(f);
                    }
                    else {
                        d.Save(f, "w");
                        g.Load(f);
                    }
                }
                catch (std::exception& x) {
                    ok = false;
                }
                Ev e("file");
                e.b("big", big).b("ok", ok).raw("before", before).raw("d", dump(d)).raw("f", dump(g));
                Out << e.str();
                unlink((f + (big ? ".hkl" : ".txt")).c_str());
            }
            else {
                bool ok = true, big = R.below(2);
                string before = dump(d);
                try {
                    if (big)
                        d.BigLoad("no_such_file");
                    else
                        d.Load("no_such_file");
                }
                catch (std::exception& x) {
                    ok = false;
                }
                Ev e("nofile");
                Out << e.b("ok", ok).raw("before", before).raw("d", dump(d)).str();
            }
        }
    }
    Out << "{\"k\":\"end\"}\n";
    Out.flush();
    _exit(0);
}
