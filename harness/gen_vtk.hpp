/** strict reader for the VTK XML files of the simulation: own XML scanner and base64 decoder */
#pragma once
#include "pbt.hpp"

namespace vtkx {
using namespace pbt;
struct Node {
    std::string tag;
    std::map<std::string, std::string> attr;
    std::vector<Node> kids;
    std::string text;
    const Node *kid(const std::string &t) const {
        for (auto &k : kids)
            if (k.tag == t)
                return &k;
        return nullptr;
    }
    std::string at(const std::string &k) const {
        auto it = attr.find(k);
        return it == attr.end() ? "" : it->second;
    }
};
struct Bad {
    std::string what;
};
/// elements, attributes and text; throws Bad on anything that is not well formed
class Scanner {
    const std::string &s;
    size_t p = 0;
    void ws() {
        while (p < s.size() && isspace((unsigned char)s[p]))
            p++;
    }
    std::string name() {
        size_t b = p;
        while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_' || s[p] == ':' || s[p] == '-'))
            p++;
        if (b == p)
            throw Bad{msg("name expected at byte ", b)};
        return s.substr(b, p - b);
    }
    Node element() {
        Node n;
        if (p >= s.size() || s[p] != '<')
            throw Bad{msg("element expected at byte ", p)};
        p++;
        n.tag = name();
        for (;;) {
            const size_t was = p;
            ws();
            if (p >= s.size())
                throw Bad{"file ends inside a tag"};
            if (s[p] == '/' && p + 1 < s.size() && s[p + 1] == '>') {
                p += 2;
                return n;
            }
            if (s[p] == '>') {
                p++;
                break;
            }
            if (was == p)
                throw Bad{msg("space expected at byte ", p)};
            const std::string k = name();
            ws();
            if (p >= s.size() || s[p] != '=')
                throw Bad{msg("= expected at byte ", p)};
            p++;
            ws();
            if (p >= s.size() || (s[p] != '"' && s[p] != '\''))
                throw Bad{msg("quote expected at byte ", p)};
            const char q = s[p++];
            const size_t e = s.find(q, p);
            if (e == std::string::npos)
                throw Bad{"unterminated attribute"};
            if (!n.attr.insert({k, s.substr(p, e - p)}).second)
                throw Bad{"attribute " + k + " given twice"};
            p = e + 1;
        }
        for (;;) {
            const size_t e = s.find('<', p);
            if (e == std::string::npos)
                throw Bad{"element " + n.tag + " is not closed"};
            n.text += s.substr(p, e - p);
            p = e;
            if (p + 1 < s.size() && s[p + 1] == '/') {
                p += 2;
                const std::string t = name();
                if (t != n.tag)
                    throw Bad{"element " + n.tag + " closed as " + t};
                ws();
                if (p >= s.size() || s[p] != '>')
                    throw Bad{"> expected"};
                p++;
                return n;
            }
            n.kids.push_back(element());
        }
    }

  public:
    explicit Scanner(const std::string &t) : s(t) {}
    Node document() {
        ws();
        if (s.compare(p, 5, "<?xml") == 0) {
            p = s.find("?>", p);
            if (p == std::string::npos)
                throw Bad{"xml declaration is not closed"};
            p += 2;
        }
        ws();
        Node n = element();
        ws();
        if (p != s.size())
            throw Bad{"text after the document"};
        return n;
    }
};
inline std::string unbase64(const std::string &t) {
    static const std::string abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    if (t.size() % 4)
        throw Bad{msg("base64 text of ", t.size(), " characters")};
    for (size_t i = 0; i < t.size(); i += 4) {
        unsigned v = 0;
        int pad = 0;
        for (int k = 0; k < 4; k++) {
            const char ch = t[i + k];
            if (ch == '=') {
                if (i + 4 != t.size() || k < 2)
                    throw Bad{"padding inside base64 text"};
                pad++;
                v <<= 6;
                continue;
            }
            if (pad)
                throw Bad{"base64 text after padding"};
            const size_t q = abc.find(ch);
            if (q == std::string::npos)
                throw Bad{"character outside the base64 alphabet"};
            v = v << 6 | unsigned(q);
        }
        for (int k = 0; k < 3 - pad; k++)
            o.push_back(char(v >> (16 - 8 * k)));
    }
    return o;
}
struct Array {
    std::string name, type;
    int comp = 1;
    std::string bytes;
    size_t width() const { return type == "UInt8" ? 1 : type == "Float64" ? 8 : 4; }
    size_t count() const { return bytes.size() / width(); }
    template <class T>
    T get(size_t i) const {
        T t;
        memcpy(&t, bytes.data() + i * sizeof(T), sizeof(T));
        return t;
    }
    double num(size_t i) const {
        return type == "UInt8" ? double(get<uint8_t>(i)) : type == "Int32" ? double(get<int32_t>(i)) : type == "Float32" ? double(get<float>(i)) : get<double>(i);
    }
};
inline Array arrayOf(const Node &n) {
    Array a;
    if (n.tag != "DataArray")
        throw Bad{"DataArray expected, found " + n.tag};
    a.name = n.at("Name");
    a.type = n.at("type");
    a.comp = n.attr.count("NumberOfComponents") ? atoi(n.at("NumberOfComponents").c_str()) : 1;
    if (a.type != "UInt8" && a.type != "Int32" && a.type != "Float32" && a.type != "Float64")
        throw Bad{"array " + a.name + " of type " + a.type};
    if (n.at("format") != "binary")
        throw Bad{"array " + a.name + " is not binary"};
    std::string t;
    for (char ch : n.text)
        if (!isspace((unsigned char)ch))
            t.push_back(ch);
    // the length header may be encoded by itself or in one stream with the data: readers accept both
    const bool apart = t.size() >= 8 && t[7] == '=';
    const std::string all = apart ? unbase64(t.substr(0, 8)) + unbase64(t.substr(8)) : unbase64(t);
    if (all.size() < 4)
        throw Bad{"array " + a.name + " without a header"};
    uint32_t len;
    memcpy(&len, all.data(), 4);
    if (all.size() != 4 + size_t(len))
        throw Bad{msg("array ", a.name, ": header says ", len, " bytes, ", all.size() - 4, " follow")};
    a.bytes = all.substr(4);
    if (a.comp < 1 || len % (a.width() * a.comp))
        throw Bad{msg("array ", a.name, ": ", len, " bytes for ", a.comp, " components of ", a.type)};
    return a;
}
struct Piece {
    size_t points = 0, lines = 0;
    Array pos, connectivity, offsets;
    std::vector<Array> pointData, cellData;
    const Array *cell(const std::string &n) const {
        for (auto &a : cellData)
            if (a.name == n)
                return &a;
        return nullptr;
    }
    const Array *point(const std::string &n) const {
        for (auto &a : pointData)
            if (a.name == n)
                return &a;
        return nullptr;
    }
};
/// a serial file of lines with two points each
inline Piece readVTP(const std::string &text) {
    Piece p;
    const Node d = Scanner(text).document();
    if (d.tag != "VTKFile" || d.at("type") != "PolyData")
        throw Bad{"not a PolyData file"};
    if (d.at("byte_order") != "LittleEndian" || (d.attr.count("header_type") && d.at("header_type") != "UInt32"))
        throw Bad{"byte order or header type"};
    if (d.attr.count("compressor"))
        throw Bad{"compressed"};
    const Node *pd = d.kid("PolyData");
    const Node *n = pd ? pd->kid("Piece") : nullptr;
    if (!n || pd->kids.size() != 1)
        throw Bad{"no single Piece"};
    p.points = strtoul(n->at("NumberOfPoints").c_str(), nullptr, 10);
    p.lines = strtoul(n->at("NumberOfLines").c_str(), nullptr, 10);
    for (auto t : {"NumberOfVerts", "NumberOfStrips", "NumberOfPolys"})
        if (n->attr.count(t) && n->at(t) != "0")
            throw Bad{std::string(t) + " is not zero"};
    const Node *pts = n->kid("Points"), *lines = n->kid("Lines"), *ptd = n->kid("PointData"), *cd = n->kid("CellData");
    if (!pts || pts->kids.size() != 1 || !lines)
        throw Bad{"Points or Lines missing"};
    p.pos = arrayOf(pts->kids[0]);
    if (p.pos.comp != 3 || p.pos.count() != 3 * p.points)
        throw Bad{msg(p.pos.count(), " coordinates for ", p.points, " points")};
    for (auto &k : lines->kids) {
        const Array a = arrayOf(k);
        if (a.type != "Int32")
            throw Bad{"lines are not Int32"};
        (a.name == "connectivity" ? p.connectivity : p.offsets) = a;
    }
    if (p.connectivity.name != "connectivity" || p.offsets.name != "offsets")
        throw Bad{"connectivity or offsets missing"};
    if (p.connectivity.count() != 2 * p.lines || p.offsets.count() != p.lines || p.points != 2 * p.lines)
        throw Bad{msg(p.lines, " lines with ", p.connectivity.count(), " ends, ", p.offsets.count(), " offsets and ", p.points, " points")};
    for (size_t i = 0; i < p.lines; i++)
        if (p.offsets.get<int32_t>(i) != int32_t(2 * i + 2) || p.connectivity.get<int32_t>(2 * i) != int32_t(2 * i) || p.connectivity.get<int32_t>(2 * i + 1) != int32_t(2 * i + 1))
            throw Bad{msg("line ", i, " does not join its two points")};
    std::set<std::string> names;
    if (ptd)
        for (auto &k : ptd->kids) {
            p.pointData.push_back(arrayOf(k));
            const Array &a = p.pointData.back();
            if (a.count() != a.comp * p.points)
                throw Bad{msg("point array ", a.name, " has ", a.count(), " values for ", p.points, " points")};
            if (!names.insert("p" + a.name).second)
                throw Bad{"point array " + a.name + " twice"};
        }
    if (cd)
        for (auto &k : cd->kids) {
            p.cellData.push_back(arrayOf(k));
            const Array &a = p.cellData.back();
            if (a.count() != a.comp * p.lines)
                throw Bad{msg("cell array ", a.name, " has ", a.count(), " values for ", p.lines, " lines")};
            if (!names.insert("c" + a.name).second)
                throw Bad{"cell array " + a.name + " twice"};
        }
    return p;
}
struct Index {
    struct Decl {
        std::string name, type;
        int comp;
        std::string show() const { return msg(name, " ", type, "x", comp); }
    };
    std::vector<Decl> pointData, cellData;
    std::string pointsType;
    std::vector<std::string> pieces;
};
inline Index readPVTP(const std::string &text) {
    Index x;
    const Node d = Scanner(text).document();
    if (d.tag != "VTKFile" || d.at("type") != "PPolyData")
        throw Bad{"not a PPolyData file"};
    const Node *p = d.kid("PPolyData");
    if (!p)
        throw Bad{"no PPolyData"};
    auto decls = [](const Node *n, std::vector<Index::Decl> &v) {
        if (n)
            for (auto &k : n->kids) {
                if (k.tag != "PDataArray")
                    throw Bad{"PDataArray expected"};
                v.push_back({k.at("Name"), k.at("type"), k.attr.count("NumberOfComponents") ? atoi(k.at("NumberOfComponents").c_str()) : 1});
            }
    };
    decls(p->kid("PPointData"), x.pointData);
    decls(p->kid("PCellData"), x.cellData);
    const Node *pts = p->kid("PPoints");
    if (!pts || pts->kids.size() != 1 || pts->kids[0].at("NumberOfComponents") != "3")
        throw Bad{"PPoints"};
    x.pointsType = pts->kids[0].at("type");
    for (auto &k : p->kids)
        if (k.tag == "Piece")
            x.pieces.push_back(k.at("Source"));
    return x;
}
/// the index declares exactly the arrays of a piece (order does not matter to a reader, types do); "" when it does
inline std::string declared(const std::vector<Index::Decl> &decl, const std::vector<Array> &have) {
    std::map<std::string, std::pair<std::string, int>> a, b;
    for (auto &d : decl)
        a[d.name] = {d.type, d.comp};
    for (auto &h : have)
        b[h.name] = {h.type, h.comp};
    if (a.size() != decl.size())
        return "an array is declared twice";
    for (auto &x : a)
        if (!b.count(x.first))
            return "array " + x.first + " is declared but not written";
    for (auto &x : b) {
        if (!a.count(x.first))
            return "array " + x.first + " is written but not declared";
        if (a[x.first] != x.second)
            return msg("array ", x.first, " is declared as ", a[x.first].first, "x", a[x.first].second, ", written as ", x.second.first, "x", x.second.second);
    }
    return "";
}
} // namespace vtkx
